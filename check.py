#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the current tree of /repo by static analysis."""
import os, sys, json, time, signal, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'units'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
UNITS = ['views', 'lines', 'fields', 'reader', 'formula', 'grammar', 'errors', 'panics', 'effects', 'typefacts']


LIMIT = 500


class Late(BaseException):
    pass


def alarm(s, f):
    raise Late()


def main():
    t0 = time.time()
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv
    import dump
    try:
        import run
        r = run.Run()
    except dump.BuildError as x:
        print('cannot analyse the tree: %s' % str(x)[-2000:])
        return 2
    r.thorough = thorough
    r.prop = prop
    r.rep.expected = frozenset(k for p, k in findings())
    if prop != 'all':
        r.rep.focus = prop
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    for n in UNITS:
        if not os.path.exists(os.path.join(HERE, 'units', n + '.py')):
            continue
        m = importlib.import_module(n)
        if prop == 'all' or prop in m.PROPS:
            r.ran.add(n)
            try:
                m.run(r)
            except Late:
                for p in m.PROPS:
                    r.rep.maybe((p,), 'the analysis of %s was stopped after %d s' % (n, LIMIT))
                break
            except Exception as x:
                for p in m.PROPS:
                    r.rep.maybe((p,), 'the analysis of %s failed: %s' % (n, run.blame(x)))
    signal.alarm(0)
    return finish(r, prop, thorough, t0)


def findings():
    out = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('finding:'):
            h, text = l[8:].split('::', 1)
            d = dict(x.split('=', 1) for x in h.split())
            out[d['property'], d['key']] = text.strip()
    return out


def finish(r, prop, thorough, t0):
    rep = r.rep
    known = findings()
    mine = [(k, t) for p, k, t in rep.violations if prop in p or prop == 'all']
    und = [t for p, t in rep.undecided if prop in p or prop == 'all']
    if prop == 'all':
        for p, k, t in rep.violations:
            print('BAD', ','.join(p), k, t[:int(os.environ.get('W', 400))])
        for p, t in rep.undecided:
            print('UND', ','.join(p), t[:int(os.environ.get('W', 400))])
        for u in rep.units:
            print('unit', u)
        print('obligations', dict(sorted(rep.obl.items())))
        print('discharged', dict(sorted(rep.done.items())))
        print('%.1fs' % (time.time() - t0))
        return 0
    new = [(k, t) for k, t in mine if (prop, k) not in known]
    old = sorted({k for k, t in mine if (prop, k) in known})
    for k in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[prop, k]))
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    replay = os.path.join(out, prop + '.txt')
    if new:
        with open(replay, 'w') as f:
            for k, t in new:
                f.write('%s\n  %s\n' % (k, t))
        for k, t in new[:10]:
            print('  %s: %s' % (k, t[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    obl, done = rep.obl.get(prop, 0), rep.done.get(prop, 0)
    us = [u for u in rep.units if 'props' not in u or prop in u['props']]
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': r_level(prop),
        'coverage': {
            'explanation': 'Static analysis of the MIR of the current tree: %d functions, %d paths; %d obligations of the property, '
                           '%d discharged, %d known findings, %d not decided.' % (len(rep.functions), rep.paths, obl, done, len(old), len(und)),
            'obligations': obl, 'discharged': done, 'units': us, 'functions': sorted(rep.functions),
            'undecided': und[:50], 'source_hash': r.w.hash,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
        'violation_details': [{'key': k, 'what': t[:2000]} for k, t in new],
        'known_findings': old,
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d not decided, %d known, %d violations, %.1fs'
          % (prop, obl, done, len(und), len(old), len(new), time.time() - t0))
    if new:
        return 1
    if not obl and not und:
        print('no obligation was found: the code this property is anchored in is missing')
        return 2
    return 0


def r_level(prop):
    return 'other'


ASSUMPTIONS = [
    'rustc (nightly) compiles the MIR it is asked for as the pinned toolchain would; the MIR is the one before optimisation, with overflow checks',
    'the functions of core, alloc, std, regex and locale_config do what lib/models.py says they do; a function without a model leaves what depends on it undecided',
    'lalrpop turns the productions it writes down in the comments of the generated parser into tables that accept exactly that grammar, and its lexer takes the longest match',
    'memory does not run out, and fewer than 2^48 lines, characters or elements are met in one run',
    'code behind `derive` does what derive documents; formatting to a String succeeds',
    'a function that is summarised in one unit and used by its specification in another keeps its name and its parameters (the tests inside the crate pin both)',
]

if __name__ == '__main__':
    sys.exit(main())
