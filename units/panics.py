"""No reachable panic (C01) and progress of every loop (C02), over the paths of every function."""
import importlib, json, re
from run import *
import engine, evalt, spec
from engine import Engine, Loc, strip_generics

PROPS = ('C01', 'C02')
GENERATED = '__parse__Formula'
OTHERS = ('views', 'lines', 'fields', 'reader', 'formula', 'grammar', 'errors')


def generated(i, k):
    return GENERATED in k or '/out/' in i['span'] or 'plural::formula::formula::' in k


def run(r):
    have = getattr(r, 'ran', set())
    for n in OTHERS:
        if n not in have:
            importlib.import_module(n).run(r)
    r.w.parser
    rest(r)
    panics(r)
    loops(r)
    recursion(r)


# ---------------------------------------------------------------- functions no unit looks at
def derived_impls(r):
    """Functions of derived impls (Clone, Debug, PartialEq, Hash, Default): code of the compiler, which does not panic."""
    spans = {i['span'] for i in r.w.dump['impls'] if i['derived']}
    ks = set()
    for i in r.w.dump['impls']:
        if i['derived']:
            ks.add((strip_generics(i['trait'] or ''), strip_generics(i['self'])))
    out = set()
    for k in r.w.dump['instances']:
        for t, s in ks:
            if k.startswith('<%s as %s' % (s, t)):
                out.add(k)
    return out


def mine(i, k):
    return i['local'] and i['span'].startswith('src/') and not generated(i, k)


def rest(r):
    """Summaries of the local functions that are neither generated nor derived and that no unit has gone through."""
    seen = set()
    for e, k, outs in Engine.journal:
        seen.update(e.visited)
    r.derived = derived_impls(r)
    d = r.w.dump['instances']
    names = [k for k, i in d.items() if mine(i, k) and k not in seen and k not in r.derived]
    acts = {}
    import formula, reader
    acts[formula.PARSER + '::parse'] = formula.parser_action
    acts[formula.PARSER + '::new'] = formula.new_parser_action
    import lines
    done = set(seen)
    inner = {strip_generics(f['path']) for f in r.w.dump['fns'] if not f['exported'] and not f['trait']}
    users = callers(d, [k for k in names if strip_generics(k) in inner])
    r.dead = []
    todo = sorted(names, key=lambda k: (k in users, d[k].get('kind') == 'Closure', k))
    while todo:
        # a function that only this crate can call is looked at where it is called; one that no path of its callers
        # gets to is never entered
        late = [k for k in todo if k in users and any(u not in done and u in todo for u in users[k])]
        k = next((x for x in todo if x not in late), todo[0])
        todo.remove(k)
        if k in done:
            continue
        if k in users and users[k] and all(u in done or u in r.dead for u in users[k]) or strip_generics(d[k].get('parent') or '') in map(strip_generics, r.dead):
            r.dead.append(k)
            continue
        try:
            e = r.w.engine(dict(acts))
            e.actions[strip_generics(k)] = again_action     # a call of itself
            e.actions['po::reader::PoReader::new'] = reader_new_action
            e.summarise(k)
            done.update(e.visited)
        except (Undecided, Budget, RecursionError) as x:
            r.rep.maybe(('C01',), '%s: %s' % (strip_generics(k), str(x)[:200]))
    r.rest = names


def callers(d, ks):
    """the functions whose bodies mention each of the functions"""
    out = {k: set() for k in ks}
    for u, i in d.items():
        if not i['local'] or not ks:
            continue
        text = json.dumps([i.get('blocks'), i.get('early')])
        for k in ks:
            if u != k and ('"%s"' % k in text or '::%s' % clean(k) in text):
                out[k].add(u)
    return out


def again_action(c):
    v = app('again', *[c.load(a) for a in c.args])
    return c.ret(eq(v, I(1)) if c.dt == 'bool' else v)


def reader_new_action(c):
    return c.ret(app('RN', *[c.load(a) for a in c.args]))


# ---------------------------------------------------------------- panics
def clean(k):
    return strip_generics(k).split('::')[-1]


def where(fn):
    s = strip_generics(fn or '?')
    return '::'.join(s.split('::')[-2:])


def short_span(sp):
    return str(sp).split('/repo/')[-1].split(' (')[0]


def ascii_only(r):
    """LanguageRange::from_unix slices its argument at fixed offsets: it panics on text that is not ASCII."""
    n = 0
    seen = set()
    for e, k, outs in Engine.journal:
        for o in outs:
            for ev in o.st.ev:
                if ev[0] != 'lang' or not ev[1].endswith('from_unix'):
                    continue
                arg, pc = ev[2][0], ev[4]
                n += 1
                r.rep.owe(('C01',))
                ok_ = pc.decide(T.mk('pred', 'ascii', arg))
                if ok_ is None and arg.op == 'str':
                    ok_ = arg.a[0].isascii()
                if ok_:
                    r.rep.paid(('C01',))
                elif arg.opq:
                    r.rep.maybe(('C01',), 'argument of LanguageRange::from_unix: %s' % show(arg)[:200])
                elif str(ev[3]) not in seen:
                    seen.add(str(ev[3]))
                    r.rep.bad(('C01',), 'panic/from_unix', '%s: LanguageRange::from_unix is given text that may not be ASCII, on which it panics '
                              '(%s) [%s]' % (where(k), short_span(ev[3]), pathof(pc)))
    return n


def pathof(pc):
    return ' & '.join(('' if b else '!') + show(a) for a, b in pc.log)[:600]


def panics(r):
    per = {}
    fns = set()
    nouts = 0
    for e, k, outs in Engine.journal:
        for f in e.visited:
            i = r.w.dump['instances'].get(f)
            if i and mine(i, f):
                fns.add(f)
        for o in outs:
            nouts += 1
            if o.kind == 'panic':
                per.setdefault((o.info[0], o.info[1], str(o.info[2])), []).append((e, k, o))
    blocks = sum(len(r.w.dump['instances'][f]['blocks']) for f in fns)
    r.rep.owe(('C01',), len(fns))
    badfns = set()
    for (fn, msg, sp), l in sorted(per.items(), key=str):
        i = r.w.dump['instances'].get(fn)
        if i and generated(i, fn) and msg in ('result::unwrap_failed',):
            continue        # the token expressions of the lexer: constants lalrpop has compiled already
        verdict = None
        for e, k, o in l[:60]:
            v = spec.happens(e, o)
            if v is True:
                verdict = (k, o)
                break
            if v is None and verdict is None:
                verdict = False
        badfns.add(fn)
        if verdict is None:
            badfns.discard(fn)
            continue
        text = '%s: %s (%s)' % (where(fn), msg, short_span(sp))
        if verdict is False:
            r.rep.maybe(('C01',), 'panic of unknown feasibility: ' + text + ' [%s]' % pathof(l[0][2].st.pc))
        else:
            r.rep.bad(('C01',), 'panic/%s/%s' % (where(fn), msg), '%s reached from %s [%s]' % (text, where(verdict[0]), pathof(verdict[1].st.pc)))
    r.rep.paid(('C01',), len(fns - badfns))
    n = ascii_only(r)
    missed = [k for k in r.rest if k not in fns and k not in r.dead]
    for k in missed:
        i = r.w.dump['instances'][k]
        if any(b['t']['k'] in ('call', 'assert') for b in i['blocks']):
            r.rep.maybe(('C01',), 'function not analysed: ' + strip_generics(k))
    r.rep.units.append({'unit': 'panics', 'props': ['C01'], 'functions': len(fns), 'blocks': blocks, 'outcomes': nouts,
                        'panic_sites_reached': len(per), 'from_unix_calls': n,
                        'derived_functions_trusted': len(r.derived)})


# ---------------------------------------------------------------- progress
def strict(t, phi, pc):
    """How a value on the back edge relates to the variable at the head of the loop:
    2 consumed, 1 the same, 0 something understood that consumes nothing, None not understood."""
    if t is phi:
        return 1
    if t.op in ('next', 'tl', 'rawtl'):
        x = strict(t.a[0], phi, pc)
        return 2 if x in (1, 2) else x
    if t.op == 'adt' and t.a[1] == 'Some' and len(t.a[2]) == 1:
        return strict(t.a[2][0][1], phi, pc)
    if t.op == 'fld' and t.a[1] == 'Some':
        return strict(t.a[0], phi, pc)
    if t.op in ('after', 'strip'):
        x = strict(t.a[0], phi, pc)
        if x in (1, 2) and t.a[1].op == 'str' and t.a[1].a[0]:
            return 2
        return None
    if t.op == 'trim':
        return strict(t.a[0], phi, pc)
    if t.op == 'app' and t.a[0] in ('PMn', 'PMFn', 'RUn'):
        x = strict(t.a[1], phi, pc)
        if x == 2:
            return 2
        if x == 1:
            for a, b in pc.log:
                if b and a.op == 'is' and a.a[2] == 'Some' and a.a[0].op == 'fld' and a.a[0].a[1] == 'Ok':
                    y = a.a[0].a[0]
                    if y.op == 'app' and y.a[0] == t.a[0][:-1] and y.a[1] is t.a[1]:
                        return 2
            return 0
        return x
    if t.op in ('snoc', 'cat', 'seqcat', 'setadd', 'mapset', 'mapcell', 'mapext', 'int', 'str', 'add', 'sub', 'seq0', 'adt'):
        return 0
    if not has_phi(t, phi):
        return 0
    return None


def has_phi(t, phi):
    return T.occurs(phi, t)


def measured(t):
    """a bound on the number of turns that comes from the size of a value in memory"""
    return t.op in ('slen', 'len', 'int') or t.op in ('add', 'sub') and measured(t.a[0]) and measured(t.a[1])


def loops(r):
    seen = {}
    for e, k, outs in Engine.journal:
        for rec in e.loops:
            seen.setdefault((k, rec.id), (e, k, rec))
    n = edges = 0
    fam = {}
    for e, k, rec in seen.values():
        i = r.w.dump['instances'].get(rec.fn)
        if i and generated(i, rec.fn):
            continue
        n += 1
        for b in rec.backs:
            edges += 1
            v, why = progress(e, rec, b)
            site = (where(rec.fn), short_span(rec.span))
            r.rep.owe(('C02',))
            if v:
                r.rep.paid(('C02',))
                fam[why] = fam.get(why, 0) + 1
            elif v is None:
                r.rep.maybe(('C02',), 'progress of the loop at %s %s: %s' % (site + (why,)))
            else:
                r.rep.bad(('C02',), 'loop/%s/%s' % (site[0], why.split(':')[0]),
                          'the loop at %s %s: %s [%s]' % (site + (why, pathof(b.pc))))
    r.rep.units.append({'unit': 'progress of loops', 'props': ['C02'], 'loops': n, 'back_edges': edges, 'measures': fam})


def progress(e, rec, b):
    unknown = None
    seqs = []
    for loc, ph in rec.phi.items():
        v = e.load(b, Loc(loc[0], loc[1], None))
        s = strict(v, ph, b.pc)
        if s == 2:
            return True, 'consumes'
        if s is None:
            unknown = show(v)[:120]
        seqs.append((ph, v, s))
    # a counter below the size of something
    header = []
    for ph, v, s in seqs:
        up = v.op == 'add' and v.a[0] is ph and v.a[1].op == 'int' and v.a[1].a[0] > 0
        down = v.op == 'sub' and v.a[0] is ph and v.a[1].op == 'int' and v.a[1].a[0] > 0
        for a, t in b.pc.log:
            if up and a.op == 'lt' and t and a.a[0] is ph:
                if measured(a.a[1]):
                    return True, 'counter below a size'
                header.append(show(a.a[1]))
            if down and (a.op == 'lt' and t and a.a[1] is ph or a.op == 'eq' and not t and ph in a.a):
                i = rec.init[[l for l, p in rec.phi.items() if p is ph][0]]
                if measured(i):
                    return True, 'counter from a size'
                header.append(show(i))
    if any(a.opq for a, _ in b.pc.log) or unknown:
        return None, unknown or 'the facts are not understood'
    if header:
        return False, 'counts up to a number that is not the size of the input: %s' % header[0][:150]
    flags = [ph for ph, v, s in seqs if v is not ph and v.op in ('int', 'adt')]
    if flags:
        return None, 'only %s changes' % show(flags[0])
    if not evalt.feasible(b.pc):
        return None, 'a turn of unknown feasibility consumes nothing'
    return False, 'consumes nothing: a turn leaves every line, character and element where it was'


# ---------------------------------------------------------------- recursion
def callees(i):
    for b in i['blocks']:
        t = b['t']
        if t['k'] == 'call' and 'ind' not in t['f']:
            yield t['f'].get('res') or t['f'].get('decl')
        for pl, rv, sp in b['s']:
            if rv.get('r') == 'agg' and rv.get('inst'):
                yield rv['inst']


def recursion(r):
    """A recursive function must go down a tree whose height is bounded (the formula, whose parse is refused beyond a length)."""
    d = r.w.dump['instances']
    g = {k: {c for c in callees(i) if c in d and d[c]['local']} for k, i in d.items() if mine(i, k)}
    for k, i in d.items():
        if k in g and i.get('parent') in g:
            g[i['parent']].add(k)
    comp = scc(g)
    trees = recursive_types(r)
    nrec = 0
    for c in comp:
        if len(c) == 1 and next(iter(c)) not in g[next(iter(c))]:
            continue
        if all(k in r.derived for k in c):
            continue
        nrec += 1
        r.rep.owe(('C01', 'C02'))
        ok_ = all(any(t in d[k]['locals'][n] for n in range(1, d[k]['argc'] + 1) for t in trees) for k in c if d[k].get('kind') != 'Closure')
        if ok_:
            r.rep.paid(('C01', 'C02'))
        else:
            k = sorted(k for k in c)[0]
            r.rep.bad(('C01',), 'recursion/%s' % where(k), '%s calls itself (%s) and is not given a part of a bounded tree: the depth of the stack '
                      'depends on the input' % (where(k), ', '.join(sorted(where(x) for x in c))))
    r.rep.units.append({'unit': 'recursion', 'props': ['C01', 'C02'], 'functions': len(g), 'recursive_components': nrec, 'recursive_types': sorted(trees)})


def recursive_types(r):
    out = set()
    names = {a['path']: a for a in r.w.dump['adts']}

    def uses(p, seen):
        for v in names[p]['variants']:
            for f in v['fields']:
                for q in names:
                    if re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(q), f['t']) and q not in seen:
                        seen.add(q)
                        uses(q, seen)
        return seen
    for p in names:
        if p in uses(p, set()):
            out.add(p)
    return out


def scc(g):
    index, low, st, on, out, n = {}, {}, [], set(), [], [0]

    def go(v):
        index[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        for w in g[v]:
            if w not in g:
                continue
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = set()
            while True:
                w = st.pop()
                on.discard(w)
                c.add(w)
                if w == v:
                    break
            out.append(c)
    for v in sorted(g):
        if v not in index:
            go(v)
    return out
