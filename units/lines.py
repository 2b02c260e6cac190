"""From bytes to lines: LineIter, PoParser::parse_line, Unescaper, PoParser::parse_map, PluralForms::parse."""
import random, itertools, functools
from run import *
import rx, evalt, engine, models
from pc import PC

PROPS = ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C11', 'C12', 'C13', 'C14', 'C18', 'C19', 'C20', 'C21')


# ================================================================ the lines of the stream
def parse_line_action(c):
    """Every kind of line, carrying the number it was given."""
    _, text, n = [c.load(a) for a in c.args]
    v = app('PL', text)
    out = []
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), True)
    if st:
        out.append(Out(st, 'ret', err(T.tup())))
    st0 = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), False)
    l = fld(v, 'Ok', '0')
    for k in ('Blank', 'Comment', 'Message', 'Continuation'):
        st = st0 and c.eng.assume(st0, mk('is', l, LINE, k), True)
        if not st:
            continue
        out.append(Out(st, 'ret', ok(line_value(l, k, n))))
    return out


def line_value(l, k, n):
    nf = {'Blank': 0, 'Comment': 3, 'Message': 4, 'Continuation': 3}[k]
    return adt(LINE, k, [(str(i), n if i == 0 else fld(l, k, str(i))) for i in range(nf)])


def line_iter(r):
    r.has_fields('po::line_iter::LineIter', 'n', 'inner', 'parser')
    P = ('C02', 'C03', 'C04', 'C05', 'C06')
    # creation: the whole stream, from its first line
    e, outs = r.summary('po::line_iter::LineIter::new')
    outs = [o for o in outs if o.kind == 'ret']
    if len(outs) != 1:
        raise Undecided('%d outcomes of LineIter::new' % len(outs))
    v = outs[0].val
    n0 = fld(v, None, 'n')
    inner = fld(v, None, 'inner')
    good = inner.op == 'adt' and inner.a[1] == 'Some' and fld(inner, 'Some', '0') is app('iolines', app('bufreader', var('p1')))
    r.rep.fact(('C05', 'C04', 'C21'), good or None, 'LineIter::new/inner',
               'LineIter::new: the stream is %s' % show(inner))
    r.rep.fact(('C05', 'C04'), fld(v, None, 'parser') is var('p2') or None, 'LineIter::new/parser', 'LineIter::new: another parser')
    if n0.op != 'int':
        raise Undecided('first line number is %s' % show(n0))
    key = "<po::line_iter::LineIter<'_, &[u8]> as core::iter::traits::iterator::Iterator>::next"
    s = SELF
    acts = {'po::parser::PoParser::parse_line': parse_line_action}
    eng = r.w.engine(acts)
    closed = {}

    def is_closed(v, pc):
        """Another call reads nothing and returns None (for ever: it leaves the same state)."""
        if (v, pc.log) not in closed:
            st = engine.State(pc=pc)
            st.mem[('in', 'self')] = v
            try:
                outs = eng.summarise(key, {1: mk('ref', ('in', 'self'), (), "po::line_iter::LineIter<'_, &[u8]>")}, st)
                bad = None
                for o in outs:
                    if o.val is None or o.val.op != 'adt' or o.val.a[1] != 'None' or o.st.mem.get(('in', 'self')) is not v:
                        bad = 'after an error the iterator goes on: %s' % (show(o.val) if o.val is not None else str(o.info))
                closed[v, pc.log] = bad or True
            except (Undecided, Budget):
                closed[v, pc.log] = None
        return closed[v, pc.log]

    def spec(o):
        def body(v):
            inner, n = v['inner'], v['n']
            if not o.some(inner):
                return 'exit', (Nothing(), Test(is_closed, 'C03'))
            raw = app1('rawhd', fld(inner, 'Some', '0'))
            if not o.some(raw):
                return 'exit', (Nothing(), ANY)
            raw = fld(raw, 'Some', '0')
            num = add(n, I(1 - n0.a[0]))
            if o.err(raw):
                return 'exit', (Some(Err(Var(ERROR, 'Io', {'0': Is(num, 'C06'), '1': Is(fld(raw, 'Err', '0'), 'C04')})), 'C04', 'C05'),
                                Test(is_closed, 'C03'))
            text = fld(raw, 'Ok', '0')
            v = app('PL', text)
            nxt = some(app1('rawtl', fld(inner, 'Some', '0')))
            if o.err(v):
                return 'exit', (Some(Err(Var(ERROR, 'Parse', {'0': Known(Is(num, 'C06'), Is(add(num, I(1))), 'lineiter.parse-error-line:+1', 'C06')})),
                                     'C04', 'C05', 'C19'), Test(is_closed, 'C03'))
            l = fld(v, 'Ok', '0')
            n2 = add(n, I(1))
            for k in ('Blank', 'Comment', 'Message', 'Continuation'):
                if o.is_(l, LINE, k, ('Blank', 'Comment', 'Message', 'Continuation')):
                    break
            if k == 'Blank':
                return 'again', {'inner': nxt, 'n': n2}
            ps = ('C05', 'C19') + {'Comment': ('C07',), 'Message': ('C12', 'C14'), 'Continuation': ('C13',)}[k]
            fs = {str(i): Is(num, 'C06') if i == 0 else Is(fld(l, k, str(i)), *ps) for i in range({'Message': 4}.get(k, 3))}
            return 'exit', (Some(Ok(Var(LINE, k, fs)), 'C04', *ps), {'n': Is(n2, 'C06'), 'inner': Is(nxt, *ps),
                                                                      'parser': Is(fld(s, None, 'parser'), 'C05')})
        res, post = o.loop('lines', {'inner': fld(s, None, 'inner'), 'n': fld(s, None, 'n')}, body)
        d = {'ret': res}
        if isinstance(post, dict):
            d.update(post)
        elif post is not ANY:
            d['state'] = post
        return d

    def extract(p, name, pc):
        if name == 'ret':
            return p.val
        st = p.mem.get(('in', 'self'))
        if st is None or name == 'state':
            return st
        return fld(st, None, name)
    r.unit('LineIter::next', key, spec, P, extract, acts)


def app1(op, x):
    return mk(op, x)


# ================================================================ one line
MARKS = ['', '~', '|', '~|']
WORDS = 'msgctxt|msgid|msgid_plural|msgstr(?:\\[(?:0|[1-9][0-9]*)\\])?'
REF = {m: r'^\s*%s\s*(%s)?\s*"(.*)"\s*$' % ('#' + m.replace('|', '\\|') if m else '', WORDS) for m in MARKS}
LAX = {m: p.replace('[1-9][0-9]*', '[1-9]\\d*') for m, p in REF.items()}
REFC = r'^\s*#(.)?\s*(.*)$'
REFB = r'^\s*$'


def expected_line(w, res):
    """What the syntax says of the word w, from the matches of the reference expressions."""
    b, c = res[-1], res[-2]
    if b is not None:
        return ('Blank',)
    for m, g in zip(MARKS, res):
        if g is not None:
            kw = None if g[1] is None else w[g[1][0]:g[1][1]]
            s = w[g[2][0]:g[2][1]]
            if kw is None:
                return ('Continuation', m, ('U', g[2]))
            return ('Message', m, ('|' if m.endswith('|') else '', g[1]), ('U', g[2]))
    if c is not None:
        return ('Comment', ('hd', c[1]) if c[1] is not None else ' ', c[2])
    return ('Err',)


class Blind(Exception):
    pass


UNESC = {'n': '\n', 'r': '\r', 't': '\t', '"': '"', '\\': '\\'}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] in UNESC:
            out.append(UNESC[s[i + 1]])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def text_of(e, w):
    """The string an expected field stands for."""
    if isinstance(e, str):
        return e
    if e[0] == 'U':
        return unescape(w[e[1][0]:e[1][1]])
    if e[0] == 'hd':
        return w[e[1][0]:e[1][0] + 1]
    if e[0] in ('', '|'):
        return e[0] + w[e[1][0]:e[1][1]]
    return w[e[0]:e[1]]


def parse_line(r):
    P = ('C19', 'C04', 'C06')
    p2, p3 = var('p2'), var('p3')
    e, outs = r.summary('po::parser::PoParser::parse_line', args={1: r.w.parser})
    rep = r.rep
    rep.functions.update(e.visited)
    rets = [o for o in outs if o.kind == 'ret']
    rep.paths += len(rets)
    pats = set()
    for o in rets:
        ts = [a for a, _ in o.st.pc.log] + [o.val]
        for t in ts:
            for x in T.find(t, lambda y: y.op == 'regex'):
                if x.a[0].op == 'str':
                    pats.add(x.a[0].a[0])
            for x in T.find(t, lambda y: y.op in ('sw', 'ew', 'has')):
                if x.a[1].op == 'str' and base_of(x.a[0], p2):
                    q = rx_quote(x.a[1].a[0])
                    lead = r'\s*' if x.a[0].op == 'trim' and x.a[0].a[1] else ''
                    tail = r'\s*' if x.a[0].op == 'trim' and x.a[0].a[2] else ''
                    pats.add({'sw': '^' + lead + q, 'ew': q + tail + '$', 'has': q}[x.op])
    pats = sorted(pats - {re for re in pats if uses_esc(re)})
    refs = [LAX[m] for m in MARKS] + [REF[m] for m in MARKS] + [REFC, REFB]
    rng = random.Random(1)
    verb = {}
    complaints = {}
    preds, keep = [], set()
    for a in dict.fromkeys(a for o in rets for a, _ in o.st.pc.log):
        if not decided_by_states(a, p2, pats, preds, keep):
            verb['when ' + show(a)[:100]] = True

    number = 7

    def final(w, res):
        refres = res[len(pats):]
        if any((a is None) != (b is None) for a, b in zip(refres[:4], refres[4:8])):
            return None         # a digit that is not ASCII: an error later at the latest
        want = expected_line(w, refres[4:])
        try:
            got = spec.follow(rets, {p2: w, p3: number}, e)
        except evalt.NoValue as x:
            raise Blind('condition on %s' % x)
        if got is None:
            raise Blind('no path for %r' % w)
        got, m = got
        v = got.val
        if v.op != 'adt':
            raise Blind(show(v))
        if v.a[1] == 'Err':
            k = 'Err'
        else:
            l = fld(v, 'Ok', '0')
            if l.op != 'adt':
                raise Blind(show(l))
            k = l.a[1]
        if k != want[0]:
            ps = ('C19', 'C04') + (('C07',) if 'Comment' in (k, want[0]) else ()) + (('C13',) if 'Continuation' in (k, want[0]) else ()) \
                + (('C12',) if 'Message' in (k, want[0]) else ()) + (('C05',) if 'Blank' in (k, want[0]) else ()) \
                + (('C09',) if w.lstrip().startswith('#') and {'Message', 'Continuation'} & {k, want[0]} else ())
            if want[0] == 'Message':
                kw = text_of(want[2], w)
                if kw.startswith('msgstr['):
                    ps += ('C14',)
            note(ps, 'kind', '%r is read as %s instead of %s' % (w, k, want[0]))
            return None
        if k in ('Blank', 'Err'):
            return None
        n = fld(l, k, '0')
        if n is not p3:
            verb[show(n)[:120]] = True
            for x in (number, 1, 255, 256, 65536, 2 ** 32 + 1):
                try:
                    if evalt.Fixed({**m.env, p3: x}).ev(n) != x:
                        note(('C06',), 'number', '%r: the %s carries the number %s' % (w, k, show(n)))
                except evalt.NoValue:
                    pass
        for i, x in enumerate(want[1:], 1):
            t = fld(l, k, str(i))
            exact(t, x, w, res)
            try:
                s = m.ev(t)
            except evalt.NoValue as y:
                raise Blind('field %s' % y)
            if isinstance(s, int):
                s = chr(s)
            if s != text_of(x, w):
                ps = {('Comment', 1): ('C07', 'C19'), ('Comment', 2): ('C07', 'C19'), ('Message', 1): ('C19', 'C09', 'C13'),
                      ('Message', 2): ('C19', 'C12', 'C14'), ('Message', 3): ('C19', 'C12'), ('Continuation', 1): ('C19', 'C13', 'C09'),
                      ('Continuation', 2): ('C19', 'C13')}[k, i]
                if not isinstance(x, str) and x[0] == 'U' and '\\' in w[x[1][0]:x[1][1]]:
                    ps += ('C18',)
                if w.lstrip().startswith('#~'):
                    ps += ('C09',)
                note(ps, '%s.%d' % (k, i), '%r: field %d of the %s is %r instead of %r' % (w, i, k, s, text_of(x, w)))
        return None

    def note(ps, key, text):
        have = complaints.get(key)
        complaints[key] = (have[0] + tuple(x for x in ps if x not in have[0]), have[1]) if have else (ps, text)

    def exact(t, x, w, res):
        """The field is a piece of the line named by a group (then the positions decide for every line)."""
        def empty(p):
            return isinstance(p, tuple) and isinstance(p[-1], tuple) and p[-1][0] == p[-1][1]
        if t.op in ('str', 'int'):
            return
        got = position(t, p2, pats, res)
        want = x if isinstance(x, str) or isinstance(x[0], str) else ('', x)
        if got is None or got != want and not (empty(got) and empty(want) and got[0] == want[0]):
            verb[show(t)[:120]] = True
    ps = ('C19', 'C04', 'C06', 'C07', 'C09', 'C12', 'C13')
    rep.owe(ps)
    try:
        words = []

        def each(w, res):
            words.append(w)
            return final(w, res)
        _, states = rx.product(pats + refs, each, extra='~|_"\\[0m', limit=30000, preds=preds, keep=sorted(keep))
        if verb and not complaints:
            # not a piece of the line named by a group: more lines of every kind
            ts = spec.said(rets, e)
            words = ['msgid "a b"', '#~| msgid_plural "a"', '#: a b', '#a', '  ', '"a"', 'msgstr[1] "a"'] \
                + rng.sample(words, min(len(words), 12))
            for x in pieces(ts, '\x01\t\u00a0\u2003\ufeff\u200béA0_-,.:;=~|#\\"\'\r') + ['\\n', '\\\\', '\\\\n', '\\x', '\\u0']:
                for w in words:
                    for i in range(len(w) + 1):
                        v = w[:i] + x + w[i:]
                        if '\n' not in v and not complaints:
                            final(v, [rx.match(re, v) for re in pats + refs])
    except (rx.Unsupported, rx.Budget, Blind) as x:
        rep.maybe(ps, 'parse_line: %s' % x)
        rep.units.append({'unit': 'PoParser::parse_line', 'undecided': 1, 'reason': str(x)[:200]})
        return
    for k, (p, text) in complaints.items():
        rep.bad(p, 'parse_line/' + k, 'PoParser::parse_line: ' + text)
    if verb:
        rep.maybe(ps, 'parse_line: compared on one line per state only: %s' % ', '.join(sorted(verb)))
    elif not complaints:
        rep.paid(ps)
    rep.units.append({'unit': 'PoParser::parse_line', 'paths': len(rets), 'expressions': pats, 'product_states': states,
                      'decided': 'on every line: the states of the product of the expressions of the code and of the reference'})


def decided_by_states(a, p, pats, preds, keep):
    """The states of the product decide the condition for every line that reaches them.  Adds what the states have to
    remember to `preds` (predicates of characters) and `keep` (groups)."""
    if a.op in ('and', 'or', 'not'):
        return all(decided_by_states(x, p, pats, preds, keep) for x in a.a)
    if a.op == 'rematch':
        return a.a[1] is p and a.a[0].a[0].op == 'str' and a.a[0].a[0].a[0] in pats
    if a.op == 'nil' and a.a[0].op == 'chars':
        return a.a[0].a[0] is p or group_of(a.a[0].a[0], p, pats) is not None
    if a.op == 'hasgrp':
        return group_of(mk('grp', *a.a), p, pats) is not None
    if a.op == 'eq':
        for x, y in (a.a, a.a[::-1]):
            g = group_of(x, p, pats)
            if g and y.op == 'str':
                if y.a[0] != '':
                    if not rx.group_language(pats[g[0]], g[1]):
                        return False
                    keep.add(g)
                return True
            if x is p and y.op == 'str' and y.a[0] == '':
                return True
        return False
    if a.op in ('sw', 'ew', 'has'):
        return a.a[1].op == 'str' and base_of(a.a[0], p)
    if a.op == 'any' and a.a[0] is T.chars(p):
        e = elt(a.a[0])
        if any(T.find(f, lambda x: x is p and f is not x) and not only_elt(f, e, p) for c in a.a[1] for f, _ in c):
            return False

        def holds(ch):
            m = evalt.Model(PC(), (), random.Random(1))
            return any(all(m.ev(subst(f, {e: I(ord(ch))})) == int(b) for f, b in c) for c in a.a[1])
        try:
            holds('a')
        except evalt.NoValue:
            return False
        preds.append(functools.lru_cache(None)(holds))
        return True
    return False


def only_elt(f, e, p):
    return not T.find(subst(f, {e: I(0)}), lambda x: x is p)


def group_of(t, p, pats):
    """(expression, group) of a group of a match on the line"""
    if t.op == 'grp' and t.a[0].op == 'caps' and t.a[0].a[1] is p and t.a[0].a[0].a[0].op == 'str':
        re = t.a[0].a[0].a[0].a[0]
        if re in pats:
            return pats.index(re), t.a[1]
    return None


def uses_esc(p):
    return p.startswith('\\\\')


def rx_quote(s):
    return ''.join('\\' + c if c in '\\.+*?()|[]{}^$#&-~' and c not in '#&-~' else c for c in s)


def base_of(t, p):
    return t is p or t.op == 'trim' and base_of(t.a[0], p)


def position(t, p, pats, res):
    """Where the text of a field stands in the line: a group of a match, after a constant, unescaped, or its first
    character; None for any other term."""
    if t.op == 'grp':
        c = t.a[0]
        if c.op != 'caps' or c.a[1] is not p or c.a[0].a[0].op != 'str' or c.a[0].a[0].a[0] not in pats:
            return None
        g = res[pats.index(c.a[0].a[0].a[0])]
        return None if g is None or g[t.a[1]] is None else ('', g[t.a[1]])
    if t.op == 'cat' and len(t.a) == 2 and t.a[0].op == 'str':
        g = position(t.a[1], p, pats, res)
        return g and g[0] == '' and (t.a[0].a[0], g[1])
    if t.op == 'reprep':
        g = position(t.a[2], p, pats, res)
        return g and g[0] == '' and ('U', g[1])
    if t.op == 'hd' and t.a[0].op == 'chars':
        g = position(t.a[0].a[0], p, pats, res)
        return g and g[0] == '' and ('hd', g[1])
    return None


# ================================================================ escapes
REFE = r'\\([nrt"\\])'


def unescaper(r):
    P = ('C18',)
    rep = r.rep
    u = fld(r.w.parser, None, 'unescaper')
    e, outs = r.summary('po::unescape::Unescaper::unescape', args={1: u})
    rep.functions.update(e.visited)
    rets = [o for o in outs if o.kind == 'ret']
    rep.owe(P)
    p2 = var('p2')
    # every short string: the facts and the value of the path
    rng = random.Random(1)
    n = 0
    more = pieces(spec.said(rets, e), 'abefvxu0\'é$')
    words = short_strings('\\nrt"x', 4) + ['\\\\\\\\n', '\\\\n\\"', 'é\\t', "\\'\\a\\0\\x41\\u{41}", '\\\\t\\\\\\n']
    words += [y % x for x in more for y in ('%s', '\\%s', '\\\\%s', 'n%sn', '\\n%s\\t', '%s\\n')]
    # as long as what the code compares lengths with
    for c in sorted({x.a[0] for o in rets for t in [o.val] + [a for a, _ in o.st.pc.log] for x in T.find(t, lambda x: x.op == 'int')
                     if 0 < x.a[0] <= 20000} |
                    {int(x.a[0][8:]) for o in rets for x in T.find(o.val, lambda x: x.op == 'reprep' and x.a[0][8:].isdigit())
                     if int(x.a[0][8:]) <= 20000}):
        words += ['\\n' * (c + 1), 'x' * c + '\\n', '\\\\' * (c // 2 + 1) + '\\n', '\\n\\r\\t\\"\\\\x' * (c // 11 + 1)]
    for w in words:
        n += 1
        try:
            o = spec.follow(rets, {p2: w}, e)
            v = o[1].ev(o[0].val) if o else None
        except evalt.NoValue as x:
            rep.maybe(P, 'unescape: %s' % x)
            return
        if v != unescape(w):
            rep.bad(P, 'unescape', 'Unescaper::unescape: %r is decoded as %r instead of %r' % (w, v, unescape(w)))
            return
    t = rets[0].val if len(rets) == 1 and not rets[0].st.trace else None
    if t is None or t.op != 'reprep' or t.a[0] != 'replace_all' or t.a[2] is not p2 or isinstance(t.a[3], Term) and t.a[3].op != 'str':
        rep.maybe(P, 'unescape: agrees on %d short strings only' % n)
        return
    pat = t.a[1].a[0].a[0]
    try:
        bad, states = rx.product([pat, REFE], lambda w, s: None if spans(s[0], 2) == spans(s[1], 2) else repr(w), extra='\\nrt"')
    except (rx.Unsupported, rx.Budget) as x:
        rep.maybe(P, 'unescape: %s' % x)
        return
    if bad:
        rep.maybe(P, 'unescape: the expressions differ on %s' % bad)
        return
    rep.paid(P)
    rep.units.append({'unit': 'Unescaper::unescape', 'paths': len(rets), 'expressions': [pat], 'product_states': states,
                      'cases': len(t.a[3]), 'decided': 'one pass over the matches of the reference expression; every case compared'})


def spans(m, n):
    return None if m is None else m[:n]


def short_strings(al, n):
    out = []
    for k in range(n + 1):
        out += [''.join(x) for x in itertools.product(al, repeat=k)]
    return out


# ================================================================ definitions of plural forms
REFMAP = r'(\S+?)\s*=\s*(.*?)\s*;'
REFCHECK = r'^\s*(\S+?\s*=\s*.*?\s*;\s*)*$'


def canon_regexes(ts, refs, rep, props, what):
    """Replaces the expressions of the code by the reference expressions they are equivalent to."""
    m = {}
    for t in ts:
        for x in T.find(t, lambda y: y.op == 'regex'):
            if x in m or x.a[0].op != 'str':
                continue
            for ref, n in refs:
                if x.a[0].a[0] == ref:
                    m[x] = x
                    break
                try:
                    bad, _ = rx.product([x.a[0].a[0], ref], lambda w, s: None if spans(s[0], n) == spans(s[1], n) else repr(w),
                                        extra='=;', exclude='', limit=30000)
                except (rx.Unsupported, rx.Budget):
                    continue
                if not bad:
                    m[x] = mk('regex', S(ref), *x.a[1:])
                    break
    return m


def map_of(text):
    """The definition list in a text, or None."""
    if rx.match(REFCHECK, text) is None:
        return None
    return {text[m[1][0]:m[1][1]]: text[m[2][0]:m[2][1]] for m in rx.find_iter(REFMAP, text)}


def parse_map(r):
    P = ('C20', 'C11')
    rep = r.rep
    p2 = var('p2')
    e, outs = r.summary('po::parser::PoParser::parse_map', args={1: r.w.parser})
    rep.functions.update(e.visited)
    rets = [o for o in outs if o.kind == 'ret']
    ts = [a for o in rets for a, _ in o.st.pc.log] + [o.val for o in rets]
    m = canon_regexes(ts, ((REFCHECK, 0 + 1), (REFMAP, 3)), rep, P, 'parse_map')
    check_re = mk('rematch', mk('regex', S(REFCHECK)), p2)
    good = set()
    rep.owe(P)
    exact = not any(o.st.trace for o in rets)
    for o in rets:
        pc = PC()
        for a, b in o.st.pc.log:
            pc = pc and pc.assume(subst(a, m), b)
        if pc is None:
            exact = False
            continue
        v = subst(o.val, m)
        d = pc.decide(check_re)
        if d is False:
            exact = exact and v.op == 'adt' and v.a[1] == 'Err' and fld(v, 'Err', '0').op == 'adt'
        elif d is True:
            base = mk('capsiter', mk('regex', S(REFMAP)), p2)
            want = T.rebuild('mapext', (T.EMPTY, T.compr(base, [((), (T.tup(mk('grp', elt(base), 1), mk('grp', elt(base), 2)),))])))
            exact = exact and v is ok(want)
        else:
            exact = False
    if exact:
        rep.paid(P)
        rep.units.append({'unit': 'PoParser::parse_map', 'paths': len(rets), 'decided': 'same expressions as the reference, same map'})
        return
    # not the same form: the texts that tell the expressions apart, then short ones
    words = ['', ' ', 'a=b', 'a=b;', ' a = b ; c= d;', 'a=b;c', 'a=b=c;', ';', 'a;', '=b;', 'a b=c;', 'a=;', 'a=b;a=c;', 'nplurals=2; plural=n != 1;',
             'x a=b;', 'a=b;;', 'a=b; \t', 'a =\tb ;', 'é=ü;', 'a-b=c;', 'a=b c;', 'a=n==1;', 'a_b=1;c.d=2;', 'nplurals=2;\tplural=(n>1) ? 0 : 1 ;\n']
    words += short_strings('a=; ', 4)
    for x in pieces(spec.said(rets, e), '\x01\t\n\u00a0éA0_-,.:;="\'()\\#'):
        words += [w[:i] + x + w[i:] for w in ('a=b;', 'ab = c d;e=f;') for i in range(len(w) + 1)]
    rng = random.Random(1)
    for w in words:
        try:
            o = spec.follow(rets, {p2: w}, e)
            v = map_value(o[1], o[0].val) if o else None
        except (evalt.NoValue, IndexError) as x:
            rep.maybe(P, 'parse_map: %s' % x)
            return
        if v != map_of(w):
            rep.bad(P, 'parse_map', 'PoParser::parse_map: %r gives %r instead of %r' % (w, v, map_of(w)))
            return
    rep.maybe(P, 'parse_map: agrees on %d texts only' % len(words))


def pieces(ts, more):
    """the characters and short texts the terms mention, and more"""
    out = dict.fromkeys(more)
    for t in ts:
        ss, ks, cs = evalt.lits(t)[:3]
        for x in list(ss) + list(ks) + list(cs):
            if 0 < len(x) <= 8:
                out[x] = None
        for x in T.find(t, lambda x: x.op in ('eq', 'lt') and not T.find(x, lambda y: y.op in ('len', 'slen'))):
            for y in x.a:
                if isinstance(y, Term) and y.op == 'int' and 0 <= y.a[0] < 0xd800:
                    out[chr(y.a[0])] = None
    return list(out)


def map_value(m, v):
    """The map an outcome stands for, None for an error"""
    if v.op != 'adt':
        raise evalt.NoValue(show(v))
    if v.a[1] == 'Err':
        return None
    t = fld(v, 'Ok', '0')
    if t.op != 'mapext' or t.a[0] is not T.EMPTY:
        d = m.ev(t)
        if d == ():
            return {}
        if isinstance(d, tuple) and d[0] == 'map':
            return dict(d[1])
        raise evalt.NoValue(show(t))
    d = {}
    for x in m.q(t.a[1]):
        if not (isinstance(x, tuple) and x[0] == 'adt' and x[1] == '()'):
            raise evalt.NoValue(show(t))
        d[x[2][0]] = x[2][1]
    return d


def parse_map_action(c):
    text = c.load(c.args[1])
    return res_action(c, app('MAP', text))


def formula_action(c):
    if c.load(c.args[0]).op == 'str':
        return None
    return res_action(c, app('FP', c.load(c.args[0])))


def res_action(c, v):
    return [Out(c.st, 'ret', v)]


def plural_forms(r):
    P = ('C20', 'C11', 'C04')
    r.has_fields(FRM, 'formula', 'count', 'definition', 'formula_source')
    r.has_fields(FML, 'expr')
    acts = {'po::parser::PoParser::parse_map': parse_map_action, 'plural::formula::Formula::parse': formula_action}
    text = var('p1')
    mp = app('MAP', text)
    m = fld(mp, 'Ok', '0')

    def spec(o):
        if o.err(mp):
            return R(Err(Is(fld(mp, 'Err', '0'))))
        n = T.rebuild('mapget', (m, S('nplurals')))
        bad = False
        count = I(2)
        if o.some(n):
            v = app('parse::usize', fld(n, 'Some', '0'))
            if o.err(v):
                bad = True
            count = fld(v, 'Ok', '0')
        f = T.rebuild('mapget', (m, S('plural')))
        if o.some(f):
            src = fld(f, 'Some', '0')
            fv = app('FP', src)
            if o.err(fv):
                bad = True
            form = Is(fld(fv, 'Ok', '0'), 'C20', 'C15')
        else:
            src = S('')
            form = Var(FML, None, {'expr': Var(NODE, 'Var', {})}, 'C20', 'C15')
        if bad:
            return R(Err(ANY))
        return R(Ok(Var(FRM, None, {'formula': form, 'count': Is(count, 'C20', 'C14', 'C15'), 'definition': Is(text, 'C20'),
                                    'formula_source': Is(src, 'C20')})))
    r.unit('PluralForms::parse', 'plural::forms::PluralForms::parse', spec, P, actions=acts)


def run(r):
    r.group(line_iter, ('C02', 'C03', 'C04', 'C05', 'C06'))
    r.group(parse_line, ('C19', 'C04', 'C06', 'C07', 'C09', 'C12', 'C13'))
    r.group(unescaper, ('C18',))
    r.group(parse_map, ('C20', 'C11'))
    r.group(plural_forms, ('C20', 'C11', 'C04'))
