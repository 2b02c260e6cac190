"""From lines to the fields of one entry: Decoder::parse_msg, Decoder::expected, MessageExtractor::parse_message_fields."""
from run import *
import random, spec
import engine
from models import peek_of, next_of

PROPS = ('C02', 'C04', 'C05', 'C06', 'C09', 'C10', 'C12', 'C13', 'C14')
KINDS = ('Blank', 'Comment', 'Message', 'Continuation')


def kind(o, l):
    """The kind of the line at hand (LineIter::next never returns a blank one: its own unit decides that)."""
    for k in ('Message', 'Continuation', 'Comment'):
        if o.is_(l, LINE, k, KINDS):
            return k
    raise Cut()


def line_at(o, s):
    """None at the end, ('err', error) or ('line', line)"""
    p = peek_of(s)
    if not o.some(p):
        return None
    x = fld(p, 'Some', '0')
    if o.err(x):
        return 'err', fld(x, 'Err', '0')
    return 'line', fld(x, 'Ok', '0')


def self_after(p, name, pc):
    if name == 'ret':
        return p.val
    return p.mem.get(('in', 'self'), SELF)


def decoder(r):
    def key(m):
        ks = [k for k in r.w.dump['instances'] if k.startswith('<core::iter::adapters::peekable::Peekable<po::line_iter::LineIter')
              and k.endswith('Decoder>::' + m)]
        if len(ks) != 1:
            raise Undecided('%d implementations of Decoder::%s' % (len(ks), m))
        return ks[0]
    r.has_fields(UNIT, 'obsolete')
    tag, obs = var('p2'), fld(var('p3'), None, 'obsolete')
    s = SELF

    def parse_msg(o):
        l = line_at(o, s)
        if l is None:
            return {'ret': Ok(Nothing()), 'it': Is(s, 'C05')}
        if l[0] == 'err':
            return {'ret': Err(Is(l[1], 'C04'), 'C04')}
        l = l[1]
        stop = {'ret': Ok(Nothing(), 'C12', 'C09'), 'it': Is(s, 'C05', 'C12')}
        if kind(o, l) != 'Message':
            return stop
        mark = fld(l, 'Message', '1')
        if not o.ask(eq(tag, fld(l, 'Message', '2'))):
            return stop
        if o.ask(sw(mark, S('~'))) != o.ask(obs):
            return stop

        def body(v):
            it, text = v['it'], v['text']
            n = line_at(o, it)
            done = {'ret': Ok(Some(Is(text, 'C13', 'C12'), 'C13', 'C12'), 'C13', 'C12'), 'it': Is(it, 'C05', 'C13')}
            if n is None:
                return 'exit', done
            if n[0] == 'err':
                return 'exit', {'ret': Err(Is(n[1], 'C04'), 'C04')}
            n = n[1]
            if kind(o, n) != 'Continuation' or not o.ask(eq(fld(n, 'Continuation', '1'), mark)):
                return 'exit', done
            return 'again', {'it': next_of(it), 'text': cat(text, fld(n, 'Continuation', '2'))}
        return o.loop('strings', {'it': next_of(s), 'text': fld(l, 'Message', '3')}, body)
    r.unit('Decoder::parse_msg', key('parse_msg'), parse_msg, ('C13', 'C12', 'C09', 'C05', 'C02'), self_after, given=given_strings)

    def expected(o):
        l = line_at(o, s)
        if l is None:
            return {'ret': Ok(ANY, 'C05'), 'it': Is(s, 'C05')}
        if l[0] == 'err':
            return {'ret': Err(Is(l[1], 'C04'), 'C04')}
        k = kind(o, l[1])
        ps = ('C05', 'C12') + {'Continuation': ('C13',), 'Message': ('C14', 'C09')}.get(k, ())
        return {'ret': Err(Var(ERROR, 'Parse', {'0': Is(fld(l[1], k, '0'), 'C06')}, 'C05'), *ps)}
    r.unit('Decoder::expected', key('expected'), expected, ('C05', 'C04', 'C06', 'C12', 'C13', 'C14', 'C09'), self_after)


# ================================================================ the fields of an entry
def pm_action(c):
    """Decoder::parse_msg as its specification has it: an error, nothing (the lines stay), or the string of the field."""
    s, tag, u = [c.load(a) for a in c.args]
    obs = fld(u, None, 'obsolete')
    v = app('PM', s, tag, obs)
    out = []
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), True)
    if st:
        st2 = st.fork()
        c.update(c.args[0], app('PMx', s), st2)
        out.append(Out(st2, 'ret', err(fld(v, 'Err', '0'))))
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), False)
    x = fld(v, 'Ok', '0')
    st1 = st and c.eng.assume(st, mk('is', x, T.OPT, 'Some'), False)
    if st1:
        out.append(Out(st1, 'ret', ok(T.NONE)))
    st1 = st and c.eng.assume(st, mk('is', x, T.OPT, 'Some'), True)
    if st1 and not other_tag(st1.pc, s, tag):
        st1 = st1.fork()
        c.update(c.args[0], app('PMn', s, tag, obs), st1)
        out.append(Out(st1, 'ret', ok(some(fld(x, 'Some', '0')))))
    return out


def other_tag(pc, s, tag):
    """Another field is already known to stand at this line."""
    for x, v in pc.var.items():
        if v == 'Some' and x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'PM' and x.a[0].a[1] is s:
            t = x.a[0].a[2]
            if t.op == 'str' and tag.op == 'str' and t is not tag:
                return True
    return False


def ex_action(c):
    s = c.load(c.args[0])
    v = app('EX', s)
    out = []
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), True)
    if st:
        st = st.fork()
        c.update(c.args[0], app('PMx', s), st)
        out.append(Out(st, 'ret', err(fld(v, 'Err', '0'))))
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), False)
    if st:
        out.append(Out(st, 'ret', ok(T.tup())))
    return out


ACTS = {'po::decoder::Decoder::parse_msg': pm_action, 'po::decoder::Decoder::expected': ex_action}


# ---------------------------------------------------------------- entries to follow the functions on
def A(var, *xs):
    return ('adt', var, tuple((str(i), x) for i, x in enumerate(xs)))


NO = ('adt', 'None', ())


def line(n, kind, *xs):
    return A('Ok', A(kind, n, *xs))


def pm_value(s, tag, obs):
    """what Decoder::parse_msg gives on these lines, and the lines that follow"""
    ls = s[1]
    if not ls:
        return A('Ok', NO), s
    if ls[0][1] == 'Err':
        return ls[0], s
    x = ls[0][2][0][1]
    if x[1] != 'Message':
        return A('Ok', NO), s
    f = dict(x[2])
    if f['2'] != tag or f['1'].startswith('~') != bool(obs):
        return A('Ok', NO), s
    text, i = f['3'], 1
    while i < len(ls):
        if ls[i][1] == 'Err':
            return ls[i], s
        y = ls[i][2][0][1]
        g = dict(y[2])
        if y[1] != 'Continuation' or g['1'] != f['1']:
            break
        text += g['2']
        i += 1
    return A('Ok', A('Some', text)), ('lines', ls[i:])


RULES = {'PM': lambda *a: pm_value(*a)[0], 'PMn': lambda *a: pm_value(*a)[1], 'PMx': lambda s: ('free', 'PMx'),
         'EX': lambda s: A('Err', ('free', 'expected')) if s[1] else A('Ok', ('adt', '()', ()))}


def entry_lines(g, said, plural, n, cuts):
    """The lines of an entry, now and then with one left out, doubled or put elsewhere."""
    txt = lambda: g.choice(['', 'a', 'b', ' ', 'a\nb', 'x%d', 'é'] + said)
    pre = g.choice(('', '', '~'))
    prev = '~|' if pre else '|'
    fs = []
    if g.random() < 0.4:
        fs.append((prev, '|msgctxt'))
    if g.random() < 0.5:
        fs.append((prev, '|msgid'))
        if g.random() < 0.5:
            fs.append((prev, '|msgid_plural'))
    if g.random() < 0.5:
        fs.append((pre, 'msgctxt'))
    fs.append((pre, 'msgid'))
    fs += [(pre, 'msgid_plural')] + [(pre, 'msgstr[%d]' % i) for i in range(n)] if plural else [(pre, 'msgstr')]
    if g.random() < cuts:
        i = g.randrange(len(fs))
        x = g.random()
        if x < 0.5:
            del fs[i]
        elif x < 0.7:
            fs.insert(i, fs[i])
        elif x < 0.85:
            fs.insert(g.randrange(len(fs)), fs.pop(i))
        else:
            fs[i] = (g.choice(('', '~', '|', '~|')), fs[i][1])
    out = []
    for m, t in fs:
        out.append(line(len(out) + 1, 'Message', m, t, txt()))
        while g.random() < 0.2:
            out.append(line(len(out) + 1, 'Continuation', m if g.random() < 0.9 else g.choice(('', '~', '|')), txt()))
    x = g.random()
    if x < 0.2:
        out.append(A('Err', ('free', 'error')))
    elif x < 0.4:
        out.append(line(len(out) + 1, 'Comment', 46, 'c'))
    elif x < 0.7:
        out.append(line(len(out) + 1, 'Message', '', 'msgid', 'z'))
    return ('lines', tuple(out)), int(pre == '~')


def said_by(outs, eng):
    from lines import pieces
    ts = spec.said(outs, eng)
    return pieces(ts, ()), sorted({y for t in ts for y in spec.turning(t) if y <= 64})


def given_fields(outs, eng):
    g = random.Random(3)
    said, ns = said_by(outs, eng)
    sizes = [0, 1, 2, 2, 3, 4, 6, 7] + [y + d for y in ns for d in (0, 1, 2)]
    for i in range(1500):
        n = g.choice(sizes) if i % 3 else g.choice((1, 2, 3))
        plural = g.random() < 0.7
        ls, obs = entry_lines(g, said, plural, n, 0.3)
        forms = NO if g.random() < 0.3 else A('Some', ('adt', None, (('count', g.choice((n, n, n, n + 1, max(0, n - 1)))), ('definition', 'd'), ('formula', ('free', 'formula')))))
        unit = ('adt', None, tuple({'context': NO, 'message': A0('', NO), 'prev_context': NO, 'prev_message': A0('', NO), 'flags': (), 'notes': (),
                                    'locations': (), 'comments': (), 'state': ('adt', 'Empty', ()), 'obsolete': obs}.items()))
        yield {var('lines'): ls, var('unit'): unit, var('forms'): forms, var('p2'): g.choice((0, 0, 1))}, RULES


def A0(id_, text):
    return ('adt', 'Simple', (('id', id_), ('text', text)))


def given_strings(outs, eng):
    g = random.Random(4)
    said, ns = said_by(outs, eng)
    for i in range(1500):
        ls, obs = entry_lines(g, said, g.random() < 0.5, g.choice((1, 2, 3)), 0.5)
        ls = ls[1][g.randrange(len(ls[1])) if ls[1] and g.random() < 0.7 else 0:]
        if i % 10 == 0:
            f = ('|' if i % 20 else '')
            ls = (line(1, 'Message', f, f + 'msgid', 'a'),) + tuple(line(j + 2, 'Continuation', f if g.random() < 0.97 else '~', g.choice(['', 'b', '\n', 'c'] + said))
                                                              for j in range(g.choice([3, 5, 10, 20] + [y + 2 for y in ns])))
        tag = dict(ls[0][2][0][1][2]).get('2') if ls and ls[0][1] == 'Ok' and g.random() < 0.8 else g.choice(('msgid', 'msgstr', '|msgid', 'msgctxt'))
        if not isinstance(tag, str):
            tag = 'msgid'
        yield {SELF: ('lines', ls), var('p2'): tag, var('p3'): ('adt', None, (('obsolete', obs if g.random() < 0.8 else 1 - obs),))}, RULES


class Leave(Exception):
    def __init__(self, r):
        self.r = r


def message_fields(r):
    r.has_fields(UNIT, 'context', 'message', 'prev_context', 'prev_message', 'flags', 'notes', 'locations', 'comments', 'state', 'obsolete')
    r.has_fields('po::message_extractor::MessageExtractor', 'unit', 'decoder', 'plural_forms')
    r.has_fields(FRM, 'count')
    key = r.w.key('MessageExtractor::parse_message_fields')
    inst = r.w.dump['instances'][key]
    dty = None
    for p, t in [(f['name'], f['t']) for v in r.w.adt('po::message_extractor::MessageExtractor')['variants'] for f in v['fields']]:
        if p == 'decoder':
            dty = t
    sig = "core::iter::adapters::peekable::Peekable<po::line_iter::LineIter<'_, &[u8]>>"
    D = ('in', 'lines')
    u, forms, first = var('unit'), var('forms'), var('p2')
    self_ = adt('po::message_extractor::MessageExtractor', None,
                {'unit': u, 'decoder': mk('ref', D, (), sig), 'plural_forms': forms})
    obs = fld(u, None, 'obsolete')
    s0 = var('lines')
    st = engine.State()
    st.mem[D] = s0

    def spec(o):
        s = [s0]

        def pm(tag):
            t = tag if isinstance(tag, Term) else S(tag)
            v = app('PM', s[0], t, obs)
            if o.err(v):
                raise Leave({'ret': Err(Is(fld(v, 'Err', '0'), 'C04'), 'C04', 'C05', 'C12')})
            x = fld(v, 'Ok', '0')
            if o.some(x):
                if other_tag(o.pc, s[0], t):
                    raise Cut()
                s[0] = app('PMn', s[0], t, obs)
                return fld(x, 'Some', '0')
            return None

        def missing(*props):
            v = app('EX', s[0])
            if o.err(v):
                return {'ret': Err(ANY, 'C04', *props)}
            if s[0] is s0:
                return {'ret': ANY}
            return {'ret': Known(Err(ANY, *props), Ok(Nothing()), 'entry-cut-by-eof', *('C05', 'C14') if 'C14' in props else ('C05',))}

        try:
            pctx = pm('|msgctxt')
            pid = pm('|msgid')
            ppl = pm('|msgid_plural') if pid is not None else None
            ctx = pm('msgctxt')
            id_ = pm('msgid')
            if id_ is None:
                if s[0] is s0 and o.ask(first):
                    # the first line is of no entry: it stays for the next one
                    def nothing(v, pc):
                        if v.op == 'adt' and v.a[1] == 'Err':
                            return True
                        rr = Report(True)
                        w = Ok(Some(Var(UNIT, None, {'message': Var(MSG, 'Simple', {'id': Is(S('')), 'text': Nothing()}), 'context': Nothing(),
                                                     'prev_context': Nothing()})))
                        if compare(pc, v, w, rr, 'ret', Ctx('', (), '', False)):
                            return True
                        return None if rr.undecided else 'a first line of no entry gives %s' % show(v)
                    return {'ret': Test(nothing, 'C10', 'C05'), 'lines': Test(lambda v, pc: True if v is s0 or v.op == 'app' and v.a[0] == 'PMx' else 'lines are lost: %s' % show(v), 'C05')}
                return missing('C05', 'C12')
            pl = pm('msgid_plural')
            if pl is not None:
                count = fld(fld(forms, 'Some', '0'), None, 'count') if o.some(forms) else I(2)

                def body(v):
                    i, s[0], vals = v['i'], v['lines'], v['values']
                    if not o.ask(lt(i, count)):
                        return 'exit', (vals, s[0])
                    x = pm(cat(S('msgstr['), mk('disp', i) if i.op != 'int' else S(str(i.a[0])), S(']')))
                    if x is None:
                        return 'exit', (vals, s[0])
                    return 'again', {'i': add(i, I(1)), 'lines': s[0], 'values': snoc(vals, x)}
                vals, s[0] = o.loop('values', {'i': I(0), 'lines': s[0], 'values': T.EMPTY}, body)
                if o.ask(nil(vals)):
                    return missing('C05', 'C12', 'C14')
                msg = Var(MSG, 'Plural', {'0': Var(PLU, None, {'singular': Is(id_, 'C12'), 'plural': Is(pl, 'C12'), 'values': Is(vals, 'C14', 'C12'),
                                                              'forms': Is(forms, 'C15', 'C11')})}, 'C12', 'C14')
            else:
                text = pm('msgstr')
                if text is None:
                    return missing('C05', 'C12')
                msg = Var(MSG, 'Simple', {'id': Is(id_, 'C12'),
                                          'text': Nothing('C12', 'C24') if o.ask(eq(text, S(''))) else Some(Is(text, 'C12'), 'C12', 'C24')}, 'C12')
        except Leave as x:
            return x.r

        def optional(x):
            return Nothing('C12') if x is None else Some(Is(x, 'C12'), 'C12')
        if pid is None:
            prev = Var(MSG, 'Simple', {'id': Is(S('')), 'text': Nothing()}, 'C12')
        elif ppl is None:
            prev = Var(MSG, 'Simple', {'id': Is(pid), 'text': Nothing()}, 'C12')
        else:
            prev = Var(MSG, 'Plural', {'0': Var(PLU, None, {'singular': Is(pid), 'plural': Is(ppl), 'values': Is(T.EMPTY)})}, 'C12')
        fs = {'message': msg, 'prev_message': prev, 'context': optional(ctx), 'prev_context': optional(pctx)}
        for f, p in (('flags', 'C07'), ('notes', 'C07'), ('locations', 'C07'), ('comments', 'C07'), ('state', 'C08'), ('obsolete', 'C09')):
            fs[f] = Is(fld(u, None, f), p)
        ps = ('C05', 'C12') + (('C14',) if pl is not None else ())
        return {'ret': Ok(Some(Var(UNIT, None, fs), *ps), *ps), 'lines': Is(s[0], 'C05', *ps[2:])}

    def extract(p, name, pc):
        if name == 'ret':
            return p.val
        return p.mem.get(D)
    r.unit('MessageExtractor::parse_message_fields', key, spec, ('C12', 'C05'), extract, ACTS, {1: self_}, st=st, given=given_fields)


def run(r):
    r.group(decoder, ('C13', 'C12', 'C09', 'C05', 'C04', 'C06', 'C02'))
    r.group(message_fields, ('C12', 'C14', 'C05'))
