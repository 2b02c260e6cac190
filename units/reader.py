"""From the fields of one entry to the entries of the catalogue: PoReader::read_unit, PoReader::next, PoReader::new."""
from run import *
import random, spec
import engine
from models import peek_of, next_of
from fields import kind, line_at

PROPS = ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C15', 'C20')
READER = 'po::reader::PoReader'
UFIELDS = ('context', 'message', 'prev_context', 'prev_message', 'flags', 'notes', 'locations', 'comments', 'state', 'obsolete')
RFIELDS = ('lines', 'next_unit', 'header_notes', 'header_comments', 'header_properties', 'target_language', 'plural_forms')


def three(c, v, value, after):
    """The outcomes of a call with the result v: an error, nothing, or something."""
    out = []
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), True)
    if st:
        out.append(Out(after(st, 'err'), 'ret', err(fld(v, 'Err', '0'))))
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), False)
    x = fld(v, 'Ok', '0')
    a = st and c.eng.assume(st, mk('is', x, T.OPT, 'Some'), False)
    if a:
        out.append(Out(after(a, 'none'), 'ret', ok(T.NONE)))
    a = st and c.eng.assume(st, mk('is', x, T.OPT, 'Some'), True)
    if a:
        out.append(Out(after(a, 'some'), 'ret', ok(some(value(fld(x, 'Some', '0'))))))
    return out


# ================================================================ one entry
def fields_action(c):
    """MessageExtractor::parse_message_fields as its specification has it: an error, nothing, or the entry it was given
    with the fields that were read.  The result depends on the lines, on `first`, on the plural forms, and (where the
    first line is a field) on whether the entry is obsolete."""
    ex, first = c.load(c.args[0]), c.load(c.args[1])
    dref, u, forms = fld(ex, None, 'decoder'), fld(ex, None, 'unit'), fld(ex, None, 'plural_forms')
    s = c.load(dref)
    obs = fld(u, None, 'obsolete')
    l = fld(fld(peek_of(s), 'Some', '0'), 'Ok', '0')
    if c.st.pc.decide(variant_is(l, LINE, 'Message', ('Blank', 'Comment', 'Message', 'Continuation'))) is False:
        obs = B(False)
    v = app('PMF', s, first, obs, forms_of(c.st.pc, forms))

    def after(st, k):
        st = st.fork()
        c.update(dref, app('PMFn', s, first) if k == 'some' else app('PMx', s), st)
        return st

    def value(y):
        return adt(UNIT, None, {f: (fld(y, None, f) if f in ('message', 'context', 'prev_context', 'prev_message') else fld(u, None, f))
                                for f in UFIELDS})
    return three(c, v, value, after)


def forms_of(pc, forms):
    """Some(x.Some.0), where x is known to be Some, is x; None, where x is known to be None, is x"""
    forms = norm(pc, forms)
    if forms.op == 'adt' and forms.a[1] == 'Some':
        y = forms.a[2][0][1]
        if y.op == 'fld' and y.a[1] == 'Some':
            return y.a[0]
    if forms is T.NONE:
        f = fld(SELF, None, 'plural_forms')
        if pc.variant(f) == 'None':
            return f
    return forms


def blank(o, m):
    if o.is_(m, MSG, 'Plural', ('Simple', 'Plural')):
        vals = fld(fld(m, 'Plural', '0'), None, 'values')
        return not o.ask(anyseq(vals, [[(eq(elt(vals), S('')), False)]]))
    t = fld(m, 'Simple', 'text')
    return not o.some(t) or o.ask(eq(fld(t, 'Some', '0'), S('')))


def nosource(o, m):
    return not o.is_(m, MSG, 'Plural', ('Simple', 'Plural')) and o.ask(eq(fld(m, 'Simple', 'id'), S('')))


NOUNIT = T.mk('var', 'no unit is returned')


def enough(want):
    """nothing that was read is missing"""
    def f(v, pc):
        w = norm(pc, want)
        if v is NOUNIT or v is w:
            return True
        v, w = explicit(v), explicit(w)
        if v is None or w is None:
            return None
        return True if len(v) >= len(w) else '%d of the %d elements that were read' % (len(v), len(w))
    return f


def explicit(s):
    """the elements of a sequence that is written out"""
    l = []
    while s.op == 'snoc':
        l.insert(0, s.a[1])
        s = s.a[0]
    return l if s is T.EMPTY else None


def value(path, var, **fs):
    return ('adt', var, tuple((n.lstrip('_'), x) for n, x in fs.items()))


def OK(x):
    return ('adt', 'Ok', (('0', x),))


def SOME(x):
    return ('adt', 'Some', (('0', x),))


NO = ('adt', 'None', ())


def a_message(id_, text):
    return ('adt', 'Simple', (('id', id_), ('text', text)))


def a_unit(**fs):
    d = {'context': NO, 'message': a_message('a', SOME('b')), 'prev_context': NO, 'prev_message': a_message('', NO), 'flags': (), 'notes': (),
         'locations': (), 'comments': (), 'state': ('adt', 'Final', ()), 'obsolete': 0}
    d.update(fs)
    return ('adt', None, tuple(d.items()))


def entries(outs, eng):
    """Comments before an entry."""
    from lines import pieces
    g = random.Random(1)
    said = [x for x in pieces(spec.said(outs, eng), ['\t', '-', 'no-', 'é', '\u00a0']) if x not in (',', ':', '.')]
    many = [y for y in sorted({y for t in spec.said(outs, eng) for y in spec.turning(t)}) if 4 < y <= 300 and y not in (32, 44, 46, 58)]
    texts = ['', 'a', 'a', 'b', 'fuzzy', 'fuzzy', ' a  b ', 'b:1 a:2', 'a b c', 'c-format', 'x:1\tx:2']

    def words():
        l = [g.choice(texts) for _ in range(g.choice((1, 1, 2, 3)))]
        for j in range(g.choice((0, 0, 1, 2, 2))):
            w, x = g.choice(l + texts), g.choice(said)
            l.insert(g.randrange(len(l) + 1), g.choice((x + w, w + x, x, x)))
        return l
    marks = ',:. ' * 3 + '|!~#=xé'
    lines = fld(SELF, None, 'lines')
    forms = fld(SELF, None, 'plural_forms')
    for i in range(2500):
        n = g.choice((0, 1, 1, 2, 2, 3, 3, 4, 6, 8))
        ls = []
        if i % 50 == 1 and many:
            # as many lines of a kind as the code counts
            m = g.choice(',:. |')
            ls = [OK(('adt', 'Comment', (('0', j + 1), ('1', ord(m)), ('2', 'w%d' % j)))) for j in range(g.choice(many) + g.choice((-1, 0, 1)))]
            n = 5
        for j in range(n):
            ws = words()
            t = ws[0] if g.random() < 0.2 else g.choice((', ', ', ', ',', ' ', '')).join(ws)
            m = g.choice(marks) if g.random() < 0.9 or not said else g.choice(said)[0]
            if ls and len(ls) < 20 and g.random() < 0.3:
                m = chr(ls[-1][2][0][1][2][1][1])
            ls.append(OK(('adt', 'Comment', (('0', j + 1), ('1', ord(m)), ('2', t)))))
        mark = g.choice(('', '', '~', '~|', '|'))
        tag = g.choice(('msgid', 'msgctxt')) if not mark.endswith('|') else '|msgid'
        ls.append(OK(('adt', 'Message', (('0', n + 1), ('1', mark), ('2', tag), ('3', 'a')))))
        msg = g.choice((a_message('a', SOME('b')), a_message('a', NO), a_message('a', SOME(' '))))
        yield {lines: ('lines', tuple(ls)), forms: NO, var('p2'): g.choice((0, 1))}, \
            {'PMF': lambda *a: OK(SOME(a_unit(message=msg)))}


def headers(outs, eng):
    """Header entries."""
    from lines import pieces
    g = random.Random(2)
    said = pieces(spec.said(outs, eng), ['\t', '\r', '\u00a0', ':', ' ', 'é'])
    keys = ['Language', 'Plural-Forms', 'a', 'A', 'X-Y', '', 'b']
    vals = ['v', '', ' w ', 'a:b', 'fr', 'fr_FR', 'sr@latin', 'é', 'x y', 'nplurals=2; plural=n;']

    def lang(x):
        return OK(('free', 'language', x)) if isinstance(x, str) and x.isascii() and x.isalpha() else ('adt', 'Err', (('0', ('free', 'e1')),))

    def unix(x):
        return OK(('free', 'unix', x)) if isinstance(x, str) and '_' in x else ('adt', 'Err', (('0', ('free', 'e2')),))
    for i in range(1500):
        ls = []
        for j in range(g.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 7))):
            k = g.choice(keys) if g.random() < 0.8 else ''.join(g.choice(said) for _ in range(2))
            v = g.choice(vals) if g.random() < 0.8 else ''.join(g.choice(said) for _ in range(2))
            if ls and g.random() < 0.4:
                k = g.choice(ls).partition(':')[0]
            ls.append(g.choice(('', '', '', ' ', '\t')) + k + g.choice((': ', ':', ' : ', ':  ')) + v + g.choice(('', '', '', ' ', '\r')) if g.random() < 0.93 else k)
        text = '\n'.join(ls) + g.choice(('', '\n'))
        u = a_unit(message=a_message('' if i % 8 else 'a', SOME(text) if text else NO), notes=tuple(
            ('adt', None, (('origin', ('adt', g.choice(('Developer', 'Translator')), ())), ('value', g.choice(('', 'a', 'b'))))) for _ in range(g.choice((0, 1, 2, 3)))),
            comments=tuple(('adt', None, (('kind', ord(g.choice('|!=~'))), ('content', g.choice(('', 'a', 'b'))))) for _ in range(g.choice((0, 1, 2, 3)))))
        nxt = g.choice((OK(NO), OK(SOME(a_unit()))))
        yield {}, {'RU': lambda l, first, f: OK(SOME(u)) if first else nxt, 'PF': lambda x: OK(('free', 'forms', x)),
                   'LanguageRange::new': lang, 'LanguageRange::from_unix': unix}


def read_unit(r):
    r.has_fields(READER, *RFIELDS)
    r.has_fields(UNIT, *UFIELDS)
    key = "po::reader::PoReader::<'_, &[u8]>::read_unit"
    lines, forms, first = fld(SELF, None, 'lines'), fld(SELF, None, 'plural_forms'), var('p2')

    def spec(o):
        kept = {f: Is(fld(SELF, None, f), 'C11', 'C05') for f in RFIELDS if f != 'lines'}
        empty, todo = adt(STATE, 'Empty', ()), adt(STATE, 'NeedsWork', ())

        def body(v):
            l = line_at(o, v['lines'])
            if l is None or l[0] == 'err' or kind(o, l[1]) != 'Comment':
                return 'exit', (l, v)
            c, s = fld(l[1], 'Comment', '1'), fld(l[1], 'Comment', '2')
            n = dict(v, lines=next_of(v['lines']))
            if o.ask(eq(c, C(','))):
                pieces = split(s, S(','))
                pieces = compr(pieces, [((), [trim(elt(pieces))])])
                n['flags'] = setadd(v['flags'], pieces)
                if o.ask(anyseq(pieces, [[(eq(elt(pieces), S('fuzzy')), True)]])):
                    n['state'] = todo
            elif o.ask(eq(c, C(':'))):
                w = split(s, T.mk('ws'))
                n['locations'] = seqcat(v['locations'], compr(w, [([(eq(elt(w), S('')), False)], [elt(w)])]))
            elif o.ask(eq(c, C('.'))):
                n['notes'] = snoc(v['notes'], adt(NOTE, None, {'origin': adt(ORIGIN, 'Developer', ()), 'value': s}))
            elif o.ask(eq(c, C(' '))):
                n['notes'] = snoc(v['notes'], adt(NOTE, None, {'origin': adt(ORIGIN, 'Translator', ()), 'value': s}))
            else:
                n['comments'] = snoc(v['comments'], adt(COM, None, {'kind': c, 'content': s}))
            return 'again', n
        l, v = o.loop('comments', {'lines': lines, 'flags': T.EMPTY, 'locations': T.EMPTY, 'notes': T.EMPTY,
                                   'comments': T.EMPTY, 'state': empty}, body)
        if l is None:
            return dict(kept, ret=Ok(Nothing('C05'), 'C05'))
        if l[0] == 'err':
            return dict(kept, ret=Err(Is(l[1], 'C04'), 'C04'))
        l = l[1]
        k = kind(o, l)
        field = k == 'Message'
        obs = B(o.ask(sw(fld(l, k, '1'), S('~')))) if field else B(False)
        res = app('PMF', v['lines'], first, obs, forms)
        if o.err(res):
            return dict(kept, ret=Err(Is(fld(res, 'Err', '0'), 'C04', 'C05'), 'C04', 'C05'))
        res = fld(res, 'Ok', '0')
        if not o.some(res):
            return dict(kept, ret=Ok(Nothing('C05'), 'C05'))
        u = fld(res, 'Some', '0')
        m = fld(u, None, 'message')
        if not o.ask(first) and nosource(o, m):
            return dict(kept, ret=Err(Var(ERROR, 'Unexpected', {'0': Is(fld(l, k, '0'), 'C06')}, 'C10', 'C05'), 'C10', 'C05'))
        state = v['state']
        if state is empty or state is not todo and o.is_(state, STATE, 'Empty', ('Empty', 'NeedsWork', 'Final')):
            state = empty if blank(o, m) else adt(STATE, 'Final', ())
        fs = {'message': Is(m, 'C12', 'C05'), 'context': Is(fld(u, None, 'context'), 'C12'),
              'prev_context': Is(fld(u, None, 'prev_context'), 'C12'), 'prev_message': Is(fld(u, None, 'prev_message'), 'C12'),
              'state': Is(state, 'C08'), 'obsolete': Is(obs, 'C09') if field else ANY}
        for f in ('flags', 'locations', 'notes', 'comments'):
            fs[f] = Is(v[f], 'C07')
            if f != 'flags':
                kept['lost ' + f] = Test(enough(v[f]), 'C05')
        return dict(kept, ret=Ok(Some(Var(UNIT, None, fs), 'C05', 'C10'), 'C05', 'C10'), lines=Is(app('PMFn', v['lines'], first), 'C05'))

    def extract(p, name, pc):
        if name == 'ret':
            return p.val
        if name.startswith('lost '):
            x = p.val
            for v in ('Ok', 'Some'):
                if x.op != 'adt' or x.a[1] != v:
                    return NOUNIT
                x = fld(x, v, '0')
            return fld(x, None, name[5:])
        return fld(p.mem.get(('in', 'self'), SELF), None, name)
    r.unit('PoReader::read_unit', key, spec, ('C05', 'C07', 'C04'), extract,
           {'po::message_extractor::MessageExtractor::parse_message_fields': fields_action}, given=entries)


# ================================================================ the stream of entries
def unit_action(c):
    """PoReader::read_unit as its specification has it: only the lines change."""
    s, first = c.load(c.args[0]), c.load(c.args[1])
    lines, forms = fld(s, None, 'lines'), forms_of(c.st.pc, fld(s, None, 'plural_forms'))
    t = c.target(c.args[0], c.st)
    if t is None:
        raise Undecided('PoReader::read_unit: the reader is not known')

    def after(st, k):
        st = st.fork()
        c.eng.store(st, engine.Loc(t.root, t.path + ((None, 'lines'),), None), app('RUn', lines, first))
        return st
    return three(c, app('RU', lines, first, forms), lambda x: x, after)


def forms_action(c):
    v = app('PF', c.load(c.args[0]))
    out = []
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), True)
    if st:
        out.append(Out(st, 'ret', err(fld(v, 'Err', '0'))))
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), False)
    if st:
        out.append(Out(st, 'ret', ok(fld(v, 'Ok', '0'))))
    return out


ACTS = {READER + '::read_unit': unit_action, 'plural::forms::PluralForms::parse': forms_action}


def pending(o, lines, first, forms, *props):
    """What is kept for the next call: the result of reading one more entry."""
    v = app('RU', lines, first, forms)
    if o.err(v):
        return Some(Err(Is(fld(v, 'Err', '0'), 'C04', *props), 'C04', *props), *props)
    x = fld(v, 'Ok', '0')
    if not o.some(x):
        return Nothing(*props)
    return Some(Ok(Is(fld(x, 'Some', '0'), *props), *props), *props)


def stream(r):
    r.has_fields(READER, *RFIELDS)
    lines, forms, nu = [fld(SELF, None, f) for f in ('lines', 'plural_forms', 'next_unit')]
    head = ('header_notes', 'header_comments', 'header_properties', 'target_language', 'plural_forms')

    def spec(o):
        kept = {f: Is(fld(SELF, None, f), 'C11', 'C05') for f in head}
        if not o.some(nu):
            # the end, for ever: nothing is read any more
            return dict(kept, ret=Nothing('C03'), next_unit=Nothing('C03'), lines=Is(lines, 'C03'))
        x = fld(nu, 'Some', '0')
        if o.err(x):
            # an error is the last item
            return dict(kept, ret=Some(Err(Is(fld(x, 'Err', '0'), 'C04', 'C03'), 'C04', 'C03'), 'C04', 'C03'), next_unit=Nothing('C03'))
        return dict(kept, ret=Some(Ok(Is(fld(x, 'Ok', '0'), 'C05'), 'C05'), 'C05'), next_unit=pending(o, lines, B(False), forms, 'C05', 'C03'),
                    lines=Is(app('RUn', lines, B(False)), 'C05'))

    def extract(p, name, pc):
        if name == 'ret':
            return p.val
        return fld(p.mem.get(('in', 'self'), SELF), None, name)
    r.unit('PoReader::next', "<po::reader::PoReader<'_, &[u8]> as core::iter::traits::iterator::Iterator>::next", spec,
           ('C05', 'C03', 'C04'), extract, ACTS)


def start(r):
    r.has_fields(READER, *RFIELDS)
    r.has_fields('po::line_iter::LineIter', 'n', 'inner', 'parser')
    e, outs = r.summary('po::line_iter::LineIter::new')
    outs = [o for o in outs if o.kind == 'ret']
    if len(outs) != 1:
        raise Undecided('LineIter::new')
    l0 = outs[0].val
    inv = app('LanguageRange::invariant')

    def reader(o, l, nu, notes, comments, props, lang, forms):
        return R(Ok(Var(READER, None, {'lines': l, 'next_unit': nu, 'header_notes': notes, 'header_comments': comments,
                                       'header_properties': props, 'target_language': lang, 'plural_forms': forms}, 'C10'), 'C10', 'C11'))

    def spec(o):
        none = T.NONE
        v = app('RU', l0, B(True), none)
        if o.err(v):
            return R(Err(Is(fld(v, 'Err', '0'), 'C04', 'C03'), 'C04', 'C03'))
        x = fld(v, 'Ok', '0')
        l1 = app('RUn', l0, B(True))
        bare = (Is(T.EMPTY, 'C10', 'C11'), Is(T.EMPTY, 'C10', 'C11'), Is(T.EMPTY, 'C10', 'C11'), Is(inv, 'C11'), Nothing('C11', 'C10'))
        if not o.some(x):
            return reader(o, ANY, Nothing('C05', 'C03'), *bare)
        u = fld(x, 'Some', '0')
        m = fld(u, None, 'message')
        if not nosource(o, m):
            return reader(o, Is(l1, 'C05'), Some(Ok(Is(u, 'C10', 'C05'), 'C10', 'C05'), 'C10', 'C05'), *bare)
        # the header
        t = fld(m, 'Simple', 'text')
        text = fld(t, 'Some', '0') if o.some(t) else S('')
        ls = split(text, S('\n'))
        pairs = compr(ls, [([(has(elt(ls), S(':')), True)], [tup(trim(mk('before', elt(ls), S(':'))), trim(mk('after', elt(ls), S(':'))))])])
        groups = T.rebuild('mapiter', (T.rebuild('mapgroup', (T.EMPTY, pairs)),))
        props = T.rebuild('mapext', (T.EMPTY, compr(groups, [((), [tup(fld(elt(groups), None, '0'), T.rebuild('join', (fld(elt(groups), None, '1'), S(' '))))])])))
        lang = Is(inv, 'C11')
        g = T.rebuild('mapget', (props, S('Language')))
        if o.some(g):
            name = fld(g, 'Some', '0')
            a, b = app('LanguageRange::new', name), app('LanguageRange::from_unix', name)
            if not o.err(a):
                lang = Is(fld(a, 'Ok', '0'), 'C11')
            elif o.ask(mk('pred', 'ascii', name)) and not o.err(b):
                lang = Is(fld(b, 'Ok', '0'), 'C11')
        forms = Nothing('C11')
        fv = none
        g = T.rebuild('mapget', (props, S('Plural-Forms')))
        if o.some(g) and not o.ask(eq(fld(g, 'Some', '0'), S(''))):
            p = app('PF', fld(g, 'Some', '0'))
            if o.err(p):
                return R(Err(Is(fld(p, 'Err', '0'), 'C20', 'C11', 'C04'), 'C20', 'C11', 'C04'))
            fv = some(fld(p, 'Ok', '0'))
            forms = Some(Is(fld(p, 'Ok', '0'), 'C11', 'C15'), 'C11', 'C15')
        return reader(o, Is(app('RUn', l1, B(False)), 'C05'), pending(o, l1, B(False), fv, 'C05', 'C10', 'C11'),
                      Is(fld(u, None, 'notes'), 'C11'), Is(fld(u, None, 'comments'), 'C11'), Is(props, 'C11'), lang, forms)
    r.unit('PoReader::new', "po::reader::PoReader::<'_, &[u8]>::new", spec, ('C10', 'C11', 'C05'), ret, ACTS, given=headers)


def split(s, p):
    return T.split(s, p)


def run(r):
    r.group(read_unit, ('C05', 'C07', 'C08', 'C09', 'C10', 'C04'))
    r.group(stream, ('C05', 'C03', 'C04'))
    r.group(start, ('C10', 'C11', 'C05'))
