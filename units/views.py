"""The views of messages, units, notes, comments, plurals and forms."""
from run import *

PROPS = ('C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C20', 'C24', 'C25')


def exec_action(c):
    return c.ret(app('exec', *[c.load(a) for a in c.args]))


EXEC = {'plural::formula::node::Node::execute': exec_action}


def messages(r):
    r.has_fields(MSG, 'Simple', 'Plural', 'id', 'text')
    r.has_fields(PLU, 'singular', 'plural', 'values', 'forms')
    s = SELF
    p = fld(s, 'Plural', '0')
    text = fld(s, 'Simple', 'text')
    id_ = fld(s, 'Simple', 'id')
    vals = fld(p, None, 'values')

    def plural(o):
        return o.is_(s, MSG, 'Plural', ('Simple', 'Plural'))

    def m(name, f, *props):
        r.unit('Message::' + name, 'enums::message::Message::' + name, lambda o: R(f(o)), props)

    m('is_simple', lambda o: Is(B(False)) if plural(o) else Is(not_(eq(id_, S('')))), 'C24')
    m('is_plural', lambda o: Is(B(plural(o))), 'C24', 'C12')
    m('is_empty', lambda o: Is(B(False)) if plural(o) else Is(eq(id_, S(''))), 'C10')
    m('get_id', lambda o: Is(fld(p, None, 'singular') if plural(o) else id_), 'C24', 'C12')

    def text_of(o):
        if plural(o):
            return Is(S('') if o.ask(nil(vals)) else hd(vals))
        return Is(fld(text, 'Some', '0') if o.some(text) else S(''))
    m('get_text', text_of, 'C24', 'C12')
    m('get_plural_id', lambda o: Some(Is(fld(p, None, 'plural'))) if plural(o) else Nothing(), 'C24', 'C12')
    m('plural', lambda o: Some(Is(p)) if plural(o) else Nothing(), 'C24', 'C12')

    def blank(o):
        if plural(o):
            return Is(not_(anyseq(vals, [[(eq(elt(vals), S('')), False)]])))
        return Is(eq(fld(text, 'Some', '0'), S('')) if o.some(text) else B(True))
    m('is_blank', blank, 'C24', 'C08')
    r.unit('Message::get_plural_text', 'enums::message::Message::get_plural_text',
           lambda o: R(lookup(o, p, var('p2')) if plural(o) else opt(o, text)), ('C15', 'C12'), actions=EXEC)
    r.unit('Message::default', '<enums::message::Message as core::default::Default>::default',
           lambda o: R(Var(MSG, 'Simple', {'id': Is(S('')), 'text': Nothing()})), ('C12', 'C10'))

    # equality
    q = var('p2')

    def equal(o):
        a, b = plural(o), o.is_(q, MSG, 'Plural', ('Simple', 'Plural'))
        if a != b:
            return Is(B(False))
        if a:
            x, y = fld(s, 'Plural', '0'), fld(q, 'Plural', '0')
            return Is(B(o.ask(eq(fld(x, None, 'singular'), fld(y, None, 'singular'))) and
                        o.ask(eq(fld(x, None, 'plural'), fld(y, None, 'plural')))))
        if not o.ask(eq(fld(s, 'Simple', 'id'), fld(q, 'Simple', 'id'))):
            return Is(B(False))
        t = [fld(x, 'Simple', 'text') for x in (s, q)]
        t = [fld(x, 'Some', '0') if o.some(x) else S('') for x in t]
        return Is(B(o.ask(eq(*t))))
    r.unit('Message::eq', '<enums::message::Message as core::cmp::PartialEq>::eq', lambda o: R(equal(o)), ('C25',))


def lookup(o, p, n):
    """The text of plural p for the count n."""
    forms = fld(p, None, 'forms')
    if not o.some(forms):
        return Nothing()
    i = index(o, fld(forms, 'Some', '0'), n)
    if i is None:
        return Nothing()
    vals = fld(p, None, 'values')
    if not o.ask(lt(i, T.slen(vals))):
        return Nothing()
    return Some(Is(at(vals, i)))


def index(o, f, n):
    if not o.ask(lt(n, I(1 << 63))):
        return None
    v = app('exec', fld(fld(f, None, 'formula'), None, 'expr'), T.mk('cast', n, 'usize', 'i64'))
    if o.ask(lt(v, I(0), 'i64')):
        return None
    i = T.mk('cast', v, 'i64', 'usize')
    if not o.ask(lt(i, fld(f, None, 'count'))):
        return None
    return i


def plurals(r):
    r.has_fields(PLU, 'singular', 'plural', 'values', 'forms')
    r.has_fields(FRM, 'formula', 'count', 'definition', 'formula_source')
    r.has_fields(FML, 'expr')
    s = SELF
    P = 'plural::plural::Plural::'

    def get(name, f, *props):
        r.unit('Plural::' + name, P + name, lambda o: R(Is(fld(s, None, f))), props)
    get('singular', 'singular', 'C24', 'C12')
    get('plural', 'plural', 'C24', 'C12')
    get('values', 'values', 'C14', 'C12')
    vals = fld(s, None, 'values')
    r.unit('Plural::first', P + 'first', lambda o: R(Is(S('') if o.ask(nil(vals)) else hd(vals))), ('C24', 'C12'))
    r.unit('Plural::is_blank', P + 'is_blank', lambda o: R(Is(not_(anyseq(vals, [[(eq(elt(vals), S('')), False)]])))),
           ('C24', 'C08'))
    r.unit('Plural::get_forms', P + 'get_forms', lambda o: R(opt(o, fld(s, None, 'forms'))), ('C15', 'C11'))
    r.unit('Plural::get', P + 'get', lambda o: R(lookup(o, s, var('p2'))), ('C15',), actions=EXEC)
    r.unit('Plural::new', P + 'new', lambda o: R(Var(PLU, None, {'singular': Is(var('p1')), 'plural': Is(var('p2')),
                                                                'values': Is(var('p3')), 'forms': Is(var('p4'))})),
           ('C12', 'C14'))

    F = 'plural::forms::PluralForms::'

    def value(o):
        i = index(o, s, var('p2'))
        return Nothing() if i is None else Some(Is(i))
    r.unit('PluralForms::get_value', F + 'get_value', lambda o: R(value(o)), ('C15',), actions=EXEC)
    r.unit('PluralForms::get_count', F + 'get_count', lambda o: R(Is(fld(s, None, 'count'))), ('C20', 'C15', 'C14'))
    r.unit('PluralForms::get_definition', F + 'get_definition', lambda o: R(Is(fld(s, None, 'definition'))), ('C20',))
    r.unit('PluralForms::get_formula', F + 'get_formula',
           lambda o: R(Is(fld(s, None, 'formula_source'))), ('C20',))


def units(r):
    r.has_fields(UNIT, 'flags', 'notes', 'locations', 'comments', 'state', 'obsolete', 'context', 'message', 'prev_context',
                 'prev_message')
    s = SELF

    def acc(name, f, *props):
        r.unit('Unit::' + name, 'unit::Unit::' + name, lambda o: R(Is(fld(s, None, f))), props)

    def oacc(name, f, *props):
        r.unit('Unit::' + name, 'unit::Unit::' + name, lambda o: R(opt(o, fld(s, None, f))), props)
    oacc('context', 'context', 'C12')
    oacc('prev_context', 'prev_context', 'C12')
    acc('message', 'message', 'C12')
    acc('prev_message', 'prev_message', 'C12')
    acc('flags', 'flags', 'C07')
    acc('notes', 'notes', 'C07')
    acc('locations', 'locations', 'C07')
    acc('comments', 'comments', 'C07')
    acc('state', 'state', 'C08')
    acc('is_obsolete', 'obsolete', 'C09')
    r.unit('Unit::is_translated', 'unit::Unit::is_translated', lambda o: R(Is(isv(fld(s, None, 'state'), STATE, 'Final'))),
           ('C08',))
    e = T.EMPTY
    empty = {'flags': Is(e, 'C07', 'C08'), 'notes': Is(e, 'C07'), 'locations': Is(e, 'C07'), 'comments': Is(e, 'C07'),
             'state': Var(STATE, 'Empty', {}, 'C08'), 'obsolete': Is(B(False), 'C09')}
    r.unit('Unit::default', '<unit::Unit as core::default::Default>::default', lambda o: R(Var(UNIT, None, empty)),
           ('C07',))

    N, C = 'note::Note::', 'comment::Comment::'
    r.has_fields(NOTE, 'origin', 'value')
    r.has_fields(COM, 'kind', 'content')
    r.unit('Note::new', N + 'new', lambda o: R(Var(NOTE, None, {'origin': Is(var('p1')), 'value': Is(var('p2'))})), ('C07', 'C11'))
    r.unit('Note::origin', N + 'origin', lambda o: R(Is(fld(s, None, 'origin'))), ('C07', 'C11'))
    r.unit('Note::value', N + 'value', lambda o: R(Is(fld(s, None, 'value'))), ('C07', 'C11'))
    r.unit('Comment::new', C + 'new', lambda o: R(Var(COM, None, {'kind': Is(var('p1')), 'content': Is(var('p2'))})), ('C07', 'C11'))
    r.unit('Comment::kind', C + 'kind', lambda o: R(Is(fld(s, None, 'kind'))), ('C07', 'C11'))
    r.unit('Comment::comment', C + 'comment', lambda o: R(Is(fld(s, None, 'content'))), ('C07', 'C11'))


def readers(r):
    K = '<po::reader::PoReader<\'_, &[u8]> as catalogue::CatalogueReader>::'
    ks = [k for k in r.w.dump['instances'] if k.startswith('<po::reader::PoReader') and 'CatalogueReader>::' in k]
    for name in ('target_language', 'header_notes', 'header_comments', 'header_properties'):
        k = [x for x in ks if x.endswith('::' + name)]
        if len(k) != 1:
            raise Undecided('no CatalogueReader::' + name)
        r.unit('CatalogueReader::' + name, k[0], lambda o: R(Is(fld(SELF, None, name))), ('C11', 'C10'))


def run(r):
    for f in (messages, plurals, units, readers):
        r.group(f, PROPS)
