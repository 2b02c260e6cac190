"""The texts and the causes of errors."""
from run import *
import engine

PROPS = ('C26',)


def parts(t):
    return list(t.a) if t.op == 'cat' else [t]


def has_part(t, want):
    """the text contains this part, told apart from its neighbours when it is a number"""
    ps = parts(t)
    w = parts(want)
    for i in range(len(ps) - len(w) + 1):
        if ps[i:i + len(w)] == w:
            if want.op == 'disp':
                b = ps[i - 1] if i else None
                a = ps[i + 1] if i + 1 < len(ps) else None
                if b is not None and b.op == 'str' and b.a[0][-1:].isalnum() or a is not None and a.op == 'str' and a.a[0][:1].isalnum():
                    continue
            return True
    return False


def text(kind):
    def spec(o):
        s = SELF
        k = next((k for k in ('Io', 'Parse', 'Unexpected', 'PluralForms') if o.is_(s, ERROR, k)), None)
        if k is None:
            return {'ret': ANY}
        want = []
        line = fld(s, k, '0')
        if k == 'PluralForms':
            want = [line]
        elif k == 'Parse':
            want = [mk('disp', line)] + [x for x in (fld(s, k, '1'), fld(s, k, '2')) if not o.ask(eq(x, S('')))]
        else:
            x = fld(s, k, '1')
            want = [x if k == 'Unexpected' else mk('disp' if kind == 'Display' else 'fmt_debug', x)]
            if not o.ask(eq(line, I(0))):
                want.append(mk('disp', line))

        def f(v, pc):
            for w in want:
                if kind == 'Debug' and w.op == 'fmt_debug' and has_part(v, mk('disp', w.a[0])):
                    continue
                w2 = norm(pc, w)
                if not has_part(v, w2) and not has_part(v, w) and not (w2.op == 'str' and any(p.op == 'str' and w2.a[0] in p.a[0] for p in parts(v))):
                    if v.opq or T.find(v, lambda x: x.op == 'app'):
                        return None
                    return 'the text of an error lacks %s: %s' % (show(w), show(v))
            return True
        return {'text': Test(f), 'ret': Ok(ANY)}
    return spec


def extract(p, name, pc):
    if name == 'ret':
        return p.val
    return p.mem.get(('in', 'p2'), var('p2'))


def errors(r):
    r.has_fields(ERROR, 'Io', 'Parse', 'Unexpected', 'PluralForms')
    for k in ('Display', 'Debug'):
        r.unit('Error::fmt (%s)' % k, '<error::Error as core::fmt::%s>::fmt' % k, text(k), ('C26',), extract)

    def source(o):
        if o.is_(SELF, ERROR, 'Io'):
            return R(Some(Is(fld(SELF, 'Io', '1'))))
        return R(Nothing())
    r.unit('Error::source', '<error::Error as core::error::Error>::source', source, ('C26',))
    r.unit('From<Error>', 'error::<impl core::convert::From<error::Error> for core::io::error::Error>::from',
           lambda o: R(Is(app('io::Error::new', adt('core::io::error::ErrorKind', 'Other', ()), var('p1')))), ('C26',))


def run(r):
    r.group(errors, ('C26',))
