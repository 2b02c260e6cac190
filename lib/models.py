"""Descriptions of the standard library and regex functions the analysed code calls.

Each model gives the value returned and the memory changed as terms.  A function without a model and
without a body in the dump is opaque: whatever depends on it is left undecided."""
from terms import *
import terms as T
from engine import Out, Loc, State, Undecided, Call, refs_full, LoopRec, short, strip_generics
import re

SIGMA = 'core::iter::adapters::peekable::Peekable<po::line_iter::LineIter'
LINEITER = 'po::line_iter::LineIter'
RAWLINES = 'alloc::io::util::Lines<'
WS = mk('ws')

# pure functions that change a value in a way the properties do not describe: uninterpreted
VALUE_CHANGING = set('''
str::to_uppercase str::to_lowercase str::to_ascii_uppercase str::to_ascii_lowercase str::replace str::replacen
str::trim_matches str::trim_start_matches str::trim_end_matches str::repeat str::escape_debug str::escape_default
str::rsplit str::splitn str::rsplitn str::split_terminator str::split_inclusive str::char_indices str::bytes
str::rfind str::rsplit_once str::matches str::split_ascii_whitespace str::trim_ascii
slice::to_vec_reversed slice::last slice::split_last
Iterator::rev Iterator::skip Iterator::take Iterator::step_by Iterator::last Iterator::max Iterator::min Iterator::sum
Iterator::skip_while Iterator::nth Iterator::zip Iterator::enumerate
char::to_ascii_lowercase char::to_ascii_uppercase char::to_lowercase char::to_uppercase char::len_utf8
i64::abs i64::signum i64::pow i64::wrapping_abs i64::saturating_add i64::saturating_sub i64::saturating_mul
i64::unsigned_abs i64::rem_euclid i64::div_euclid i64::wrapping_rem_euclid i64::wrapping_div_euclid
usize::saturating_sub usize::saturating_add usize::saturating_mul Error::kind Error::raw_os_error str::is_char_boundary
usize::abs_diff i64::abs_diff usize::pow usize::clamp i64::clamp
i64::overflowing_abs i64::overflowing_rem_euclid i64::overflowing_div_euclid i64::swap_bytes i64::leading_zeros
'''.split())
# the same for functions that change their first argument in place
INPLACE = set('''
Vec::reverse Vec::dedup Vec::retain Vec::truncate Vec::swap_remove Vec::remove Vec::insert Vec::pop Vec::drain Vec::sort
String::truncate String::pop String::remove String::insert String::retain HashSet::remove HashSet::retain HashMap::remove
HashMap::retain String::make_ascii_lowercase str::make_ascii_lowercase str::make_ascii_uppercase slice::sort
slice::reverse slice::sort_unstable slice::sort_by slice::sort_by_key slice::swap slice::rotate_left slice::rotate_right
Vec::dedup_by_key Vec::split_off Vec::resize HashSet::take
'''.split())


def deref_ty(eng, k):
    t = eng.ty(k)
    n = 0
    while t['k'] in ('ref', 'ptr') or (t['k'] == 'adt' and (t.get('box') or t['path'] in ('alloc::rcs::rc::Rc', 'alloc::rc::Rc'))):
        k = t['t'] if t['k'] in ('ref', 'ptr') else t['args'][0]
        t = eng.ty(k)
        n += 1
        if n > 10:
            break
    return k


def is_str(eng, k):
    k = deref_ty(eng, k)
    return k in ('str', 'alloc::string::String') or k.startswith('alloc::borrow::Cow<')


def path_of(eng, k):
    t = eng.ty(k)
    p = t.get('path', k)
    if p.endswith('::BTreeMap') or p.endswith('::BTreeSet'):      # (the order of a table is left open)
        return p[:-8] + 'Hash' + p[-3:]
    return p


def is_sigma(k):
    return k is not None and SIGMA in k and not k.startswith('core::option')


# ---------------------------------------------------------------- the lines of the parser (values of type Peekable<LineIter>)
def peek_of(s):
    return mk('peek', s)


def next_of(s):
    return mk('next', s)


# ---------------------------------------------------------------- lookup
def lookup(c, local):
    n = c.name
    eng = c.eng
    if local:
        t = (c.f.get('trait') or '')
        st = c.selfty() or ''
        last = t.split('::')[-1]
        if last == 'Clone' and not manual(eng, t, st):
            return m_identity
        if last == 'PartialEq' and not manual(eng, t, st):
            return m_eq if n.endswith('eq') else m_ne
        if n in ('Iterator::next',) and is_sigma(st):
            return MODELS['Iterator::next']
        if (t.split('::')[-1] in ('Iterator',)) and n != 'Iterator::next':
            return MODELS.get(n)
        return None
    m = MODELS.get(n)
    if m:
        return m
    tr = (c.f.get('trait') or '').split('::')[-1]
    if n in VALUE_CHANGING:
        return m_unint
    if n in INPLACE:
        return m_inplace
    ty, _, meth = n.partition('::')
    if ty in INTS:
        h = INTM.get(meth)
        if h:
            return lambda c: h(c, ty)
    if ty == 'char':
        h = CHARM.get(meth)
        if h:
            return h
        if meth.startswith('is_'):
            return lambda c: c.ret(mk('pred', 'char.' + meth, *[c.load(a) for a in c.args]))
    if n.startswith('panicking::') or n in ('result::unwrap_failed', 'option::unwrap_failed', 'option::expect_failed'):
        return m_panic
    if c.full.startswith('core::panicking') or c.full.startswith('std::rt::begin_panic') or c.full.startswith('std::process'):
        return m_panic
    if 'LanguageRange' in n:
        return m_lang
    if n.endswith('precondition_check') or n in ('intrinsics::assume', 'intrinsics::cold_path', 'hint::assert_unchecked', 'hint::cold_path'):
        return lambda c: c.ret(UNIT)
    return None


def manual(eng, trait, selfty):
    p = eng.ty(selfty).get('path', selfty)
    for s in eng.manual.get(trait, ()):
        if s == selfty or strip_generics(s) == strip_generics(p):
            return True
    return False


INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def m_identity(c):
    a = c.args[0]
    return c.ret(c.load(a))


def val(c, i=0):
    return c.load(c.args[i])


def m_unint(c):
    st, bad = may_panic(c)
    return c.ret(T.app(c.name, *[c.load(a) for a in c.args]), st) + bad


def may_panic(c):
    """(state, panic outcomes) of the functions that panic on some arguments"""
    w = PANICS.get(c.name)
    if w is None and c.name.split('::')[0] in INTS:
        w = PANICS.get('int::' + c.name.split('::')[1])
    if w is None:
        return c.st, []
    t = w(c)
    if t is None:       # not known when
        st = c.eng.fork_opq(c.st, opq('when %s panics' % c.name))
        return c.st, [c.eng.panic(st, c.fr, c.name, c.sp)]
    out, ok = [], c.st
    for st, b in c.eng.branch(c.st, t):
        if b:
            out.append(c.eng.panic(st, c.fr, c.name, c.sp))
        else:
            ok = st
    return ok, out


def _unknown(c):
    return None


def _beyond(strict):
    # index > len (or >= len)
    def w(c):
        n, i = seqlen(c.load(c.args[0])), c.load(c.args[1])
        return lt(n, i, 'usize') if strict else not_(lt(i, n, 'usize'))
    return w


def _boundary(c):
    return mk('slbad', val(c), I(0), val(c, 1))


PANICS = {
    'String::insert': _boundary, 'String::insert_str': _boundary, 'String::split_off': _boundary,
    'String::truncate': lambda c: and_(_boundary(c), not_(lt(length(val(c)), val(c, 1), 'usize'))),
    'Vec::remove': _beyond(False), 'Vec::swap_remove': _beyond(False), 'Vec::insert': _beyond(True), 'Vec::split_off': _beyond(True),
    'slice::split_at': _beyond(True), 'slice::split_at_mut': _beyond(True), 'VecDeque::insert': _beyond(True),
    'slice::swap': lambda c: not_(and_(lt(val(c, 1), seqlen(val(c)), 'usize'), lt(val(c, 2), seqlen(val(c)), 'usize'))),
    'int::abs': lambda c: mk('ovf', 'neg', val(c), val(c), c.name.split('::')[0]),
    'str::repeat': lambda c: lt(I(2 ** 50), val(c, 1), 'usize'),
    'slice::repeat': lambda c: lt(I(2 ** 50), val(c, 1), 'usize'),
    'vec::from_elem': lambda c: lt(I(2 ** 50), val(c, 1), 'usize'),
    'Vec::resize': lambda c: lt(I(2 ** 50), val(c, 1), 'usize'),
}
for _n in '''Vec::drain String::remove String::truncate String::insert String::insert_str String::split_off String::drain
String::replace_range slice::chunks slice::windows slice::chunks_exact slice::copy_from_slice slice::clone_from_slice slice::rotate_left
slice::rotate_right slice::copy_within Iterator::step_by Iterator::sum Iterator::product int::pow int::rem_euclid int::div_euclid
int::div_ceil int::ilog int::ilog2 int::ilog10 int::isqrt int::next_power_of_two int::next_multiple_of int::from_str_radix
RefCell::borrow RefCell::borrow_mut RefCell::replace Cell::swap Rc::try_unwrap char::to_digit char::is_digit char::from_digit
Duration::from_secs_f64 str::split_at_mut Vec::extend_from_within int::wrapping_div int::wrapping_rem int::overflowing_rem_euclid
int::wrapping_rem_euclid LocalKey::with Mutex::lock RwLock::read RwLock::write thread::spawn Iterator::array_chunks
slice::select_nth_unstable slice::get_unchecked Once::call_once Vec::splice Vec::drain_range char::from_u32_unchecked'''.split():
    PANICS.setdefault(_n, _unknown)
for _n in ('char::to_digit', 'char::is_digit', 'char::from_digit', 'int::from_str_radix'):
    PANICS[_n] = lambda c: lt(I(36), c.load(c.args[-1]), 'u32')


def m_inplace(c):
    st, bad = may_panic(c)
    st = st.fork()
    old = val(c)
    rest = [c.load(a) for a in c.args[1:]]
    c.update(c.args[0], T.app(c.name, old, *rest), st)
    return c.ret(T.app(c.name + '.ret', old, *rest), st) + bad


def m_panic(c):
    return [c.eng.panic(c.st, c.fr, c.name, c.sp)]


def m_lang(c):
    args = [c.load(a) for a in c.args]
    if c.name.endswith('into_static'):
        return c.ret(args[0])
    st = c.st.fork()
    st.ev = st.ev + (('lang', c.name, tuple(args), c.sp, st.pc),)
    return c.ret(T.app(c.name, *args), st)


# ---------------------------------------------------------------- identity-like
for _n in '''String::as_str String::as_mut_str String::into_boxed_str Vec::as_slice Vec::as_mut_slice ToOwned::to_owned
Deref::deref AsRef::as_ref Borrow::borrow BorrowMut::borrow_mut Rc::new Rc::clone Box::new Arc::new Arc::clone hint::must_use
Cow::into_owned Cow::to_owned Match::as_str slice::to_vec slice::into_vec str::to_owned str::into_string slice::iter
Vec::iter slice::into_iter IntoIterator::into_iter Iterator::by_ref Iterator::cloned Iterator::copied Iterator::fuse
Iterator::into_iter str::as_str hint::black_box Rc::as_ref convert::identity slice::as_ref Vec::into_iter
Vec::into_boxed_slice Cow::as_ref Option::as_slice Rc::unwrap_or_clone string::into_string str::as_ref Iterator::peekable
Clone::clone Box::from String::from_str'''.split():
    MODELS[_n] = m_identity


@model('DerefMut::deref_mut', 'AsMut::as_mut', 'Vec::iter_mut', 'slice::iter_mut')
def m_mutid(c):
    return c.ret(c.args[0])


@model('Clone::clone')
def m_clone(c):
    t, s = c.f.get('trait'), c.selfty()
    if manual(c.eng, t, s):
        return None
    return c.ret(val(c))


@model('IntoIterator::into_iter')
def m_into_iter(c):
    v = c.args[0]
    s = c.selfty() or ''
    d = deref_ty(c.eng, s)
    if v.op == 'ref':
        # an iterator, or a collection behind a mutable reference
        return c.ret(v)
    if path_of(c.eng, d) == OPT:
        return [Out(st, 'ret', q) for st, q in optcases(c, v)]
    return c.ret(as_iter(c, v, d))


def optcases(c, v):
    """an optional value as a sequence, in each case"""
    for st, b in c.eng.branch(c.st, variant_is(v, OPT, 'Some', BINARY[OPT])):
        yield st, snoc(EMPTY, fld(v, 'Some', '0')) if b else EMPTY


def optiter(v):
    if v.op == 'adt' and v.a[0] == OPT:
        return snoc(EMPTY, dict(v.a[2])['0']) if v.a[1] == 'Some' else EMPTY
    return mk('optiter', v)


T._RB['optiter'] = optiter


def as_iter(c, v, d):
    p = path_of(c.eng, d)
    if p.endswith('::HashMap'):
        return mapiter(v)
    if p.endswith('::HashSet'):
        return mk('setiter', v)
    if v.op == 'arr':
        return toseq(v)
    if p == OPT:
        return optiter(v)
    return v


@model('Iterator::by_ref')
def m_by_ref(c):
    return c.ret(c.args[0])


@model('HashMap::iter', 'HashMap::into_iter')
def m_mapiter(c):
    return c.ret(mapiter(val(c)))


@model('HashMap::keys', 'HashMap::into_keys')
def m_keys(c):
    b = mapiter(val(c))
    return c.ret(compr(b, [((), [fld(elt(b), None, '0')])]))


@model('HashMap::values', 'HashMap::into_values')
def m_values(c):
    b = mapiter(val(c))
    return c.ret(compr(b, [((), [fld(elt(b), None, '1')])]))


@model('HashSet::iter', 'HashSet::into_iter')
def m_setiter(c):
    return c.ret(mk('setiter', val(c)))


def toseq(v):
    if v.op == 'arr':
        r = EMPTY
        for x in v.a:
            r = snoc(r, x)
        return r
    return v


@model('Box::new_uninit')
def m_new_uninit(c):
    return c.ret(mk('opq', 'uninitialised', 0))


@model('boxed::box_assume_init_into_vec_unsafe')
def m_filled(c):
    v = val(c)
    while v.op == 'adt' and len(v.a[2]) == 1:
        v = v.a[2][0][1]
    return c.ret(toseq(v)) if v.op == 'arr' else None


@model('slice::into_vec')
def m_into_vec(c):
    return c.ret(toseq(val(c)))


def big(c, n):
    """(state, panic outcomes) of an allocation of n elements"""
    n = unmin(n)
    t = lt(I(2 ** 50), n, 'usize')
    out, ok = [], c.st
    for st, b in c.eng.branch(c.st, t):
        if b:
            out.append(c.eng.panic(st, c.fr, 'capacity overflow', c.sp))
        else:
            ok = st
    return ok, out


def unmin(n):
    return n


@model('String::new', 'String::with_capacity')
def m_string_new(c):
    if c.name.endswith('with_capacity'):
        st, bad = big(c, val(c))
        return c.ret(S(''), st) + bad
    return c.ret(S(''))


@model('Vec::new', 'Vec::with_capacity', 'HashMap::new', 'HashSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity',
       'iter::empty')
def m_empty(c):
    if c.name.endswith('with_capacity'):
        st, bad = big(c, val(c))
        return c.ret(EMPTY, st) + bad
    return c.ret(EMPTY)


@model('Default::default')
def m_default(c):
    d = c.dt or (c.selfty())
    v = default_of(c.eng, d)
    if v is not None:
        return c.ret(v)
    return None


def default_of(eng, d):
    t = eng.ty(d)
    p = t.get('path', d)
    if d in ('&str', 'alloc::string::String', 'str'):
        return S('')
    if t['k'] == 'ref' and eng.ty(t['t'])['k'] == 'slice':
        return EMPTY
    if p in ('alloc::vec::Vec',) or p.endswith('HashMap') or p.endswith('HashSet'):
        return EMPTY
    if p == OPT:
        return NONE
    if t['k'] in ('int', 'uint', 'bool', 'char'):
        return I(0)
    if t['k'] == 'tuple' and not t['ts']:
        return UNIT
    return None


# ---------------------------------------------------------------- comparison
@model('PartialEq::eq')
def m_eq(c):
    if manual(c.eng, c.f.get('trait'), c.selfty()):
        return None
    s = deref_ty(c.eng, c.selfty() or '')
    if manual(c.eng, 'core::cmp::PartialEq', s):
        return inline_cmp(c)
    return c.ret(eqv(c, val(c, 0), val(c, 1)))


def inline_cmp(c):
    return None


def eqv(c, a, b):
    s = c.selfty() or ''
    d = deref_ty(c.eng, s)
    # a type that contains a type with a hand-written equality is not compared structurally
    if is_str(c.eng, s) or c.eng.ty(d)['k'] in ('int', 'uint', 'bool', 'char', 'float'):
        return eq(a, b)
    seen = set()

    def has_manual(k):
        k = deref_ty(c.eng, k)
        if k in seen:
            return False
        seen.add(k)
        if manual(c.eng, 'core::cmp::PartialEq', k):
            return True
        t = c.eng.ty(k)
        if t['k'] == 'adt':
            if any(has_manual(x) for x in t['args']):
                return True
            if t['local']:
                return any(has_manual(f['t']) for v in t['variants'] for f in v['fields'])
        if t['k'] == 'tuple':
            return any(has_manual(x) for x in t['ts'])
        return False
    if has_manual(d):
        if a is b:
            return mk('app', 'PartialEq', a, b)
        return opq('equality of %s' % d)
    for x, y in ((a, b), (b, a)):
        if y.op in ('seq0',):
            return nil(x)
        if y.op == 'arr' or y.op == 'snoc':
            return mk('eq', a, b) if a.h < b.h else mk('eq', b, a)
    return eq(a, b)


@model('PartialEq::ne')
def m_ne(c):
    if manual(c.eng, c.f.get('trait'), c.selfty()):
        return None
    return c.ret(not_(eqv(c, val(c, 0), val(c, 1))))


def prim(c):
    s = deref_ty(c.eng, c.selfty() or '')
    return s if s in INTS or s == 'char' else None


@model('PartialOrd::lt')
def m_lt(c):
    p = prim(c)
    return c.ret(lt(val(c, 0), val(c, 1), p)) if p else None


@model('PartialOrd::gt')
def m_gt(c):
    p = prim(c)
    return c.ret(lt(val(c, 1), val(c, 0), p)) if p else None


@model('PartialOrd::le')
def m_le(c):
    p = prim(c)
    return c.ret(not_(lt(val(c, 1), val(c, 0), p))) if p else None


@model('PartialOrd::ge')
def m_ge(c):
    p = prim(c)
    return c.ret(not_(lt(val(c, 0), val(c, 1), p))) if p else None


ORD = 'core::cmp::Ordering'


def ordering(v):
    return mk('adt', ORD, v, ())


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(c):
    p = prim(c)
    if not p:
        return None
    a, b = val(c, 0), val(c, 1)
    w = some if c.name == 'PartialOrd::partial_cmp' else (lambda x: x)
    out = []
    for s, t in c.eng.branch(c.st, lt(a, b, p)):
        if t:
            out.append(Out(s, 'ret', w(ordering('Less'))))
        else:
            for s2, t2 in c.eng.branch(s, eq(a, b)):
                out.append(Out(s2, 'ret', w(ordering('Equal' if t2 else 'Greater'))))
    return out


@model('Ord::min', 'cmp::min')
def m_min(c):
    p = prim(c)
    if not p:
        return None
    return [Out(s, 'ret', val(c, 1) if t else val(c, 0)) for s, t in c.eng.branch(c.st, lt(val(c, 1), val(c, 0), p))]


@model('Ord::max', 'cmp::max')
def m_max(c):
    p = prim(c)
    if not p:
        return None
    return [Out(s, 'ret', val(c, 0) if t else val(c, 1)) for s, t in c.eng.branch(c.st, lt(val(c, 1), val(c, 0), p))]


@model('intrinsics::discriminant_value')
def m_disc(c):
    t = deref_ty(c.eng, c.at[0] if c.at and c.at[0] else (c.selfty() or ''))
    return c.ret(c.eng.disc(val(c), t))


@model('mem::discriminant')
def m_disc2(c):
    t = deref_ty(c.eng, c.selfty() or '')
    return c.ret(c.eng.disc(val(c), t))


# ---------------------------------------------------------------- integers
def ovf(k, a, b, ty):
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        if k in ('div', 'rem'):
            return B(False)
        m = {'add': x + y, 'sub': x - y, 'mul': x * y}.get(k)
        if m is not None:
            return B(wrapi(m, ty) != m)
    return mk('ovf', k, a, b, ty)


def _arith(k, mode):
    def h(c, ty):
        a, b = val(c, 0), val(c, 1)
        if k in ('div', 'rem'):
            out = []
            for s, z in c.eng.branch(c.st, eq(b, I(0))):
                if z:
                    if mode == 'checked':
                        out.append(Out(s, 'ret', NONE))
                    else:
                        out.append(c.eng.panic(s, c.fr, 'division by zero', c.sp))
                    continue
                if mode == 'checked':
                    for s2, o in c.eng.branch(s, ovf(k, a, b, ty)):
                        out.append(Out(s2, 'ret', NONE if o else some(arith(k, a, b, ty))))
                else:
                    r = arith(k, a, b, ty)
                    out.append(Out(s, 'ret', tup(r, ovf(k, a, b, ty)) if mode == 'overflowing' else r))
            return out
        r = arith(k, a, b, ty)
        if mode == 'overflowing':
            return c.ret(tup(r, ovf(k, a, b, ty)))
        if mode == 'checked':
            return [Out(s, 'ret', NONE if o else some(r)) for s, o in c.eng.branch(c.st, ovf(k, a, b, ty))]
        return c.ret(r)
    return h


INTM = {}
for _k in ('add', 'sub', 'mul', 'div', 'rem'):
    for _m in ('overflowing', 'wrapping', 'checked'):
        INTM['%s_%s' % (_m, _k)] = _arith(_k, _m)


def _neg(mode):
    def h(c, ty):
        a = val(c)
        r = neg(a, ty)
        o = mk('ovf', 'neg', a, a, ty)
        if mode == 'overflowing':
            return c.ret(tup(r, o))
        if mode == 'checked':
            return [Out(s, 'ret', NONE if b else some(r)) for s, b in c.eng.branch(c.st, o)]
        return c.ret(r)
    return h


for _m in ('overflowing', 'wrapping', 'checked'):
    INTM[_m + '_neg'] = _neg(_m)
INTM['is_negative'] = lambda c, ty: c.ret(lt(val(c), I(0), ty))
INTM['is_positive'] = lambda c, ty: c.ret(lt(I(0), val(c), ty))

CHARM = {
    'is_whitespace': lambda c: c.ret(is_ws(val(c))),
    'to_string': lambda c: c.ret(chrs(val(c))),
}


def is_ws(x):
    if x.op == 'int':
        return B(chr(x.a[0]) in RUST_WS)
    return mk('pred', 'ws', x)


def chrs(x):
    """the string of one character"""
    return S(chr(x.a[0])) if x.op == 'int' else mk('chr', x)


# ---------------------------------------------------------------- strings
@model('str::is_empty', 'String::is_empty')
def m_str_is_empty(c):
    return c.ret(eq(val(c), S('')))


@model('str::len', 'String::len')
def m_str_len(c):
    return c.ret(length(val(c)))


@model('slice::is_empty', 'Vec::is_empty', 'HashSet::is_empty', 'HashMap::is_empty', 'ExactSizeIterator::is_empty')
def m_seq_is_empty(c):
    return c.ret(nilv(val(c)))


def nilv(v):
    if v.op == 'setadd':
        return and_(nilv(v.a[0]), nil(v.a[1]))
    if v.op == 'arr':
        return B(not v.a)
    return nil(v)


@model('slice::len', 'Vec::len', 'HashSet::len', 'HashMap::len', 'ExactSizeIterator::len', 'Iterator::count')
def m_seq_len(c):
    return c.ret(seqlen(val(c)))


def seqlen(v):
    return slen(v)


def length_of(eng, v):
    return length(v) if v.op == 'str' else slen(v)


def pattern(c, p, key=None):
    """A string pattern: a string term (characters included), or a canonical predicate on characters."""
    p = c.load(p)
    if p.op == 'int':
        return chrs(p)
    if p.op == 'fnitem' and p.a[0].endswith('is_whitespace'):
        return WS
    if p.op in ('clos', 'fnitem'):
        e = mk('chr_elt')
        fs = pred_cases(c, p, [e])
        if fs is None:
            return None
        key = tuple(sorted((tuple(sorted(f, key=lambda x: (x[0].h, x[1]))) for f in merge_facts(set(fs))),
                           key=lambda f: [(a.h, b) for a, b in f]))
        if key == (((mk('pred', 'ws', e), True),),):
            return WS
        if len(key) == 1 and len(key[0]) == 1 and key[0][0][1] and key[0][0][0].op == 'eq' and key[0][0][0].a[0] is e \
                and key[0][0][0].a[1].op == 'int':
            return chrs(key[0][0][0].a[1])
        return mk('charpred', key)
    if p.op in ('arr',):
        if all(x.op == 'int' for x in p.a):
            e = mk('chr_elt')
            return mk('charpred', tuple(sorted(((eq(e, x), True),) for x in p.a)))
        return None
    if p.op in ('str', 'var', 'fld', 'cat', 'phi', 'app', 'grp', 'trim', 'chr', 'disp'):
        t = c.at[1] if len(c.at) > 1 else None
        if t and c.eng.ty(deref_ty(c.eng, t))['k'] == 'char':
            return mk('chr', p)
        return p
    return None


def free(e, t):
    return T.occurs(e, t) and T.subst(t, {e: mk('var', 'another')}) is not t


def pure_outs(c, f, args):
    """The outcomes of a function value when it changes nothing: [(facts added, value)], or None."""
    before = c.st
    for e in args:
        # the element of a sequence that is being looked at already: two of them would be taken for one
        if e.op in ('elt', 'chr_elt') and (any(free(e, a) for a, _ in before.pc.log)
                                           or any(isinstance(v, Term) and free(e, v) for v in before.mem.values())):
            return None
    try:
        outs = c.eng.apply(c.fr, before, f, args, c.sp)
    except Undecided:
        return None
    n = len(before.pc.log)
    res = []
    for o in outs:
        if o.kind != 'ret':
            return None
        for r, v in before.mem.items():
            w = o.st.mem.get(r)
            if w is not None and w is not v and r != ('tmp',):
                return None
        if o.st.pc.log[:n] != before.pc.log or o.val.opq or len(o.st.trace) != len(before.trace):
            return None
        facts = o.st.pc.log[n:]
        if any(a.opq for a, _ in facts):
            return None
        res.append((frozenset(facts), o.val, o.st))
    return res


def pred_cases(c, f, args):
    """The conjunctions under which a pure predicate holds."""
    outs = pure_outs(c, f, args)
    if outs is None:
        return None
    res = []
    for facts, v, st in outs:
        for s, b in c.eng.branch(st, v):
            if b:
                res.append(frozenset(s.pc.log[len(c.st.pc.log):]))
    return res


@model('str::starts_with')
def m_sw(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    if p.op in ('charpred', 'ws'):
        s = val(c)
        e = hd(chars(s))
        if p is WS:
            return c.ret(and_(not_(nil(chars(s))), is_ws(e)))
        return c.ret(and_(not_(nil(chars(s))), charpred_on(p, e)))
    return c.ret(sw(val(c), p))


def charpred_on(p, e):
    m = {mk('chr_elt'): e}
    return or_(*[and_(*[(subst(a, m) if b else not_(subst(a, m))) for a, b in f]) for f in p.a[0]])


@model('str::ends_with')
def m_ew(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    if p.op in ('charpred', 'ws'):
        return c.ret(mk('ew', val(c), p))
    return c.ret(ew(val(c), p))


def chars(s):
    return T.chars(s)


def contains_pat(s, p):
    if p is WS:
        e = elt(chars(s))
        return anyseq(chars(s), [frozenset({(is_ws(e), True)})])
    if p.op == 'charpred':
        e = elt(chars(s))
        return anyseq(chars(s), [apply_facts(f, {mk('chr_elt'): e}) for f in p.a[0]])
    if p.op == 'chr':
        return mk('has', s, p)
    return has(s, p)


@model('str::contains')
def m_has(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    return c.ret(contains_pat(val(c), p))


@model('str::find')
def m_find(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    s = val(c)
    return [Out(st, 'ret', some(mk('find', s, p)) if b else NONE) for st, b in c.eng.branch(c.st, contains_pat(s, p))]


@model('str::split_once')
def m_split_once(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    s = val(c)
    return [Out(st, 'ret', some(tup(before(s, p), after(s, p))) if b else NONE)
            for st, b in c.eng.branch(c.st, contains_pat(s, p))]



@model('str::split_at')
def m_split_at(c):
    s, i = val(c), val(c, 1)
    lo, o1 = slice_str(c, c.st, s, I(0), i)
    if lo is None:
        return None
    hi, o2 = slice_str(c, c.st, s, i, None)
    if hi is None:
        return None
    return c.ret(tup(lo, hi)) + o1


@model('str::strip_prefix')
def m_strip_prefix(c):
    p = pattern(c, c.args[1])
    if p is None or p.op in ('charpred', 'ws'):
        return None
    s = val(c)
    return [Out(st, 'ret', some(strip(s, p, 'pre')) if b else NONE) for st, b in c.eng.branch(c.st, sw(s, p))]


@model('str::strip_suffix')
def m_strip_suffix(c):
    p = pattern(c, c.args[1])
    if p is None or p.op in ('charpred', 'ws'):
        return None
    s = val(c)
    return [Out(st, 'ret', some(strip(s, p, 'suf')) if b else NONE) for st, b in c.eng.branch(c.st, ew(s, p))]


def strip(s, p, side):
    if s.op == 'str' and p.op == 'str':
        return S(s.a[0][len(p.a[0]):] if side == 'pre' else s.a[0][:len(s.a[0]) - len(p.a[0])])
    return mk('strip', s, p, side)


def slice_str(c, st, s, lo, hi):
    """s[lo..hi]: (term, panic outcomes); the term is None when the slice is not understood"""
    f = None
    if lo.op == 'int' and lo.a[0] == 0 and hi is None:
        return s, []
    if lo.op == 'int' and lo.a[0] == 0 and hi is not None and hi.op == 'find' and hi.a[0] is s:
        return before(s, hi.a[1]), []
    if hi is None and lo.op == 'add' and lo.a[0].op == 'find' and lo.a[0].a[0] is s:
        p = lo.a[0].a[1]
        n = lo.a[1]
        if p.op == 'str' and n.op == 'int' and n.a[0] == len(p.a[0].encode()):
            return after(s, p), []
        if n.op == 'len' and n.a[0] is p:
            return after(s, p), []
    if hi is None and lo.op == 'find' and lo.a[0] is s:
        return cat(lo.a[1], after(s, lo.a[1])) if lo.a[1].op == 'str' else None, []
    if hi is None and lo.op == 'int':
        # a constant offset: known to be a boundary only after a known ASCII prefix
        for a, b in st.pc.atoms.items():
            if b and a.op == 'sw' and a.a[0] is s and a.a[1].op == 'str' and len(a.a[1].a[0].encode()) == lo.a[0]:
                return strip(s, a.a[1], 'pre'), []
    if hi is None and lo.op == 'len':
        for a, b in st.pc.atoms.items():
            if b and a.op == 'sw' and a.a[0] is s and a.a[1] is lo.a[0]:
                return strip(s, a.a[1], 'pre'), []
    if s.op == 'str' and lo.op == 'int' and (hi is None or hi.op == 'int'):
        b = s.a[0].encode()
        h = len(b) if hi is None else hi.a[0]
        if 0 <= lo.a[0] <= h <= len(b):
            try:
                return S(b[lo.a[0]:h].decode()), []
            except UnicodeDecodeError:
                pass
    h = hi if hi is not None else mk('end')
    bad = c.eng.assume(st, mk('slbad', s, lo, h), True)
    o = [c.eng.panic(bad, c.fr, 'slice of a string out of bounds or inside a character', c.sp)] if bad is not None else []
    return mk('slice', s, lo, h), o


@model('Index::index', 'SliceIndex::index', 'IndexMut::index_mut')
def m_index(c):
    s = c.selfty() or ''
    b, i = val(c, 0), val(c, 1)
    it = c.at[1] if len(c.at) > 1 and c.at[1] else (c.f.get('args') or [None, None])[1]
    d = deref_ty(c.eng, s)
    p = path_of(c.eng, d)
    ip = path_of(c.eng, it) if it else ''
    if is_str(c.eng, d) and 'range::Range' in ip:
        lo, hi = I(0), None
        if i.op != 'adt':
            if ip.endswith('RangeFull'):
                return c.ret(b)
            return None
        f = dict(i.a[2])
        if ip.endswith('RangeInclusive') or ip.endswith('RangeToInclusive'):
            return None
        lo = f.get('start', I(0))
        hi = f.get('end')
        v, outs = slice_str(c, c.st, b, lo, hi)
        if v is None:
            return None
        return c.ret(v) + outs
    if p.endswith('Captures'):
        if i.op == 'int':
            g = hasgrp(b, i.a[0])
            return [Out(st, 'ret', grp(b, i.a[0])) if t else c.eng.panic(st, c.fr, 'no group %d' % i.a[0], c.sp)
                    for st, t in c.eng.branch(c.st, g)]
        if i.op == 'str':
            n = group_index(b, i.a[0])
            if n is not None:
                return [Out(st, 'ret', grp(b, n)) if t else c.eng.panic(st, c.fr, 'no group', c.sp)
                        for st, t in c.eng.branch(c.st, hasgrp(b, n))]
        return None
    if p.endswith('HashMap'):
        k = mapget(b, i)
        out = []
        for st, t in c.eng.branch(c.st, variant_is(k, OPT, 'Some', BINARY[OPT])):
            out.append(Out(st, 'ret', fld(k, 'Some', '0')) if t else c.eng.panic(st, c.fr, 'no such key', c.sp))
        return out
    if it in INTS and (p == 'alloc::vec::Vec' or c.eng.ty(d)['k'] in ('slice', 'array')):
        return index_seq(c, b, i)
    if 'range::Range' in ip and i.op == 'adt' and (p == 'alloc::vec::Vec' or c.eng.ty(d)['k'] in ('slice', 'array')):
        f = dict(i.a[2])
        lo, hi = f.get('start', I(0)), f.get('end', seqlen(b))
        if 'Inclusive' in ip:
            return None
        out = []
        for st, t in c.eng.branch(c.st, lt(hi, lo, 'usize')):
            if t:
                out.append(c.eng.panic(st, c.fr, 'slice of a sequence that ends before it starts', c.sp))
                continue
            for st2, t2 in c.eng.branch(st, lt(seqlen(b), hi, 'usize')):
                if t2:
                    out.append(c.eng.panic(st2, c.fr, 'slice of a sequence out of bounds', c.sp))
                else:
                    out.append(Out(st2, 'ret', b if lo is I(0) and hi is seqlen(b) else mk('app', 'slice', b, lo, hi)))
        return out
    return None


def index_seq(c, b, i):
    out = []
    for st, t in c.eng.branch(c.st, in_bounds(b, i)):
        if t:
            out.append(Out(st, 'ret', at(b, i)))
        else:
            out.append(c.eng.panic(st, c.fr, 'index out of bounds', c.sp))
    return out


def in_bounds(b, i):
    if i.op == 'int' and i.a[0] == 0:
        return not_(nilv(b))
    return lt(i, seqlen(b), 'usize')


def at(b, i):
    return T.at(b, i)


@model('str::get', 'String::get')
def m_str_get(c):
    return None


@model('slice::get', 'Vec::get')
def m_get(c):
    b, i = val(c, 0), val(c, 1)
    it = c.at[1] if len(c.at) > 1 else None
    if it not in INTS:
        return None
    return [Out(st, 'ret', some(at(b, i)) if t else NONE) for st, t in c.eng.branch(c.st, in_bounds(b, i))]


@model('slice::first', 'Vec::first')
def m_first(c):
    b = val(c)
    return [Out(st, 'ret', NONE if t else some(hd(b))) for st, t in c.eng.branch(c.st, nilv(b))]


@model('str::trim')
def m_trim(c):
    return c.ret(trim(val(c)))


@model('str::trim_start', 'str::trim_left')
def m_trim_start(c):
    return c.ret(trim(val(c), True, False))


@model('str::trim_end', 'str::trim_right')
def m_trim_end(c):
    return c.ret(trim(val(c), False, True))


@model('str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches')
def m_trim_matches(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    n = c.name
    l, r = n != 'str::trim_end_matches', n != 'str::trim_start_matches'
    if p is WS:
        return c.ret(trim(val(c), l, r))
    return c.ret(mk('app', n, val(c), p))


@model('str::chars')
def m_chars(c):
    return c.ret(chars(val(c)))


@model('str::as_bytes', 'String::as_bytes', 'str::bytes', 'String::into_bytes')
def m_bytes(c):
    return c.ret(mk('asbytes', val(c)))


@model('str::split')
def m_split(c):
    p = pattern(c, c.args[1])
    if p is None:
        return None
    return c.ret(split(val(c), p))


@model('str::split_whitespace')
def m_splitws(c):
    b = split(val(c), WS)
    return c.ret(compr(b, [([(eq(elt(b), S('')), False)], [elt(b)])]))


@model('str::lines')
def m_lines(c):
    return c.ret(mk('lines', val(c)))


@model('str::is_ascii', 'String::is_ascii')
def m_is_ascii(c):
    return c.ret(mk('pred', 'ascii', val(c)))


@model('str::eq_ignore_ascii_case')
def m_eqic(c):
    return c.ret(mk('pred', 'eq_ignore_ascii_case', val(c, 0), val(c, 1)))


@model('str::parse', 'FromStr::from_str')
def m_parse(c):
    t = (c.f.get('args') or ['?'])
    ty = [x for x in t if x not in ("'_",)]
    target = ty[0] if c.name == 'FromStr::from_str' else ty[-1]
    if target == 'alloc::string::String':
        return c.ret(ok(val(c)))
    if not (target in INTS):
        return None
    return c.ret(mk('app', 'parse::' + target, val(c)))


@model(*['%s::from_str_radix' % x for x in INTS])
def m_radix(c):
    if val(c, 1) is not I(10):
        return None
    return c.ret(mk('app', 'parse::' + c.name.split('::')[0], val(c)))


@model('String::push_str')
def m_push_str(c, i=1):
    st = c.st.fork()
    x = val(c, i)
    c.update(c.args[0], cat(val(c), chrs(x) if c.name == 'String::insert' else x), st)
    return c.ret(UNIT, st)


@model('String::push')
def m_push_char(c):
    st = c.st.fork()
    c.update(c.args[0], cat(val(c), chrs(val(c, 1))), st)
    return c.ret(UNIT, st)


@model('String::insert_str', 'String::insert')
def m_insert_str(c):
    i = val(c, 1)
    if i is mk('len', val(c)):
        return m_push_str(c, 2)
    if c.name == 'String::insert':
        return m_inplace(c)
    if i.op == 'int' and i.a[0] == 0:
        st = c.st.fork()
        c.update(c.args[0], cat(val(c, 2), val(c)), st)
        return c.ret(UNIT, st)
    return m_inplace(c)


@model('String::clear', 'Vec::clear', 'HashMap::clear', 'HashSet::clear')
def m_clear(c):
    st = c.st.fork()
    c.update(c.args[0], S('') if c.name.startswith('String') else EMPTY, st)
    return c.ret(UNIT, st)


@model('Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'String::shrink_to_fit', 'HashMap::reserve',
       'HashSet::reserve', 'Vec::reserve_exact')
def m_nop(c):
    if 'reserve' in c.name:
        st, bad = big(c, val(c, 1))
        return c.ret(UNIT, st) + bad
    return c.ret(UNIT)


@model('Add::add')
def m_add(c):
    s = deref_ty(c.eng, c.selfty() or '')
    if s == 'alloc::string::String':
        return c.ret(cat(val(c, 0), val(c, 1)))
    return None


@model('AddAssign::add_assign')
def m_add_assign(c):
    s = deref_ty(c.eng, c.selfty() or '')
    if s == 'alloc::string::String':
        return m_push_str(c)
    return None


def disp(eng, x, ty):
    """the text of a value by Display"""
    k = deref_ty(eng, ty) if ty else ''
    if is_str(eng, k) or x.op in ('str', 'cat'):
        return x
    t = eng.ty(k)
    if t['k'] == 'char':
        return chrs(x)
    if t['k'] in ('int', 'uint') and x.op == 'int':
        return S(str(x.a[0]))
    return mk('disp', x)


@model('ToString::to_string')
def m_to_string(c):
    t = c.at[0] if c.at and c.at[0] else c.selfty()
    k = deref_ty(c.eng, t or '')
    return c.ret(disp(c.eng, val(c), k))


@model('Into::into')
def m_into(c):
    a = c.f.get('args') or []
    if len(a) >= 2:
        r = conv(c, a[0], a[1])
        if r is not None:
            return r
    return None


@model('From::from')
def m_from(c):
    a = c.f.get('args') or []
    if len(a) >= 2:
        r = conv(c, a[1], a[0])
        if r is not None:
            return r
    return None


def conv(c, src, dst):
    eng = c.eng
    s, d = deref_ty(eng, src), deref_ty(eng, dst)
    if s == d:
        return c.ret(val(c))
    if is_str(eng, s) and is_str(eng, d):
        return c.ret(val(c))
    if eng.ty(s)['k'] == 'char' and is_str(eng, d):
        return c.ret(chrs(val(c)))
    if s in INTS and d in INTS:
        return c.ret(mk('cast', val(c), s, d) if val(c).op != 'int' else val(c))
    if s == 'char' and d in INTS:
        return c.ret(mk('cast', val(c), s, d) if val(c).op != 'int' else val(c))
    if s == 'bool' and d in INTS:
        return [Out(st, 'ret', I(1 if b else 0)) for st, b in eng.branch(c.st, val(c))]
    if path_of(eng, d) == OPT and eng.ty(d).get('args') == [src]:
        return c.ret(some(val(c)))
    return None


@model('slice::join', 'slice::concat', 'Join::join', 'Concat::concat')
def m_join(c):
    s = val(c)
    sep = val(c, 1) if len(c.args) > 1 else S('')
    if s.op == 'arr':
        s = toseq(s)
    return c.ret(join(s, sep))


def join(s, sep):
    parts = []
    x = s
    while x.op == 'snoc':
        parts.append(x.a[1])
        x = x.a[0]
    if x is EMPTY:
        out = []
        for i, p in enumerate(reversed(parts)):
            if i:
                out.append(sep)
            out.append(p)
        return cat(*out)
    if sep.op == 'str' and not sep.a[0] and parts:
        return cat(mk('join', x, sep), *reversed(parts))
    if s.op == 'seqcat' and sep.op == 'str' and not sep.a[0]:
        return cat(join(s.a[0], sep), join(s.a[1], sep))
    return mk('join', s, sep)


T._RB['join'] = join


# ---------------------------------------------------------------- formatting
def parse_template(b):
    """The pieces of a format template: strings and ('arg', index, flags)."""
    out = []
    i, nxt = 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + k].decode())
            i += k
        elif n >= 0xc0:
            flags = []
            if n & 1:
                flags.append(('f', int.from_bytes(b[i:i + 4], 'little')))
                i += 4
            if n & 2:
                flags.append(('w', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if n & 4:
                flags.append(('p', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            ix = nxt
            if n & 8:
                ix = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            nxt = ix + 1
            out.append(('arg', ix, tuple(flags)))
        else:
            return None
    return out


@model('BufReader::new', 'BufReader::with_capacity')
def m_bufreader(c):
    return c.ret(mk('app', 'bufreader', val(c, len(c.args) - 1)))


@model('BufRead::lines')
def m_iolines(c):
    return c.ret(mk('app', 'iolines', val(c)))


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def m_fmtarg(c):
    t = c.at[0] if c.at and c.at[0] else None
    if t is None:
        a = [x for x in (c.f.get('args') or []) if not x.startswith("'")]
        t = a[-1] if a else ''
    how = c.name.split('_', 1)[1]
    return c.ret(mk('fmtarg', how, val(c), t))


@model('Arguments::new')
def m_args_new(c):
    tpl, args = val(c, 0), val(c, 1)
    if tpl.op != 'bytes' or args.op != 'arr':
        return None
    ps = parse_template(tpl.a[0])
    if ps is None:
        return None
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(S(p))
            continue
        if p[1] >= len(args.a) or args.a[p[1]].op != 'fmtarg':
            return None
        how, x, t = args.a[p[1]].a
        if p[2]:
            out.append(mk('dispf', x, how, p[2]))
        elif how == 'display':
            out.append(disp(c.eng, x, t))
        else:
            out.append(mk('fmt_' + how, x))
    return c.ret(mk('fmtargs', cat(*out)))


@model('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def m_args_str(c):
    v = val(c)
    return c.ret(mk('fmtargs', v)) if v.op == 'str' else None


@model('fmt::format')
def m_format(c):
    v = val(c)
    return c.ret(v.a[0]) if v.op == 'fmtargs' else None


@model('Formatter::write_fmt', 'Write::write_fmt')
def m_write_fmt(c):
    v = val(c, 1)
    if v.op != 'fmtargs':
        return None
    st = c.st.fork()
    c.update(c.args[0], cat(val(c), v.a[0]), st)
    return c.ret(ok(UNIT), st)


@model('Formatter::write_str', 'Write::write_str', 'Formatter::pad')
def m_write_str(c):
    st = c.st.fork()
    c.update(c.args[0], cat(val(c), val(c, 1)), st)
    return c.ret(ok(UNIT), st)


@model('Formatter::write_char', 'Write::write_char')
def m_write_char(c):
    st = c.st.fork()
    c.update(c.args[0], cat(val(c), chrs(val(c, 1))), st)
    return c.ret(ok(UNIT), st)


@model('Display::fmt', 'Debug::fmt')
def m_fmt(c):
    how = c.name.split('::')[0].lower()
    if (c.f.get('local') or c.f.get('res') in c.eng.inst):
        return None
    st = c.st.fork()
    x = val(c)
    t = c.selfty() or ''
    c.update(c.args[1], cat(val(c, 1), disp(c.eng, x, t) if how == 'display' else mk('fmt_debug', x)), st)
    return c.ret(ok(UNIT), st)


@model('Error::new', 'Error::other')
def m_io_error(c):
    if 'io' not in c.full:
        return None
    if c.name == 'Error::other':
        return c.ret(mk('app', 'io::Error::new', mk('adt', 'core::io::error::ErrorKind', 'Other', ()), val(c, 0)))
    return c.ret(mk('app', 'io::Error::new', val(c, 0), val(c, 1)))


# ---------------------------------------------------------------- memory
@model('mem::replace')
def m_replace(c):
    st = c.st.fork()
    t = c.target(c.args[0], st)
    if t is None:
        return None
    old = c.eng.load(st, t)
    c.eng.store(st, t, c.args[1])
    return c.ret(old, st)


@model('mem::take')
def m_take(c):
    d = default_of(c.eng, c.dt or '')
    if d is None:
        # a local type: its own Default
        key = [k for k, i in c.eng.inst.items() if k == '<%s as core::default::Default>::default' % c.dt]
        if not key:
            return None
        outs = c.eng.run(key[0], [], c.st)
    else:
        outs = [Out(c.st, 'ret', d)]
    res = []
    for o in outs:
        if o.kind != 'ret':
            res.append(o)
            continue
        st = o.st.fork()
        t = c.target(c.args[0], st)
        old = c.eng.load(st, t)
        c.eng.store(st, t, o.val)
        res.append(Out(st, 'ret', old))
    return res


@model('Option::take')
def m_opt_take(c):
    st = c.st.fork()
    t = c.target(c.args[0], st)
    if t is None:
        return None
    old = c.eng.load(st, t)
    c.eng.store(st, t, NONE)
    return c.ret(old, st)


@model('Option::replace')
def m_opt_replace(c):
    st = c.st.fork()
    t = c.target(c.args[0], st)
    if t is None:
        return None
    old = c.eng.load(st, t)
    c.eng.store(st, t, some(c.args[1]))
    return c.ret(old, st)


@model('Option::insert')
def m_opt_insert(c):
    st = c.st.fork()
    t = c.target(c.args[0], st)
    if t is None:
        return None
    c.eng.store(st, t, some(c.args[1]))
    return c.ret(mk('ref', t.root, t.path + (('Some', '0'),), None), st)


@model('mem::swap')
def m_swap(c):
    st = c.st.fork()
    a, b = c.target(c.args[0], st), c.target(c.args[1], st)
    if a is None or b is None:
        return None
    va, vb = c.eng.load(st, a), c.eng.load(st, b)
    c.eng.store(st, a, vb)
    c.eng.store(st, b, va)
    return c.ret(UNIT, st)


# ---------------------------------------------------------------- sequences
@model('Vec::push', 'VecDeque::push_back')
def m_push(c):
    st = c.st.fork()
    c.update(c.args[0], snoc(val(c), c.args[1]), st)
    return c.ret(UNIT, st)


@model('Vec::extend_from_slice')
def m_efs(c):
    st = c.st.fork()
    c.update(c.args[0], seqcat(val(c), toseq(val(c, 1))), st)
    return c.ret(UNIT, st)


@model('Vec::append')
def m_append(c):
    st = c.st.fork()
    v = val(c, 1)
    c.update(c.args[0], seqcat(val(c), v), st)
    c.update(c.args[1], EMPTY, st)
    return c.ret(UNIT, st)


@model('Extend::extend')
def m_extend(c):
    s = path_of(c.eng, deref_ty(c.eng, c.selfty() or ''))
    it = val(c, 1)
    at_ = deref_ty(c.eng, c.at[1]) if len(c.at) > 1 and c.at[1] else None
    if at_ and path_of(c.eng, at_) == OPT:
        return [extended(c, s, st, q) for st, q in optcases(c, it)]
    if at_:
        it = as_iter(c, it, at_) if it.op not in ('compr',) else it
    if it.op == 'adt' or it.opq or is_stateful(it):
        return None
    if s in ('alloc::vec::Vec', 'alloc::string::String') or s.endswith('HashSet') or s.endswith('HashMap'):
        return [extended(c, s, c.st.fork(), it)]
    return None


def extended(c, s, st, it):
    old = val(c)
    if s == 'alloc::vec::Vec':
        new = seqcat(old, toseq(it))
    elif s.endswith('HashSet'):
        new = setadd(old, toseq(it))
    elif s.endswith('HashMap'):
        new = mapext(old, it)
    else:
        new = cat(old, strseq(it))
    c.update(c.args[0], new, st)
    return Out(st, 'ret', UNIT)


def is_stateful(it):
    return it.op in ('var', 'phi', 'app', 'next', 'fld') and False


def strseq(s):
    parts = []
    while s.op == 'snoc':
        parts.append(s.a[1])
        s = s.a[0]
    rest = [mk('strseq', s)] if s is not EMPTY else []
    return cat(*(rest + parts[::-1]))


def mapext(m, it):
    if it is EMPTY:
        return m
    if it.op == 'mapiter' and m is EMPTY:
        return it.a[0]
    if it.op == 'compr' and m is EMPTY and it.a[0].op == 'mapiter':
        e = elt(it.a[0])
        if it.a[1] == (((), (tup(fld(e, None, '0'), fld(e, None, '1')),)),):
            return it.a[0].a[0]
    return mk('mapext', m, it)


def mapiter(m):
    return EMPTY if m is EMPTY else mk('mapiter', m)


def mapgroup(m, it):
    return m if it is EMPTY else mk('mapgroup', m, it)


T._RB['mapext'] = mapext
T._RB['mapiter'] = mapiter
T._RB['mapgroup'] = mapgroup


@model('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::flat_map')
def m_adapter(c):
    s = val(c)
    t = c.selfty() or ''
    if is_sigma(t) or LINEITER in t.split('<')[0] or 'RangeInclusive' in t:
        return None
    if s.op == 'adt':
        if s.a[0].endswith('range::Range'):
            f = dict(s.a[2])
            s = mk('range', f['start'], f['end'])
        else:
            return None
    if s.op == 'opq':
        return None
    e = elt(s)
    f = c.args[1]
    kind = c.name.split('::')[1]
    cases = []
    if kind == 'filter':
        fs = pred_cases(c, f, [e])
        if fs is None:
            return opaque_iter(c)
        cases = [(x, [e]) for x in fs]
    else:
        outs = pure_outs(c, f, [e])
        if outs is None:
            return opaque_iter(c)
        for facts, v, st in outs:
            if kind == 'map':
                cases.append((facts, [v]))
            elif kind == 'filter_map':
                if v.op == 'adt':
                    cases.append((facts, [dict(v.a[2])['0']] if v.a[1] == 'Some' else []))
                else:
                    for s2, b in c.eng.branch(st, variant_is(v, OPT, 'Some', BINARY[OPT])):
                        fx = frozenset(s2.pc.log[len(c.st.pc.log):])
                        cases.append((fx, [fld(v, 'Some', '0')] if b else []))
            else:
                return None
    return c.ret(compr(s, cases))


def opaque_iter(c):
    """an adapter whose function has effects or is not understood"""
    return None


@model('Iterator::chain')
def m_chain(c):
    a, b = val(c, 0), val(c, 1)
    return c.ret(seqcat(a, b))


@model('Iterator::next')
def m_next(c):
    st = c.st.fork()
    t = deref_ty(c.eng, c.selfty() or '')
    loc = c.target(c.args[0], st)
    if loc is None:
        return None
    v = c.eng.load(st, loc)
    if is_sigma(t):
        c.eng.store(st, loc, next_of(v))
        return c.ret(peek_of(v), st)
    if t.startswith(RAWLINES):
        c.eng.store(st, loc, mk('rawtl', v))
        st.ev = st.ev + (('read', v, c.sp, st.pc),)
        return c.ret(mk('rawhd', v), st)
    if v.op == 'adt' and v.a[0].endswith('range::Range') :
        f = dict(v.a[2])
        ty = (c.eng.ty(t).get('args') or ['usize'])[0]
        out = []
        for s, b in c.eng.branch(st, lt(f['start'], f['end'], ty)):
            if b:
                s = s.fork()
                c.eng.store(s, loc, adt(v.a[0], None, {'start': add(f['start'], I(1), ty), 'end': f['end']}))
                out.append(Out(s, 'ret', some(f['start'])))
            else:
                out.append(Out(s, 'ret', NONE))
        return out
    if v.op == 'adt' or v.op == 'opq':
        return None
    if v.op in ('var', 'fld') and c.eng.ty(t)['k'] == 'adt' and c.eng.ty(t)['local']:
        return None
    out = []
    for s, b in c.eng.branch(st, nil(v)):
        s = s.fork()
        if b:
            out.append(Out(s, 'ret', NONE))
        else:
            c.eng.store(s, loc, tl(v))
            out.append(Out(s, 'ret', some(hd(v))))
    return out


@model('Peekable::peek', 'Peekable::peek_mut')
def m_peek(c):
    t = deref_ty(c.eng, c.at[0] if c.at and c.at[0] else '')
    v = val(c)
    if c.name.endswith('mut'):
        return None
    if is_sigma(t):
        return c.ret(peek_of(v))
    if v.op in ('adt', 'opq'):
        return None
    return [Out(s, 'ret', NONE if b else some(hd(v))) for s, b in c.eng.branch(c.st, nil(v))]


@model('Peekable::next_if')
def m_next_if(c):
    t = deref_ty(c.eng, c.at[0] if c.at and c.at[0] else '')
    if not is_sigma(t):
        return None
    v = val(c)
    out = []
    p = peek_of(v)
    for s, b in c.eng.branch(c.st, variant_is(p, OPT, 'Some', BINARY[OPT])):
        if not b:
            out.append(Out(s, 'ret', NONE))
            continue
        for o in c.eng.apply(c.fr, s, c.args[1], [fld(p, 'Some', '0')], c.sp):
            if o.kind != 'ret':
                out.append(o)
                continue
            for s2, b2 in c.eng.branch(o.st, o.val):
                s2 = s2.fork()
                if b2:
                    c.update(c.args[0], next_of(v), s2)
                    out.append(Out(s2, 'ret', p))
                else:
                    out.append(Out(s2, 'ret', NONE))
    return out


@model('Iterator::any', 'Iterator::all')
def m_any(c):
    s = val(c)
    if s.op in ('adt', 'opq') or is_sigma(deref_ty(c.eng, c.selfty() or '')):
        return None
    is_all = c.name.endswith('all')
    fs = pred_cases(c, c.args[1], [elt(s)])
    if fs is None:
        return None
    if is_all:
        fs = complement([(tuple(f), ()) for f in fs])
    r = anyseq(s, fs)
    return c.ret(not_(r) if is_all else r)


@model('Iterator::find')
def m_ifind(c):
    s = val(c)
    if s.op in ('adt', 'opq') or is_sigma(deref_ty(c.eng, c.selfty() or '')):
        return None
    fs = pred_cases(c, c.args[1], [elt(s)])
    if fs is None:
        return None
    f = compr(s, [(x, [elt(s)]) for x in fs])
    return [Out(st, 'ret', NONE if b else some(hd(f))) for st, b in c.eng.branch(c.st, nil(f))]


@model('Iterator::for_each')
def m_for_each(c):
    s = val(c)
    if s.op in ('adt', 'opq') or is_sigma(deref_ty(c.eng, c.selfty() or '')):
        return None
    return synth(c.eng, c, s, c.args[1]) or turned(c.eng, c, s, c.args[1])


@model('Iterator::fold')
def m_fold(c):
    s = val(c)
    if s.op in ('adt', 'opq') or is_sigma(deref_ty(c.eng, c.selfty() or '')):
        return None
    return synth(c.eng, c, s, c.args[2], c.args[1]) or turned(c.eng, c, s, c.args[2], c.args[1])


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(c):
    s = val(c)
    if s.op in ('adt', 'opq'):
        return None
    if c.dt is None:
        return None
    p = path_of(c.eng, c.dt)
    if p == 'alloc::vec::Vec':
        return c.ret(s)
    if p.endswith('HashSet'):
        return c.ret(setadd(EMPTY, s))
    if p.endswith('HashMap'):
        return c.ret(mapext(EMPTY, s))
    if p == 'alloc::string::String':
        return c.ret(strseq(s))
    return None


@model('Iterator::rev')
def m_rev(c):
    return c.ret(T.app('rev', toseq(val(c))))


@model('Iterator::last', 'slice::last')
def m_last(c):
    s = val(c)
    if s.op in ('adt', 'opq') or is_sigma(deref_ty(c.eng, c.selfty() or '')):
        return None
    s = toseq(s)
    return [Out(st, 'ret', NONE if b else some(hd(T.app('rev', s)))) for st, b in c.eng.branch(c.st, nil(s))]


# ---------------------------------------------------------------- sets and maps
@model('HashSet::insert')
def m_set_insert(c):
    st = c.st.fork()
    old = val(c)
    x = c.args[1]
    c.update(c.args[0], setadd(old, snoc(EMPTY, x)), st)
    return c.ret(not_(contains(old, x)), st)


@model('HashSet::contains')
def m_contains(c):
    return c.ret(contains(val(c), val(c, 1)))


@model('slice::contains', 'Vec::contains')
def m_slice_contains(c):
    s = toseq(val(c))
    return c.ret(anyseq(s, [frozenset(lits(eq(elt(s), val(c, 1))))]))


@model('slice::ends_with', 'Vec::ends_with', 'slice::starts_with', 'Vec::starts_with')
def m_slice_ends(c):
    s, t = toseq(val(c)), toseq(val(c, 1))
    n = c.name.split('::')[1]
    return c.ret(T.rebuild('pred', ('slice.' + n, s, t)))


@model('HashMap::get')
def m_map_get(c):
    return c.ret(mapget(val(c), val(c, 1)))


def mapget(m, k):
    if m is EMPTY:
        return NONE
    if m.op == 'mapset' and m.a[1] is k:
        return some(m.a[2])
    if m.op == 'mapset' and m.a[1].op == k.op == 'str':
        return mapget(m.a[0], k)
    return mk('mapget', m, k)


T._RB['mapget'] = mapget


def mapset(m, k, v):
    while m.op == 'mapset' and m.a[1] is k:
        m = m.a[0]
    return mk('mapset', m, k, v)


T._RB['mapset'] = mapset


def mapor(m, k, d):
    """the value of the key, d when there is none"""
    if m is EMPTY:
        return d
    if m.op == 'mapset' and m.a[1] is k:
        return m.a[2]
    if m.op == 'mapset' and m.a[1].op == k.op == 'str':
        return mapor(m.a[0], k, d)
    return mk('mapor', m, k, d)


T._RB['mapor'] = mapor


@model('HashMap::contains_key')
def m_contains_key(c):
    return c.ret(variant_is(mapget(val(c), val(c, 1)), OPT, 'Some', BINARY[OPT]))


@model('HashMap::insert')
def m_map_insert(c):
    st = c.st.fork()
    m, k = val(c), c.args[1]
    c.update(c.args[0], mapset(m, k, c.args[2]), st)
    return c.ret(mapget(m, k), st)


@model('HashMap::entry')
def m_entry(c):
    st = c.st.fork()
    t = c.target(c.args[0], st)
    if t is None:
        return None
    return c.ret(mk('entry', mk('ref', t.root, t.path, t.ty), c.args[1]), st)


def value_cell(eng, st, r, k, v, ty):
    """A reference to the value of a key of the table at r"""
    loc = Loc(r.a[0], r.a[1], r.a[2])
    m = eng.load(st, loc)
    eng.nframe += 1
    root = ('mapval', eng.nframe)
    st.mem[root] = v
    eng.rtypes[root] = ty
    eng.store(st, loc, mk('mapcell', m, k, mk('ref', root, (), None)))
    return mk('ref', root, (), ty)


@model('HashMap::get_mut')
def m_get_mut(c):
    t = c.target(c.args[0], c.st)
    if t is None:
        return None
    g = mapget(val(c), val(c, 1))
    res = []
    for st, b in c.eng.branch(c.st, variant_is(g, OPT, 'Some', BINARY[OPT])):
        if b:
            st = st.fork()
            r = mk('ref', t.root, t.path, t.ty)
            ty = c.eng.deref_ty(c.eng.ty(c.dt)['args'][0]) if c.dt else None
            res.append(Out(st, 'ret', some(value_cell(c.eng, st, r, val(c, 1), fld(g, 'Some', '0'), ty))))
        else:
            res.append(Out(st, 'ret', NONE))
    return res


@model('Entry::and_modify')
def m_and_modify(c):
    e = c.args[0]
    if e.op != 'entry':
        return None
    eng, r = c.eng, e.a[0]
    m = eng.load(c.st, Loc(r.a[0], r.a[1], r.a[2]))
    g = mapget(settle(eng, c.st, m), e.a[1])
    res = []
    for st, b in eng.branch(c.st, variant_is(g, OPT, 'Some', BINARY[OPT])):
        if not b:
            res.append(Out(st, 'ret', e))
            continue
        st = st.fork()
        x = value_cell(eng, st, r, e.a[1], fld(g, 'Some', '0'), None)
        for o in eng.apply(c.fr, st, c.args[1], [x], c.sp):
            res.append(Out(o.st, 'ret', e) if o.kind == 'ret' else o)
    return res


@model('Entry::or_default', 'Entry::or_insert', 'Entry::or_insert_with')
def m_or_default(c):
    e = c.args[0]
    if e.op != 'entry':
        return None
    eng = c.eng
    st = c.st
    if c.name == 'Entry::or_insert':
        outs = [Out(st, 'ret', c.args[1])]
    elif c.name == 'Entry::or_insert_with':
        outs = eng.apply(c.fr, st, c.args[1], [], c.sp)
    else:
        d = default_of(eng, eng.deref_ty(c.dt) if c.dt else '')
        if d is None:
            return None
        outs = [Out(st, 'ret', d)]
    res = []
    for o in outs:
        if o.kind != 'ret':
            res.append(o)
            continue
        st = o.st.fork()
        r = e.a[0]
        loc = Loc(r.a[0], r.a[1], r.a[2])
        m = settle(eng, st, eng.load(st, loc))
        known = st.pc.decide(variant_is(mapget(m, e.a[1]), OPT, 'Some', BINARY[OPT]))
        cur = o.val if known is False else mapor(m, e.a[1], o.val)
        eng.nframe += 1
        root = ('mapval', eng.nframe)
        st.mem[root] = cur
        eng.rtypes[root] = eng.deref_ty(c.dt) if c.dt else None
        eng.store(st, loc, mk('mapcell', m, e.a[1], mk('ref', root, (), None)))
        res.append(Out(st, 'ret', mk('ref', root, (), eng.rtypes[root])))
    return res


def settle(eng, st, t):
    """mapcell terms refer to the location of a value: replaced by the value it has now"""
    cells = T.find(t, lambda x: x.op == 'mapcell')
    if not cells:
        return t
    m = {}
    for x in sorted(cells, key=lambda x: x.size):
        r = x.a[2]
        v = eng.load(st, Loc(r.a[0], r.a[1], r.a[2]))
        m[x] = mapset(subst(x.a[0], m), x.a[1], settle(eng, st, v))
    return subst(t, m)


# ---------------------------------------------------------------- regular expressions
@model('Regex::new')
def m_regex_new(c):
    p = val(c)
    if p.op != 'str':
        return None
    return c.ret(ok(mk('regex', p)))


def rematch(re_, s):
    return mk('rematch', re_, s)


@model('Regex::is_match')
def m_is_match(c):
    return c.ret(rematch(val(c, 0), val(c, 1)))


@model('Regex::captures')
def m_captures(c):
    re_, s = val(c, 0), val(c, 1)
    return [Out(st, 'ret', some(mk('caps', re_, s)) if b else NONE) for st, b in c.eng.branch(c.st, rematch(re_, s))]


@model('Regex::captures_iter')
def m_captures_iter(c):
    return c.ret(mk('capsiter', val(c, 0), val(c, 1)))


def regex_of(caps):
    if caps.op == 'caps':
        return caps.a[0]
    if caps.op == 'capsvar':
        return caps.a[0]
    if caps.op in ('elt', 'hd') and caps.a[0].op == 'capsiter':
        return caps.a[0].a[0]
    return None


def hasgrp(caps, i):
    if i == 0:
        return TRUE
    r = regex_of(caps)
    if r is not None and r.op == 'regex':
        import rx
        try:
            m = rx.group_status(r.a[0].a[0], i)
        except rx.Unsupported:
            m = None
        if m == 'always':
            return TRUE
        if m == 'never':
            return FALSE
    return mk('hasgrp', caps, i)


def grp(caps, i):
    return mk('grp', caps, i)


T._RB['hasgrp'] = hasgrp


def group_index(caps, name):
    r = regex_of(caps)
    if r is not None and r.op == 'regex':
        import rx
        try:
            return rx.group_name(r.a[0].a[0], name)
        except rx.Unsupported:
            return None
    return None


@model('Captures::get', 'Captures::name')
def m_cap_get(c):
    k, i = val(c, 0), val(c, 1)
    if i.op == 'str':
        n = group_index(k, i.a[0])
        if n is None:
            return None
        i = I(n)
    if i.op != 'int':
        return None
    out = []
    for st, b in c.eng.branch(c.st, hasgrp(k, i.a[0])):
        if not b:
            out.append(Out(st, 'ret', NONE))
            continue
        g = grp(k, i.a[0])
        lang = group_texts(k, i.a[0])
        if not lang:
            out.append(Out(st, 'ret', some(g)))
            continue
        for w in lang:
            s2 = c.eng.assume(st, eq(g, S(w)), True)
            if s2 is not None:
                out.append(Out(s2, 'ret', some(S(w))))
    return out


def group_texts(k, i):
    """The texts a group can have, when they are few."""
    r = regex_of(k)
    if i == 0 or r is None or r.op != 'regex':
        return None
    import rx
    try:
        l = rx.group_language(r.a[0].a[0], i, 8)
    except rx.Unsupported:
        return None
    return sorted(l) if l else None


@model('Captures::extract')
def m_extract(c):
    return None


@model('Regex::replace_all', 'Regex::replace', 'Regex::replacen')
def m_replace_all(c):
    re_, s = val(c, 0), val(c, 1)
    f = c.args[-1]
    v = c.load(f)
    kind = c.name.split('::')[1]
    if kind == 'replacen':
        kind = 'replacen%s' % show(val(c, 2))
    if v.op in ('clos', 'fnitem'):
        k = mk('capsvar', re_)
        outs = pure_outs(c, f, [k])
        if outs is None:
            # what the function does with the first match
            st = c.eng.assume(c.st, mk('rematch', re_, s), True)
            bad = [o for o in (c.eng.apply(c.fr, st, f, [mk('caps', re_, s)], c.sp) if st else []) if o.kind == 'panic']
            return [Out(c.st, 'ret', opq('call of ' + c.name))] + bad if bad else None
        cases = canon_cases([(facts, [x]) for facts, x, _ in outs])
        return c.ret(mk('reprep', kind, re_, s, cases))
    if v.op == 'str':
        return c.ret(mk('reprep', kind, re_, s, v))
    return None


# ---------------------------------------------------------------- loops over sequences
def foreach(eng, rec, base, exits, outs):
    """Closed form of a loop that consumes one sequence and only accumulates; None when it is not one."""
    its = []
    for loc, p in rec.phi.items():
        if all(settle(eng, b, eng.load(b, Loc(loc[0], loc[1], None))) is tl(p) for b in rec.backs) and rec.backs:
            its.append((loc, p))
    if len(its) != 1:
        return None
    loc, p = its[0]
    seq = rec.init[loc]
    if seq.opq or seq.op in ('adt', 'ref'):
        return None
    e = elt(seq)
    m = {hd(p): e}
    n = len(rec.pc0.log)
    own = set(rec.phi.values())
    iters, brk, done = [], [], []
    for b in rec.backs:
        if len(b.trace) != len(base.trace):
            return None
        f = loop_facts(b, n, p, m, False, own, True)
        if f is None:
            return None
        if f != 'never':
            iters.append((f, b))
    for bb, s in exits:
        f = loop_facts(s, n, p, m, True, own)
        if f == frozenset():
            done.append((bb, s))
            continue
        f = loop_facts(s, n, p, m, False, own)
        if f is None or len(s.trace) != len(base.trace):
            return None
        if f != 'never':
            brk.append((f, 'exit', bb, s))
    for o in outs:
        f = loop_facts(o.st, n, p, m, False, own)
        if f is None:
            return None
        if f != 'never':
            brk.append((f, 'out', None, o))
    phis = {k: v for k, v in rec.phi.items() if k != loc}
    inits = {k: settle(eng, base, rec.init[k]) for k in phis}
    finals = close(eng, base, phis, inits, seq, m, iters, [b[0] for b in brk], p)
    if finals is None:
        return None
    rexits, routs = [], []
    back_m = {p: EMPTY}
    for st, clos in finals:
        # the sequence is exhausted
        for bb, s in done:
            x = st.fork()
            mm = dict(clos)
            mm[p] = EMPTY
            x.mem = {r: subst(v, mm) for r, v in s.mem.items()}
            x.nl, x.ev = s.nl, st.ev
            rexits.append((bb, x))
    if brk:
        # left by an element that satisfies one of the conditions (the loop changes nothing before)
        allf = [b[0] for b in brk]
        hit = compr(seq, [(f, [e]) for f in allf])
        x = hd(hit)
        for f, kind, bb, s in brk:
            st0 = s.st if kind == 'out' else s
            for st, b in eng.branch(base.fork(), anyseq(seq, allf)):
                if not b:
                    continue
                pc = st.pc
                for a, t in sorted(f, key=lambda q: (q[0].h, q[1])):
                    pc = pc.assume(subst(a, {e: x}), t) if pc is not None else None
                if pc is None:
                    continue
                y = st.fork(pc)
                mm = {hd(p): x, p: mk('after', seq, x)}
                y.mem = {r: subst(v, mm) for r, v in st0.mem.items()}
                y.nl, y.ev = st0.nl, base.ev
                if kind == 'exit':
                    rexits.append((bb, y))
                else:
                    v = subst(s.val, mm) if s.val is not None else None
                    routs.append(Out(y, s.kind, v, s.info))
    return rexits, routs


def loop_facts(s, n, p, m, empty, own, keys=False):
    """The facts of an iteration about its element; None when they are about something else that changes.
    keys: they may say whether a table that changes has a key."""
    f = []
    for a, b in s.pc.log[n:]:
        if a.op == 'nil' and a.a[0] is p:
            if b != empty:
                return None
            continue
        t = subst(a, m)
        if t.opq or occurs(p, t) or not (keys and has_key(t, own)) and T.find(t, lambda x: x.op == 'phi' and x in own):
            return None
        if t.op == 'int':
            if (t.a[0] != 0) != b:
                return 'never'
            continue
        while t.op == 'not':
            t, b = t.a[0], not b
        f.append((t, b))
    return frozenset(f)


def close(eng, base, phis, inits, seq, m, iters, brk, p):
    """[(state, {phi: value at the end})]; None without a closed form"""
    if brk and phis:
        return None
    finals = [(base.fork(), {})]
    allphi = set(phis.values()) | ({p} if p is not None else set())

    def clean(t, own=None):
        if t.opq:
            return False
        return not T.find(t, lambda x: x.op == 'phi' and x is not own and x in allphi)
    cases = joined([(f, {k: subst(settle(eng, b, eng.load(b, Loc(k[0], k[1], None))), m) for k in phis}) for f, b in iters],
                   allphi)
    if any(T.find(t, lambda x: x.op == 'phi' and x in allphi) for f, _ in cases for t, _ in f):
        return None
    for k in sorted(phis, key=lambda x: str(x)):
        ph = phis[k]
        init = inits[k]
        ups = [(f, vals[k]) for f, vals in cases]
        # set to a constant under some conditions
        consts = {v for _, v in ups if v is not ph}
        if len(consts) == 1:
            cst = next(iter(consts))
            if clean(cst) and not occurs(ph, cst) and not T.find(cst, lambda x: x.op == 'elt' and x is elt(seq)):
                conds = [f for f, v in ups if v is not ph]
                nf = []
                for st, mp in finals:
                    for s2, b in eng.branch(st, anyseq(seq, conds)):
                        mm = dict(mp)
                        mm[ph] = cst if b else init
                        nf.append((s2, mm))
                finals = nf
                continue
        r = accumulate(ph, init, seq, ups, clean)
        if r is None and all(v is ph or clean(v) and not occurs(ph, v) for _, v in ups):
            # the last value it was given
            given = compr(seq, [(f, [v]) for f, v in ups if v is not ph])
            nf = []
            for st, mp in finals:
                for s2, b in eng.branch(st, nil(given)):
                    mm = dict(mp)
                    mm[ph] = init if b else hd(T.app('rev', given))
                    nf.append((s2, mm))
            finals = nf
            continue
        if r is None:
            return None
        for _, mp in finals:
            mp[ph] = r
    if brk:
        nf = []
        for st, mp in finals:
            for s2, b in eng.branch(st, anyseq(seq, brk)):
                if not b:
                    nf.append((s2, mp))
        finals = nf
    return finals


def has_key(t, phis):
    return t.op == 'is' and t.a[0].op == 'mapget' and t.a[0].a[0] in phis


def joined(cases, phis):
    """Iterations that differ in whether a table has the key: as one, about the list of the key (empty when it has none)"""
    cases = list(cases)
    again = True
    while again:
        again = False
        for i in range(len(cases)):
            for j in range(len(cases)):
                f, g = cases[i][0], cases[j][0]
                d = f - g
                if len(d) != 1:
                    continue
                (t, b), = d
                if not has_key(t, phis) or g - f != {(t, not b)} or (t.a[2] == 'Some') != b:
                    continue
                q = t.a[0]
                if any(T.occurs(q, x) for x, _ in f & g):
                    continue
                old, new = fld(q, 'Some', '0'), mk('mapor', q.a[0], q.a[1], EMPTY)
                vals = {}
                for k, v in cases[i][1].items():
                    w = subst(v, {old: new})
                    v0 = cases[j][1][k]
                    x = v0.a[2] if v0.op == 'mapset' and v0.a[0] is q.a[0] and v0.a[1] is q.a[1] else None
                    if x is not None and w.op == 'mapset' and w.a[:2] == v0.a[:2] and w.a[2].op == 'cat' and w.a[2].a[0] is new:
                        parts = w.a[2].a[1:]
                        if parts[0].op == 'str' and cat(*parts[1:]) is x and not T.occurs(q, x):
                            vals[k] = mapset(q.a[0], q.a[1], mk('app', 'joined', parts[0], x))
                            continue
                    if T.occurs(q, w) or subst(w, {new: EMPTY}) is not subst(v0, {new: EMPTY}):
                        break
                    vals[k] = w
                else:
                    cases = [x for n, x in enumerate(cases) if n not in (i, j)] + [(f & g, vals)]
                    again = True
                    break
            if again:
                break
    return cases


def chain(v, ph):
    """v as ph followed by elements: (kind, elements)"""
    if v is ph:
        return None, []
    if v.op == 'snoc':
        k, l = chain(v.a[0], ph)
        if k in (None, 'vec') and l is not None:
            return 'vec', l + [v.a[1]]
    if v.op == 'setadd' and v.a[0] is ph:
        x, l = v.a[1], []
        while x.op == 'snoc':
            l.insert(0, x.a[1])
            x = x.a[0]
        if x is EMPTY:
            return 'set', l
    if v.op == 'cat' and v.a[0] is ph:
        return 'str', list(v.a[1:])
    if v.op == 'mapset' and v.a[0] is ph:
        k, w = v.a[1], v.a[2]
        if w.op == 'snoc' and w.a[0].op == 'mapor' and w.a[0].a[0] is ph and w.a[0].a[1] is k and w.a[0].a[2] is EMPTY:
            return 'group', [tup(k, w.a[1])]
        if w.op == 'app' and w.a[0] == 'joined':
            return w.a[1], [tup(k, w.a[2])]
        if not occurs(ph, w):
            return 'map', [tup(k, w)]
    return 'no', None


def accumulate(ph, init, seq, ups, clean):
    kinds = set()
    cases = []
    for f, v in ups:
        k, l = chain(v, ph)
        if k == 'no':
            return None
        if k:
            kinds.add(k)
        if not all(clean(x) and not occurs(ph, x) for x in l):
            return None
        cases.append((f, l))
    if len(kinds) != 1:
        return None
    k = kinds.pop()
    s = compr(seq, cases)
    if k == 'vec':
        return seqcat(init, s)
    if k == 'set':
        return setadd(init, s)
    if k == 'str':
        return cat(init, strseq(s))
    if k == 'group':
        return mapgroup(init, s)
    if not isinstance(k, str):
        if init is not EMPTY:
            return None
        g = T.rebuild('mapiter', (mapgroup(EMPTY, s),))
        e = elt(g)
        return T.rebuild('mapext', (EMPTY, compr(g, [((), [tup(fld(e, None, '0'), T.rebuild('join', (fld(e, None, '1'), k)))])])))
    if k == 'map':
        return mapext(init, s)
    return None


def turned(eng, c, seq, f, init=None):
    """The same as a loop: the sequence is taken element by element."""
    if seq.opq:
        return None
    base = c.st.fork()
    base.nl += 1
    lid = 'each#%d' % base.nl
    eng.nframe += 1
    it, acc = Loc(('it', eng.nframe), (), None), None
    eng.store(base, it, seq)
    if init is not None:
        acc = Loc(('acc', eng.nframe), (), None)
        eng.store(base, acc, init)
    changed = {(it.root, ()): True}
    for _ in range(8):
        hs = base.fork()
        phi = {}
        for root, path in sorted(changed, key=str):
            phi[root, path] = q = mk('phi', lid, str((root, path)))
            eng.store(hs, Loc(root, path, None), q)
        q = phi[it.root, ()]
        st = eng.assume(hs, nil(q), False)
        end = eng.assume(hs, nil(q), True)
        if st is None or end is None:
            return None
        st = st.fork()
        eng.store(st, it, tl(q))
        backs, others, new = [], [], {}
        for o in eng.apply(c.fr, st, f, [hd(q)] if acc is None else [eng.load(st, acc), hd(q)], c.sp):
            if o.kind != 'ret':
                others.append(o)
                continue
            b = o.st.fork()
            if acc is not None:
                eng.store(b, acc, o.val)
            backs.append(b)
            for root, va in hs.mem.items():
                vb = b.mem.get(root)
                if vb is not None and vb is not va and root != ('tmp',):
                    eng.diff1(root, (), va, vb, new)
        new = {k for k in new if not any(eng.covers(x, k) for x in changed)}
        if not new:
            break
        for k in new:
            for x in [x for x in changed if eng.covers(k, x)]:
                del changed[x]
            changed[k] = True
    else:
        return None
    rec = LoopRec(lid, c.fr.key, c.sp)
    rec.phi = phi
    rec.init = {k: eng.load(base, Loc(k[0], k[1], None)) for k in phi}
    rec.types = {k: None for k in phi}
    rec.backs, rec.header, rec.pc0 = backs, hs, hs.pc
    rec.outs, rec.nexits = others, 1
    eng.loops.append(rec)
    end = end.fork()
    end.trace = base.trace + (rec,) + end.trace[len(base.trace):]
    for o in others:
        o.st.trace = base.trace + (rec,) + o.st.trace[len(base.trace):]
    return others + [Out(end, 'ret', UNIT if acc is None else eng.load(end, acc))]


def synth(eng, c, seq, f, init=None):
    """A closure called on each element of a sequence for its effects, or (init) to fold them."""
    if seq.opq:
        return None
    base = c.st
    acc = None
    if init is not None:
        base = base.fork()
        eng.nframe += 1
        acc = Loc(('acc', eng.nframe), (), None)
        eng.store(base, acc, init)
    e = elt(seq)
    changed = {}
    base_nl = base.nl + 1
    for _ in range(8):
        hs = base.fork()
        hs.nl = base_nl
        phi = {}
        for (root, path) in sorted(changed, key=str):
            q = mk('phi', 'each#%d' % base_nl, str((root, path)))
            phi[(root, path)] = q
            eng.store(hs, Loc(root, path, None), q)
        if acc is None:
            outs = eng.apply(c.fr, hs, f, [e], c.sp)
        else:
            outs = []
            for o in eng.apply(c.fr, hs, f, [eng.load(hs, acc), e], c.sp):
                if o.kind == 'ret':
                    st = o.st.fork()
                    eng.store(st, acc, o.val)
                    o = Out(st, 'ret', o.val)
                outs.append(o)
        new = {}
        for o in outs:
            if o.kind != 'ret' or len(o.st.trace) != len(base.trace):
                return None
            for root, va in hs.mem.items():
                vb = o.st.mem.get(root)
                if vb is None or vb is va or root == ('tmp',):
                    continue
                eng.diff1(root, (), va, vb, new)
        new = {k for k in new if not any(eng.covers(x, k) for x in changed)}
        if not new:
            break
        for k in new:
            for x in [x for x in changed if eng.covers(k, x)]:
                del changed[x]
            changed[k] = True
    else:
        return None
    n = len(hs.pc.log)
    iters = []
    own = set(phi.values())
    for o in outs:
        fs = []
        for a, b in o.st.pc.log[n:]:
            if a.opq or not has_key(a, own) and T.find(a, lambda x: x.op == 'phi' and x in own):
                return None
            fs.append((a, b))
        iters.append((frozenset(fs), o.st))
    inits = {k: settle(eng, base, eng.load(base, Loc(k[0], k[1], None))) for k in phi}
    finals = close(eng, base, phi, inits, seq, {}, iters, [], None)
    if finals is None:
        return None
    res = []
    for st, mp in finals:
        s = st.fork()
        for k, q in phi.items():
            eng.store(s, Loc(k[0], k[1], None), mp[q])
        res.append(Out(s, 'ret', UNIT if acc is None else eng.load(s, acc)))
    return res
