"""Value terms of the analysis: hash-consed, normalised at construction.

A term is the symbolic name of a value (value numbering): two program points with the same term hold
the same value.  Nothing here runs the program; the constructors only apply the algebraic laws of the
operations (string concatenation, comparisons, sequences ...)."""

_tab = {}


class Term(object):
    __slots__ = ('op', 'a', 'h', 'opq', 'size', '_s', 'cell')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.h = len(_tab)
        t._s = None
        o = op == 'opq'
        c = op == 'mapcell'
        n = 1
        for x in subterms1(a):
            o = o or x.opq
            c = c or x.cell
            n += x.size
        t.opq = o
        t.cell = c
        t.size = n
        _tab[key] = t
    return t


def subterms1(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in subterms1(x):
                yield y


def children(t):
    return subterms1(t.a)


def occurs(x, t, seen=None):
    if x is t:
        return True
    if x.h > t.h:           # subterms are made before the terms that contain them
        return False
    if seen is None:
        seen = set()
    if t in seen:
        return False
    seen.add(t)
    return any(occurs(x, c, seen) for c in children(t))


def find(t, pred, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for c in children(t):
        find(c, pred, out, seen)
    return out


# ---------------------------------------------------------------- constants
def I(v):
    return mk('int', int(v))


def S(v):
    return mk('str', v)


def C(c):
    return mk('int', ord(c))


TRUE = mk('int', 1)
FALSE = mk('int', 0)
UNIT = mk('tup')


def B(v):
    return TRUE if v else FALSE


_opq = [0]


def opq(reason, *deps):
    _opq[0] += 1
    return mk('opq', reason, _opq[0])


def is_const(t):
    if t.op in ('int', 'str', 'fnitem'):
        return True
    if t.op == 'adt':
        return all(is_const(x) for _, x in t.a[2])
    if t.op in ('tup', 'arr'):
        return all(is_const(x) for x in t.a)
    return False


# ---------------------------------------------------------------- aggregates
OPT = 'core::option::Option'
RES = 'core::result::Result'


def adt(path, var, fields):
    if isinstance(fields, dict):
        fields = tuple(sorted(fields.items()))
    if fields and var is None:
        f0 = fields[0][1]
        if f0.op == 'fld' and not fields[0][0].isdigit():
            x = f0.a[0]
            if all(v.op == 'fld' and v.a[0] is x and v.a[1] is None and v.a[2] == n for n, v in fields):
                return x
    return mk('adt', path, var, tuple(fields))


def some(x):
    return mk('adt', OPT, 'Some', (('0', x),))


NONE = mk('adt', OPT, 'None', ())


def ok(x):
    return mk('adt', RES, 'Ok', (('0', x),))


def err(x):
    return mk('adt', RES, 'Err', (('0', x),))


def tup(*xs):
    return mk('tup', *xs)


# values of library types that terms stand for as a whole: their fields are not known
WHOLE = frozenset("""seq0 snoc seqcat compr split lines chars bytes asbytes cat join str strseq trim slice sub tl strip before
    after chr cons mapset mapext mapgroup mapiter setiter setadd capsiter optiter range regex caps entry
    int add not and fmtargs""".split())


def fld(x, var, name):
    """Field `name` of variant `var` (None for a struct, a tuple or a closure)."""
    if x.op == 'adt':
        for k, v in x.a[2]:
            if k == name and (var is None or x.a[1] is None or var == x.a[1]):
                return v
        return mk('opq', 'no field %s of %s' % (name, var), 0)
    if x.op in ('tup', 'arr'):
        i = int(name)
        return x.a[i] if i < len(x.a) else mk('opq', 'no element', 0)
    if x.op == 'clos':
        return x.a[1][int(name)]
    if x.op == 'opq':
        return x
    if x.op in WHOLE:
        return mk('opq', 'field of a value of the library', x.op)
    return mk('fld', x, var, name)


def app(f, *a):
    g = APPS.get(f)
    r = g(*a) if g else None
    return mk('app', f, *a) if r is None else r


# functions of sequences whose end is known
APPS = {
    'Vec::pop': lambda s, *r: s if s is EMPTY else s.a[0] if s.op == 'snoc' else None,
    'Vec::pop.ret': lambda s, *r: adt(OPT, 'None', ()) if s is EMPTY else some(s.a[1]) if s.op == 'snoc' else None,
}


def listed(s):
    """the elements of a sequence that is written out, or None"""
    out = []
    while s.op == 'snoc':
        out.append(s.a[1])
        s = s.a[0]
    return out[::-1] if s is EMPTY else None


def of_list(f):
    """a function of a list and of numbers that are known; None where the library would panic"""
    def g(s, *a):
        l = listed(s)
        if l is None or any(x.op == 'int' and not 0 <= x.a[0] <= len(l) for x in a):
            return None
        try:
            r = f(l, *[x.a[0] if x.op == 'int' else x for x in a])
        except (IndexError, TypeError):
            return None
        if isinstance(r, Term):
            return r
        o = EMPTY
        for x in l:
            o = snoc(o, x)
        return o
    return g


def _swap(l, i, j):
    l[i], l[j] = l[j], l[i]


def _truncate(l, n):
    l[n:] = []


def _swap_remove(l, i):
    l[i], l[-1] = l[-1], l[i]
    l.pop()


def _remove(l, i):
    l.pop(i)


APPS.update({'slice::swap': of_list(_swap), 'slice::reverse': of_list(lambda l: l.reverse()), 'Vec::truncate': of_list(_truncate),
             'Vec::remove': of_list(_remove), 'Vec::remove.ret': of_list(lambda l, i: l[i]), 'Vec::swap_remove': of_list(_swap_remove),
             'Vec::swap_remove.ret': of_list(lambda l, i: l[i]), 'Vec::insert': of_list(lambda l, i, x: l.insert(i, x if isinstance(x, Term) else I(x)))})
def rev(s):
    l = listed(s)
    if l is not None:
        r = EMPTY
        for x in l[::-1]:
            r = snoc(r, x)
        return r
    if s.op == 'app' and s.a[0] == 'rev':
        return s.a[1]
    return None


APPS['rev'] = rev
APPS['slice::last'] = APPS['Vec::last'] = APPS['Vec::pop.ret']


# ---------------------------------------------------------------- strings
def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.a)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'str' and p.a[0] == '':
            continue
        if p.op == 'str' and res and res[-1].op == 'str':
            res[-1] = S(res[-1].a[0] + p.a[0])
        else:
            res.append(p)
    if not res:
        return S('')
    if len(res) == 1:
        return res[0]
    return mk('cat', *res)


RUST_WS = set('\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a'
              '\u2028\u2029\u202f\u205f\u3000')


def rtrim(s, left=True, right=True):
    i, j = 0, len(s)
    while left and i < j and s[i] in RUST_WS:
        i += 1
    while right and j > i and s[j - 1] in RUST_WS:
        j -= 1
    return s[i:j]


def trim(s, left=True, right=True):
    if s.op == 'str':
        return S(rtrim(s.a[0], left, right))
    if s.op == 'trim':
        l, r = s.a[1] or left, s.a[2] or right
        return trim(s.a[0], l, r)
    return mk('trim', s, left, right)


# ---------------------------------------------------------------- sequences
EMPTY = mk('seq0')


def snoc(v, e):
    return mk('snoc', v, e)


def seqcat(v, s):
    """v followed by the elements of the sequence s."""
    if s is EMPTY:
        return v
    if v is EMPTY:
        return s
    if s.op == 'seqcat':
        return seqcat(seqcat(v, s.a[0]), s.a[1])
    if s.op == 'snoc':
        return snoc(seqcat(v, s.a[0]), s.a[1])
    return mk('seqcat', v, s)


def elt(base):
    return mk('elt', base)


def chars(s):
    if s.op == 'str':
        r = EMPTY
        for c in s.a[0]:
            r = snoc(r, C(c))
        return r
    return mk('chars', s)


def at(b, i):
    if i.op == 'int':
        if b.op == 'arr' and i.a[0] < len(b.a):
            return b.a[i.a[0]]
        if b.op == 'opq':
            return b
        if i.a[0] == 0:
            return hd(b)
    if b.op == 'opq':
        return b
    return mk('at', b, i)


def pred(*a):
    if a[0] == 'ws' and a[1].op == 'int':
        return B(chr(a[1].a[0]) in RUST_WS)
    if a[0] == 'contains' and (a[1].op == 'setadd' or a[1] is EMPTY):
        return contains(a[1], a[2])
    if a[0] == 'slice.ends_with':
        s, t, l = a[1], a[2], []
        while s.op == t.op == 'snoc':
            l.append(eq(s.a[1], t.a[1]))
            s, t = s.a[0], t.a[0]
        if t is EMPTY:
            return and_(*l)
        if s is EMPTY and t.op == 'snoc':
            return I(0)
    return mk('pred', *a)


def canon_cases(cases):
    """cases: list of (facts, elems); facts: frozenset of (atom, bool).  Merges what does not matter."""
    d = {}
    for f, e in cases:
        d.setdefault(tuple(e), set()).add(frozenset(f))
    out = []
    for e, fs in d.items():
        if not e:
            continue
        fs = merge_facts(fs)
        for f in fs:
            out.append((tuple(sorted(f, key=lambda x: (x[0].h, x[1]))), e))
    out.sort(key=lambda c: ([(a.h, b) for a, b in c[0]], [x.h for x in c[1]]))
    return tuple(out)


def merge_facts(fs):
    fs = set(fs)
    changed = True
    while changed:
        changed = False
        l = sorted(fs, key=lambda f: sorted((a.h, b) for a, b in f))
        for i in range(len(l)):
            for j in range(len(l)):
                if i == j:
                    continue
                d1, d2 = l[i] - l[j], l[j] - l[i]
                if not d1:                       # l[i] is weaker: it absorbs l[j]
                    fs.discard(l[j])
                    changed = True
                    break
                if len(d1) == 1:
                    (a, b), = d1
                    if (a, not b) in d2:
                        if len(d2) == 1:
                            fs.discard(l[i])
                            fs.discard(l[j])
                            fs.add(l[i] & l[j])
                            changed = True
                            break
                        # f & a  |  f & !a & g   =   f & a | f & g
                        fs.discard(l[j])
                        fs.add(l[j] - {(a, not b)})
                        changed = True
                        break
            if changed:
                break
    return fs


def within(t, m):
    """the part of a mapping that is about what is free below a binder"""
    if t.op in ('any', 'compr'):
        e = elt(t.a[0])
    elif t.op == 'charpred':
        e = mk('chr_elt')
    else:
        return m
    if all(k.h < e.h or not occurs(e, k) for k in m):
        return m
    return {k: v for k, v in m.items() if not occurs(e, k)}


def deep(x, m):
    if isinstance(x, Term):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(deep(y, m) for y in x)
    return x


def subst(t, m, memo=None):
    """Replaces the terms of the mapping m in t, renormalising."""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if t in memo:
        return memo[t]
    if not t.a or t.op in ('int', 'str', 'var', 'phi', 'opq'):
        return t

    def go(x):
        if isinstance(x, Term):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    inner = within(t, m)
    if inner is not m:
        # the element that is bound here is not the one the mapping is about
        na = tuple(subst(x, inner) if isinstance(x, Term) else deep(x, inner) for x in t.a[1:])
        na = (go(t.a[0]),) + na if t.op != 'charpred' else (deep(t.a[0], inner),) + na
    else:
        na = tuple(go(x) for x in t.a)
    r = t if na == t.a else rebuild(t.op, na)
    r = m.get(r, r)
    memo[t] = r
    return r


def compr(base, cases):
    """The concatenation, for each element e of base, of the elems of the case whose facts hold."""
    cases = canon_cases(cases)
    if not cases or base is EMPTY:
        return EMPTY
    e = elt(base)
    if cases == (((), (e,)),):
        return base
    if base.op == 'compr':
        # composition: e is an element of another comprehension
        b0, c0 = base.a
        new = []
        for f0, els0 in c0:
            combos = [(frozenset(f0), ())]
            for x in els0:
                nxt = []
                for f1, acc in combos:
                    matched = False
                    for f2, els2 in cases:
                        g = apply_facts(f2, {e: x})
                        if g is None:
                            continue
                        nxt.append((f1 | g, acc + tuple(subst(y, {e: x}) for y in els2)))
                    # the elements that no case covers
                    for f3 in complement(cases):
                        g = apply_facts(f3, {e: x})
                        if g is None:
                            continue
                        nxt.append((f1 | g, acc))
                combos = [c for c in nxt if consistent_facts(c[0])]
            new.extend(combos)
        return compr(b0, new)
    if base.op == 'snoc':
        v, x = base.a
        r = compr(v, [(frozenset(apply_facts(f, {e: elt(v)}) or ()), [subst(y, {e: elt(v)}) for y in els])
                      for f, els in cases])
        # the last element is known: its case must be decided
        for f, els in cases:
            g = apply_facts(f, {e: x})
            if g is None:
                continue
            if not g:
                for y in els:
                    r = snoc(r, subst(y, {e: x}))
                return r
            return mk('compr', base, cases)
        return r
    return mk('compr', base, cases)


def consistent_facts(f):
    return not any((a, not b) in f for a, b in f)


def apply_facts(facts, m):
    out = set()
    for a, b in facts:
        t = subst(a, m)
        if t is TRUE or t is FALSE:
            if (t is TRUE) != b:
                return None
            continue
        while t.op == 'not':
            t, b = t.a[0], not b
        out.add((t, b))
    return frozenset(out)


def complement(cases):
    """The conjunctions under which no case holds (cases are disjoint conjunctions)."""
    rest = [frozenset()]
    for f, _ in cases:
        nxt = []
        for r in rest:
            acc = r
            for a, b in f:
                n = acc | {(a, not b)}
                if consistent_facts(n):
                    nxt.append(n)
                acc = acc | {(a, b)}
                if not consistent_facts(acc):
                    break
        rest = nxt
    return rest


def anyseq(base, facts_list):
    """Whether some element of base satisfies one of the conjunctions."""
    fl = merge_facts({frozenset(f) for f in facts_list})
    if not fl or base is EMPTY:
        return FALSE
    if frozenset() in fl:
        return not_(nil(base))
    e = elt(base)
    if base.op == 'compr':
        b0, c0 = base.a
        out = []
        for f0, els in c0:
            for x in els:
                for f in fl:
                    g = apply_facts(f, {e: x})
                    if g is not None and consistent_facts(g | frozenset(f0)):
                        out.append(g | frozenset(f0))
        return anyseq(b0, out)
    if base.op in ('snoc',):
        v, x = base.a
        r = anyseq(v, [apply_facts(f, {e: elt(v)}) for f in fl])
        last = [apply_facts(f, {e: x}) for f in fl]
        last = [g for g in last if g is not None]
        return or_(r, *[and_(*[(a if b else not_(a)) for a, b in sorted(g, key=lambda q: (q[0].h, q[1]))]) for g in last])
    if base.op == 'seqcat':
        v, w = base.a
        return or_(anyseq(v, [apply_facts(f, {e: elt(v)}) or frozenset() for f in fl]),
                   anyseq(w, [apply_facts(f, {e: elt(w)}) or frozenset() for f in fl]))
    key = tuple(sorted((tuple(sorted(f, key=lambda x: (x[0].h, x[1]))) for f in fl),
                       key=lambda f: [(a.h, b) for a, b in f]))
    return mk('any', base, key)


def nil(s):
    """Whether the sequence has no element."""
    if s is EMPTY:
        return TRUE
    if s.op == 'snoc':
        return FALSE
    if s.op == 'seqcat':
        return and_(nil(s.a[0]), nil(s.a[1]))
    if s.op == 'compr':
        return not_(anyseq(s.a[0], [f for f, _ in s.a[1]]))
    if s.op == 'chars':
        return eq(s.a[0], S(''))
    if s.op == 'app' and s.a[0] == 'rev':
        return nil(s.a[1])
    if s.op == 'split':
        return FALSE
    return mk('nil', s)


def hd(s):
    if s.op == 'app' and s.a[0] == 'rev' and s.a[1].op == 'snoc':
        return s.a[1].a[1]
    if s.op == 'snoc':
        if s.a[0] is EMPTY:
            return s.a[1]
        if s.a[0].op == 'snoc':
            return hd(s.a[0])
    if s.op == 'seqcat' and s.a[0].op == 'snoc' and s.a[0].a[0] is EMPTY:
        return s.a[0].a[1]
    if s.op == 'compr' and len(s.a[1]) == 1 and not s.a[1][0][0] and len(s.a[1][0][1]) == 1:
        return subst(s.a[1][0][1][0], {elt(s.a[0]): hd(s.a[0])})
    return mk('hd', s)


def tl(s):
    if s.op == 'snoc':
        if s.a[0] is EMPTY:
            return EMPTY
        if s.a[0].op == 'snoc':
            return snoc(tl(s.a[0]), s.a[1])
    if s.op == 'compr' and len(s.a[1]) == 1 and not s.a[1][0][0] and len(s.a[1][0][1]) == 1:
        t = tl(s.a[0])
        return compr(t, [(frozenset(), [subst(s.a[1][0][1][0], {elt(s.a[0]): elt(t)})])])
    return mk('tl', s)


def length(s):
    if s.op == 'str':
        return I(len(s.a[0].encode()))
    if s is EMPTY:
        return I(0)
    if s.op == 'snoc':
        return add(length(s.a[0]), I(1))
    if s.op == 'arr':
        return I(len(s.a))
    return mk('len', s)


def slen(s):
    """the number of elements"""
    if s is EMPTY:
        return I(0)
    if s.op == 'snoc':
        return add(slen(s.a[0]), I(1))
    if s.op == 'seqcat':
        return add(slen(s.a[0]), slen(s.a[1]))
    if s.op == 'arr':
        return I(len(s.a))
    if s.op == 'compr' and len(s.a[1]) == 1 and not s.a[1][0][0]:
        n = len(s.a[1][0][1])
        return slen(s.a[0]) if n == 1 else arith('mul', slen(s.a[0]), I(n), 'usize')
    return mk('slen', s)


def split(s, p):
    """the pieces of s between the matches of the pattern p"""
    if s.op == 'str' and p.op == 'str' and p.a[0]:
        r = EMPTY
        for x in s.a[0].split(p.a[0]):
            r = snoc(r, S(x))
        return r
    return mk('split', s, p)


def before(s, p):
    if s.op == 'str' and p.op == 'str' and p.a[0] in s.a[0]:
        return S(s.a[0].split(p.a[0], 1)[0] if p.a[0] else '')
    return mk('before', s, p)


def after(s, p):
    if s.op == 'str' and p.op == 'str' and p.a[0] in s.a[0]:
        return S(s.a[0].split(p.a[0], 1)[1] if p.a[0] else s.a[0])
    return mk('after', s, p)


# ---------------------------------------------------------------- integers
def add(a, b, ty='usize'):
    if a.op == 'int' and b.op == 'int':
        return wrap(a.a[0] + b.a[0], ty)
    if a.op == 'int':
        a, b = b, a
    if b.op == 'int':
        if b.a[0] == 0:
            return a
        if a.op == 'add' and a.a[1].op == 'int':
            return add(a.a[0], add(a.a[1], b, 'i128'), ty)
    elif a.h > b.h:
        a, b = b, a
    return mk('add', a, b, ty)


def sub(a, b, ty='usize'):
    if b.op == 'int':
        return add(a, I(-b.a[0]), ty)
    if a is b:
        return I(0)
    return mk('sub', a, b, ty)


RANGES = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1),
          'usize': (0, 2 ** 64 - 1), 'u128': (0, 2 ** 128 - 1), 'i8': (-128, 127), 'i16': (-2 ** 15, 2 ** 15 - 1),
          'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1),
          'i128': (-2 ** 127, 2 ** 127 - 1), 'char': (0, 0x10ffff), 'bool': (0, 1)}


def wrapi(v, ty):
    lo, hi = RANGES.get(ty, (None, None))
    if lo is None or lo <= v <= hi:
        return v
    n = hi - lo + 1
    return (v - lo) % n + lo


def wrap(v, ty):
    return I(wrapi(v, ty))


def arith(op, a, b, ty):
    if op == 'add':
        return add(a, b, ty)
    if op == 'sub':
        return sub(a, b, ty)
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        if op == 'mul':
            return wrap(x * y, ty)
        if op in ('div', 'rem') and y != 0:
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return wrap(q if op == 'div' else x - q * y, ty)
        if op == 'and':
            return wrap(x & y, ty)
        if op == 'or':
            return wrap(x | y, ty)
        if op == 'xor':
            return wrap(x ^ y, ty)
        if op == 'shl' and 0 <= y < 128:
            return wrap(x << y, ty)
        if op == 'shr' and 0 <= y < 128:
            return wrap(x >> y, ty)
    if op == 'mul' and a.op == 'int':
        a, b = b, a
    if b.op == 'int' and b.a[0] in (0, 1, -1):
        y = b.a[0]
        if op == 'mul':
            return I(0) if y == 0 else a if y == 1 else neg(a, ty)
        if op == 'div' and y:
            return a if y == 1 else neg(a, ty)
        if op == 'rem' and y:
            return I(0)
    if op in ('mul', 'and', 'or', 'xor') and a.h > b.h:
        a, b = b, a
    return mk({'and': 'band', 'or': 'bor', 'xor': 'bxor'}.get(op, op), a, b, ty)


def neg(a, ty):
    if a.op == 'int':
        return wrap(-a.a[0], ty)
    return mk('neg', a, ty)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    return mk('not', a)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        if x.op == 'and':
            out.extend(y for y in x.a if y not in out)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    if any(not_(x) in out for x in out):
        return FALSE
    return mk('and', *out)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def isv(x, path, var):
    """Whether the enum value x is the variant var."""
    if x.op == 'adt':
        return B(x.a[1] == var)
    return mk('is', x, path, var)


# enums of two variants: only the second one is asked for
BINARY = {OPT: ('None', 'Some'), RES: ('Ok', 'Err')}


def variant_is(x, path, var, variants):
    if x.op == 'adt':
        return B(x.a[1] == var)
    if len(variants) == 1:
        return TRUE
    if len(variants) == 2 and var == variants[0]:
        return not_(mk('is', x, path, variants[1]))
    return mk('is', x, path, var)


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op in ('int', 'str') and y.op in ('int', 'str'):
            return FALSE
    if a.op == 'adt' and b.op == 'adt':
        if a.a[1] != b.a[1]:
            return FALSE
        fb = dict(b.a[2])
        return and_(*[eq(x, fb[n]) for n, x in a.a[2] if n in fb])
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op in ('int', 'str', 'adt') or (b.op not in ('int', 'str', 'adt') and a.h > b.h):
        a, b = b, a
    if b.op == 'adt' and not b.a[2]:
        p = b.a[0]
        if p in BINARY:
            return variant_is(a, p, b.a[1], BINARY[p])
        return mk('is', a, p, b.a[1])
    if b.op == 'int':
        if a.op == 'len' and b.a[0] == 0:
            return isempty(a.a[0])
        if a.op == 'slen' and b.a[0] == 0:
            return nil(a.a[0])
        if a.op == 'add' and a.a[1].op == 'int':
            return eq(a.a[0], wrap(b.a[0] - a.a[1].a[0], a.a[2]))
        if is_bool(a) and b.a[0] in (0, 1):
            return a if b.a[0] == 1 else not_(a)
        if a.op == 'hd' and a.a[0].op == 'chars' and 0 <= b.a[0] < 0x110000:
            return sw(a.a[0].a[0], S(chr(b.a[0])))
        if b.a[0] == 0 and a.op == 'app' and a.a[0] == 'Iterator::sum' and a.a[1].op == 'compr':
            # numbers without sign: none is left when all are zero
            return not_(anyseq(a.a[1].a[0], [frozenset(list(f) + lits(not_(eq(x, b)))) for f, xs in a.a[1].a[1] for x in xs]))
    if b.op == 'str' and b.a[0] == '' and a.op == 'trim':
        e = chars(a.a[0])
        return not_(anyseq(e, [frozenset([(pred('ws', elt(e)), False)])]))
    if b.op == 'str' and a.op == 'cat':
        s = b.a[0]
        p = a.a[0]
        if p.op == 'str':
            if not s.startswith(p.a[0]):
                return FALSE
            return eq(cat(*a.a[1:]), S(s[len(p.a[0]):]))
        p = a.a[-1]
        if p.op == 'str':
            if not s.endswith(p.a[0]):
                return FALSE
            return eq(cat(*a.a[:-1]), S(s[:len(s) - len(p.a[0])]))
        if s == '':
            return and_(*[eq(x, b) for x in a.a])
    if a.op == 'cat' and b.op == 'cat':
        if a.a[0].op == 'str' and a.a[0] is b.a[0]:
            return eq(cat(*a.a[1:]), cat(*b.a[1:]))
        if a.a[-1].op == 'str' and a.a[-1] is b.a[-1]:
            return eq(cat(*a.a[:-1]), cat(*b.a[:-1]))
    if b.op == 'str' and a.op == 'trim' and b.a[0] == '':
        return eq(trim(a.a[0]), b) if not (a.a[1] and a.a[2]) else mk('eq', a, b)
    return mk('eq', a, b)


STRISH = {'str', 'cat', 'trim'}


def isempty(s):
    """Emptiness of a string or a sequence (told apart by the producer of the term)."""
    if s.op in ('seq0', 'snoc', 'seqcat', 'compr', 'chars', 'split', 'splitws', 'caps_iter', 'viter', 'setadd'):
        return nil(s)
    return eq(s, S(''))


def is_bool(t):
    return t.op in ('not', 'and', 'eq', 'lt', 'is', 'any', 'nil', 'has', 'rematch', 'hasgrp', 'sw', 'ew', 'pred', 'ovf', 'slbad')


_ty = {}        # the integer type of a term that was compared


def lt(a, b, ty='usize'):
    """a < b"""
    if a.op == 'int' and b.op == 'int':
        return B(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    lo, hi = RANGES.get(ty, (None, None))
    for x in (a, b):
        if ty and x.op != 'int':
            _ty[x] = ty
    if a.op == 'int':
        # c < x   <=>  not (x < c+1)
        if hi is not None and a.a[0] >= hi:
            return FALSE
        return not_(lt(b, I(a.a[0] + 1), ty))
    if b.op == 'int':
        c = b.a[0]
        if lo is not None and c <= lo:
            return FALSE
        if lo is not None and c == lo + 1:
            return eq(a, I(lo))
        if hi is not None and c > hi:
            return TRUE
        if hi is not None and c == hi:
            return not_(eq(a, I(hi)))
        return mk('lt', a, b)
    if a.op == 'len' and False:
        pass
    return mk('lt', a, b)


# ---------------------------------------------------------------- string predicates
def sw(s, p):
    """s starts with the string p"""
    if p.op == 'str':
        if p.a[0] == '':
            return TRUE
        if s.op == 'str':
            return B(s.a[0].startswith(p.a[0]))
        if s.op == 'cat' and s.a[0].op == 'str':
            c = s.a[0].a[0]
            if c.startswith(p.a[0]):
                return TRUE
            if not p.a[0].startswith(c):
                return FALSE
            return sw(cat(*s.a[1:]), S(p.a[0][len(c):]))
    return mk('sw', s, p)


def ew(s, p):
    if p.op == 'str':
        if p.a[0] == '':
            return TRUE
        if s.op == 'str':
            return B(s.a[0].endswith(p.a[0]))
        if s.op == 'cat' and s.a[-1].op == 'str':
            c = s.a[-1].a[0]
            if c.endswith(p.a[0]):
                return TRUE
            if not p.a[0].endswith(c):
                return FALSE
            return ew(cat(*s.a[:-1]), S(p.a[0][:len(p.a[0]) - len(c)]))
    return mk('ew', s, p)


def has(s, p):
    """the string s contains p (a string, or a predicate on characters)"""
    if p.op == 'str':
        if p.a[0] == '':
            return TRUE
        if s.op == 'str':
            return B(p.a[0] in s.a[0])
    return mk('has', s, p)


# ---------------------------------------------------------------- sets and maps
def setadd(s, seq):
    """the set s with the elements of the sequence"""
    if seq is EMPTY:
        return s
    if s.op == 'setadd':
        return setadd(s.a[0], seqcat(s.a[1], seq))
    return mk('setadd', s, seq)


def contains(s, x):
    """membership in a set"""
    if s.op == 'setadd':
        return or_(contains(s.a[0], x), anyseq(s.a[1], [frozenset(lits(eq(elt(s.a[1]), x)))]))
    if s is EMPTY:
        return FALSE
    return mk('pred', 'contains', s, x)


def lits(a):
    b = True
    while a.op == 'not':
        a, b = a.a[0], not b
    return [(a, b)]


# ---------------------------------------------------------------- rebuilding after substitution
def rebuild(op, a):
    f = _RB.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def _rb_any(base, key):
    return anyseq(base, [frozenset(_norm(f)) for f in key if _norm(f) is not None])


def _norm(f):
    return apply_facts(f, {})


def _rb_compr(base, cases):
    out = []
    for f, e in cases:
        g = apply_facts(f, {})
        if g is not None:
            out.append((g, list(e)))
    return compr(base, out)


def _rb_is(x, path, var):
    return isv(x, path, var)


def _rb_lt(a, b):
    if a.op == 'int' and b.op == 'int':
        return B(a.a[0] < b.a[0])
    ty = _ty.get(a) or _ty.get(b)
    if ty:
        return lt(a, b, ty)
    return mk('lt', a, b)


_RB = {
    'app': app,
    'disp': lambda x, *r: S(str(x.a[0])) if x.op == 'int' and not r else mk('disp', x, *r),
    'adt': adt, 'fld': fld, 'cat': cat, 'trim': trim, 'snoc': snoc, 'seqcat': seqcat, 'compr': _rb_compr,
    'any': _rb_any, 'nil': nil, 'hd': hd, 'tl': tl, 'len': length, 'add': add, 'sub': sub, 'neg': neg,
    'not': not_, 'and': and_, 'is': _rb_is, 'eq': eq, 'lt': _rb_lt, 'sw': sw, 'ew': ew, 'has': has,
    'slen': slen, 'split': split, 'before': before, 'after': after,
    'setadd': setadd, 'chars': chars, 'at': at, 'pred': pred,
    'mul': lambda a, b, t: arith('mul', a, b, t), 'div': lambda a, b, t: arith('div', a, b, t),
    'rem': lambda a, b, t: arith('rem', a, b, t), 'band': lambda a, b, t: arith('and', a, b, t),
    'bor': lambda a, b, t: arith('or', a, b, t), 'bxor': lambda a, b, t: arith('xor', a, b, t),
    'shl': lambda a, b, t: arith('shl', a, b, t), 'shr': lambda a, b, t: arith('shr', a, b, t),
    'cast': lambda a, f, t: wrap(a.a[0], t) if a.op == 'int' else mk('cast', a, f, t),
}


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if t._s is not None:
        return t._s
    s = _show(t)
    if len(s) > 400:
        s = s[:400] + '…'
    t._s = s
    return s


def _show(t):
    op, a = t.op, t.a
    if op == 'int':
        return str(a[0])
    if op == 'str':
        return '"%s"' % a[0].replace('\n', '\\n')
    if op == 'adt':
        n = a[1] or a[0].split('::')[-1]
        if not a[2]:
            return n
        if len(a[2]) and a[2][0][0] == '0':
            return '%s(%s)' % (n, ', '.join(show(v) for _, v in a[2]))
        return '%s{%s}' % (n, ', '.join('%s: %s' % (k, show(v)) for k, v in a[2]))
    if op == 'tup':
        return '(%s)' % ', '.join(map(show, a))
    if op == 'fld':
        return '%s%s.%s' % (show(a[0]), (' as %s)' % a[1] if 0 else ('.' + a[1]) if a[1] else ''), a[2])
    if op in ('var',):
        return a[0]
    if op == 'phi':
        return 'phi[%s]' % a[1]
    if op == 'not':
        return '!' + show(a[0])
    if op == 'eq':
        return '%s == %s' % (show(a[0]), show(a[1]))
    if op == 'lt':
        return '%s < %s' % (show(a[0]), show(a[1]))
    if op == 'is':
        return '%s is %s' % (show(a[0]), a[2])
    if op == 'add':
        return '(%s + %s)' % (show(a[0]), show(a[1]))
    if op == 'cat':
        return ' ++ '.join(map(show, a))
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(show(x) if isinstance(x, Term) else str(x) for x in a[1:]))
    if op == 'ref':
        return '&mut %s%s' % (a[0], ''.join('.' + p[1] for p in a[1]))
    if op == 'compr':
        return '[%s]' % ' | '.join('%s%s' % (', '.join(map(show, e)),
                                              (' if ' + ' & '.join(('' if b else '!') + show(x) for x, b in f)) if f else '')
                                    for f, e in a[1]) + ' for elt in ' + show(a[0])
    if op == 'regex' and a[0].op == 'str':
        x = a[0].a[0]
        return '/%s/' % (x if len(x) < 14 else x[:5] + '..' + x[-5:])
    if op == 'elt':
        return 'elt'
    if op == 'any':
        return 'any(%s: %s)' % (show(a[0]), ' | '.join(' & '.join(('' if b else '!') + show(x) for x, b in f) for f in a[1]))

    def g(x):
        if isinstance(x, Term):
            return show(x)
        if isinstance(x, tuple):
            return '(%s)' % ', '.join(map(g, x))
        return str(x)
    return '%s(%s)' % (op, ', '.join(map(g, a)))
