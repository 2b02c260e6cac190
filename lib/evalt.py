"""Whether two terms really differ.

Two normalised terms that are not the same name may still denote equal values.  Before a difference is
reported, a valuation of the unknowns that agrees with the facts of the path and tells the terms apart is
looked for among small values; without one the difference is left undecided.  Only terms are evaluated here
(the laws of string, integer and sequence operations), never code."""
import random, time
from terms import *
import terms as T
import rx, funs
from pc import PC, _layout as LAYOUT


class NoValue(Exception):
    pass


POOL = ['', 'a', ' ', '~', '|', '~|', 'fuzzy', ' b', 'c ', 'x:y', 'msgid', '"', 'é', 'a,b', 'k : v ', ' fuzzy', 'no', '1',
        'a\tb c', '\u00a0x\t', 'a , b,,c\t', '\u000b', 'x: y : z', 'A~B', '-1', '+1', 'fuzzy, b', '\\\\n\\"', 'a\nb: c\n\nd:']
INTS = [0, 1, 2, 3, 7, 100]
NEGS = [-1, -2, -3, -7, -2 ** 63, 2 ** 63 - 1]


_lits = {}


def lits(t):
    """the texts a term mentions, the keys it looks up, the characters of its patterns and the lengths it asks for,
    in the order in which they are met"""
    r = _lits.get(t)
    if r is None:
        r = ss, ks, cs, ns, nums, qs = {}, {}, {}, {}, {}, {}
        if t.op == 'str':
            ss[t.a[0]] = None
        if t.op == 'regex' and t.a[0].op == 'str':
            for x in rx.samples(t.a[0].a[0]):
                ss[x] = None
        if t.op == 'mapget' and t.a[1].op == 'str':
            ks[t.a[1].a[0]] = None
        if t.op == 'charpred':
            for case in t.a[0]:
                for f, _ in case:
                    for x in T.find(f, lambda x: x.op == 'int'):
                        if 0 < x.a[0] < 0xd800:
                            cs[chr(x.a[0])] = None
        if t.op == 'charpred' or t.op == 'app' and 'trim' in t.a[0]:
            cs.update(dict.fromkeys('\t\r\u00a0\u2003'))
        if t.op == 'app' and t.a[0][:4] in ('str:', 'Stri'):
            for x in t.a[1:]:
                if isinstance(x, Term) and x.op == 'int' and 32 < x.a[0] < 0xd800:
                    cs[chr(x.a[0])] = None
        if t.op in ('lt', 'eq', 'add', 'sub', 'mul', 'div', 'rem', 'band', 'bor', 'bxor', 'shl', 'shr', 'ovf'):
            for x in t.a:
                if isinstance(x, Term) and x.op == 'int' and abs(x.a[0]) > 3:
                    nums[x.a[0]] = None
        if t.op == 'app' and t.a[0].startswith(('Iterator::', 'slice', 'Vec::')) or t.op == 'at':
            for x in t.a[2:]:
                if isinstance(x, Term) and x.op == 'int' and 1 < x.a[0] <= 300:
                    qs[x.a[0]] = None
        if t.op in ('lt', 'eq'):
            for x, y in (t.a[:2], t.a[1::-1]):
                if y.op == 'int' and 1 < y.a[0] <= 64 and T.find(x, lambda z: z.op == 'slen'):
                    qs[y.a[0]] = None
        if t.op == 'cast':
            w = funs.WIDTH.get(t.a[-1])
            if w and w < 64:
                nums[2 ** w] = nums[2 ** (w - 1)] = None
        if t.op == 'lt':
            for x, y in (t.a[:2], t.a[1::-1]):
                if y.op == 'int' and 8 < y.a[0] <= 1 << 21 and T.find(x, lambda z: z.op == 'len'):
                    ns[y.a[0]] = None
        for c in parts_of(t):
            for x, y in zip(r, lits(c)):
                x.update(y)
        _lits[t] = r
    return r


def parts_of(t):
    if t.op == 'charpred':
        return [f for case in t.a[0] for f, _ in case]
    return children(t)


_pool = {}


def pool_of(ts):
    r = {}, {}, {}, {}, {}, {}
    for t in ts:
        for x, y in zip(r, lits(t)):
            x.update(y)
    k = tuple(map(tuple, r))
    if k not in _pool:
        ss, ks, cs, ns, nums, qs = k
        near = sorted({y for x in nums for y in (x - 1, x, x + 1, 2 * x, -x, -x - 1) if abs(y) < 2 ** 64})
        _pool[k] = strings_of(ss) + POOL + headers_of(list(ks)), pieces_of(ss, cs, ks), list(ks), list(ns), near, list(qs)
    return _pool[k]


def pieces_of(ss, cs, ks):
    """what texts are put together of"""
    out = ['a', 'b', 'X', ' ', ':', '1', 'é', '\n']
    for s in ss:
        if len(s) <= 24:
            for w in (s, s.lower(), s.upper(), s.capitalize()):
                if w and w not in out:
                    out.append(w)
            if ':' in s or '\n' in s:
                out.append(s.strip())
    return out + [c for c in cs if c not in out]


def strings_of(ss):
    out = []
    for s in ss:
        if len(s) < 30:
            for w in (s, s + 'x', 'x' + s, ' ' + s + ' '):
                if w not in out:
                    out.append(w)
    return out


def headers_of(ks):
    """texts of headers with the entries that are looked up"""
    out = []
    for k in ks:
        out += ['%s: v' % k, '%s: a b\nX: b\n %s :c:d\n' % (k, k), 'X: y\n%s:\n' % k, 'X:1\nX:2\n%s:1' % k]
        out += ['%s: v\n%s:v' % (k, k), '%s:v\nX:y\n%s:w\n%s: v' % (k, k, k), '%s:\n%s:' % (k, k)]
        out += ['%s: v\nX:y\nz\n%s:w\nX: t ' % (k, j) for j in ks if j != k]
        out += ['%s:\n%s:w' % (k, j) for j in ks if j != k]
    return out * 3


STRCTX = {'cat': (0, 1, 2, 3, 4, 5, 6, 7, 8, 9), 'trim': (0,), 'sw': (0, 1), 'ew': (0, 1), 'has': (0,), 'chars': (0,), 'split': (0,),
          'find': (0,), 'before': (0,), 'after': (0,), 'strip': (0,), 'rematch': (1,), 'lines': (0,), 'capsiter': (1,), 'len': (0,)}
INTCTX = {'add': (0, 1), 'sub': (0, 1), 'mul': (0, 1), 'lt': (0, 1), 'div': (0, 1), 'rem': (0, 1), 'neg': (0,), 'cast': (0,), 'disp': (0,),
          'chr': (0,), 'ovf': (1, 2)}
SEQCTX = {'nil': (0,), 'hd': (0,), 'tl': (0,), 'compr': (0,), 'any': (0,), 'snoc': (0,), 'seqcat': (0, 1), 'strseq': (0,), 'elt': (0,),
          'slen': (0,), 'join': (0,)}


def fits(x, ty, w):
    return -2 ** (w - 1) <= x < 2 ** (w - 1) if ty[0] == 'i' else 0 <= x < 2 ** w


def of_arr(t):
    return t.op == 'at' and t.a[0].op == 'arr'


class Model(object):
    def __init__(self, pc, terms, rng):
        self.pc, self.rng = pc, rng
        self.kind = {}
        self.alias = {}
        self.signed = set()
        self.types = {}
        self.reset()
        all_ = list(terms) + [a for a, _ in pc.log] + list(pc.val)
        seen = set()
        for t in all_:
            self.scan(t, seen)
        for a, b in pc.log:
            if self.leaf(a):
                self.kind.setdefault(a, 'bool')
            if b and a.op == 'eq' and self.leaf(a.a[0]) and self.leaf(a.a[1]):
                self.alias[self.root(a.a[0])] = self.root(a.a[1])
                k = self.kind.get(a.a[0]) or self.kind.get(a.a[1])
                if k:
                    self.kind[a.a[0]] = self.kind[a.a[1]] = k
        self.pool, self.pieces, self.keys, self.lens, self.nums, self.sizes = pool_of(all_)
        self.blanks = [x for x in self.pieces if x != '\n' and not x.strip()]
        self.shapes = {}
        # several unknowns compared: take the kind of the other side
        for t in list(seen):
            if t.op == 'eq':
                x, y = t.a
                kx, ky = self.kind.get(x), self.kind.get(y)
                if kx is None and ky is None and self.leaf(x) and self.leaf(y):
                    self.kind[x] = self.kind[y] = 'int' if (T._ty.get(x) or T._ty.get(y)) in funs.WIDTH else 'str'
                elif kx is None and ky and self.leaf(x):
                    self.kind[x] = ky
                elif ky is None and kx and self.leaf(y):
                    self.kind[y] = kx
                elif kx is None and self.leaf(x) and y.op in ('cat', 'trim', 'str', 'before', 'after'):
                    self.kind[x] = 'str'
                elif ky is None and self.leaf(y) and x.op in ('cat', 'trim', 'before', 'after'):
                    self.kind[y] = 'str'
        for t, k in list(self.kind.items()):
            if t.op in ('hd', 'at') and t.a[0].op in ('var', 'fld', 'phi', 'app'):
                self.kind.setdefault(elt(t.a[0]), k)
            if t.op in ('app', 'fld'):
                self.shapes.setdefault(self.shape(t), k)

    def shape(self, t):
        """what applications of the same function, and the same fields of their results, have in common"""
        if t.op == 'app':
            return ('app', t.a[0])
        if t.op == 'fld':
            return ('fld', self.shape(t.a[0]), t.a[1], t.a[2])
        return t

    def kind_of(self, t):
        k = self.kind.get(t)
        if k is None and t.op in ('app', 'fld'):
            k = self.shapes.get(self.shape(t))
        return k

    def key(self, t):
        """Unknowns with the same key have the same value: a function applied to equal values, the same field of
        equal values.  An argument whose value is not known may be equal to any other."""
        op = t.op
        if op in ('var', 'phi', 'elt', 'opq'):
            return t
        if op == 'clos':
            return (op,)
        if op == 'fld':
            b = t.a[0]
            return (op, self.key(self.root(b)) if self.leaf(b) and b not in self.env else self.arg(b), t.a[1], t.a[2])
        return (op,) + tuple(self.arg(x) for x in t.a)

    def arg(self, x):
        if isinstance(x, Term):
            try:
                return self.ev(x)
            except (NoValue, RecursionError):
                return None
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x

    def settle(self, k, v):
        """the value of an unknown, the same as that of the others with its key"""
        self.touched.add(k)
        if k in self.vals:
            if self.vals[k] != v:
                raise NoValue('equal arguments, different facts')
        else:
            self.vals[k] = v
        return v

    def variant(self, x):
        """the variant of an unknown of a sum type; None when it is none of those that are asked for"""
        x = self.root(x)
        path, vs = self.types[x]
        k = ('variant', self.key(x))
        self.touched.add(k)
        v = self.pc.var.get(x)
        if v is not None and not self.env:
            return self.settle(k, v)
        if k in self.vals:
            return self.vals[k]
        l = LAYOUT.get(path)
        c = sorted(vs | set(l or ()), key=str) if l and len(l) <= 3 else sorted(vs, key=str) + [None]
        no = self.pc.nvar.get(x, ()) if not self.env else ()
        c = [w for w in c if w not in no]
        return self.settle(k, self.rng.choice(c) if c else None)

    def reset(self):
        self.vals = {}
        self.env = {}
        self.touched = set()
        self.memo = {}

    def root(self, t):
        while t in self.alias and self.alias[t] is not t:
            t = self.alias[t]
        return t

    def known_map(self, t):
        """a map built from the empty one"""
        while t.op in ('mapset', 'mapext', 'mapgroup', 'mapdel'):
            t = t.a[0]
        return t is EMPTY or t in self.env and (self.env[t] == () or self.env[t][:1] == ('map',))

    def m(self, t):
        v = self.ev(t)
        if v == ():
            return {}
        if not isinstance(v, tuple) or v[0] != 'map':
            raise NoValue('map %s' % show(t))
        return dict(v[1])

    def leaf(self, t):
        return t.op in ('var', 'fld', 'app', 'phi', 'peek', 'next', 'rawhd', 'rawtl', 'grp', 'caps', 'mapget', 'at', 'clos', 'reprep')

    def scan(self, t, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'is' and self.leaf(t.a[0]):
            p, vs = self.types.get(t.a[0], (t.a[1], frozenset()))
            self.types[t.a[0]] = (p, vs | {t.a[2]})
        for ctx, k in ((STRCTX, 'str'), (INTCTX, 'int'), (SEQCTX, 'seq')):
            if t.op in ctx:
                for i in ctx[t.op]:
                    if i < len(t.a) and isinstance(t.a[i], Term):
                        self.kind.setdefault(t.a[i], k)
        if t.op in ('add', 'sub', 'mul', 'div', 'rem', 'neg', 'ovf') and isinstance(t.a[-1], str) and t.a[-1][:1] == 'i':
            for x in t.a[:-1]:
                if isinstance(x, Term):
                    self.signed.add(x)
        if t.op == 'app' and t.a[0][:1] == 'i' and t.a[0].split('::')[0] in funs.WIDTH:
            for x in t.a[1:]:
                if isinstance(x, Term):
                    self.signed.add(x)
        if t.op == 'app':
            for x, k in zip(t.a[1:], funs.kinds(t.a[0])):
                if isinstance(x, Term):
                    self.kind.setdefault(x, k)
        if t.op == 'pred' and t.a[0] in ('ascii', 'eq_ignore_ascii_case'):
            for x in t.a[1:]:
                self.kind.setdefault(x, 'str')
        if t.op in ('not', 'and'):
            for x in t.a:
                if isinstance(x, Term) and self.leaf(x):
                    self.kind.setdefault(x, 'bool')
        if t.op == 'eq' and t.a[1].op in ('str', 'int'):
            self.kind.setdefault(t.a[0], t.a[1].op)
        for c in children(t):
            self.scan(c, seen)

    # ------------------------------------------------------------ leaves
    def get(self, t):
        if t in self.env:
            return self.env[t]
        v = self.pc.val.get(t)
        if v is not None and v is not t:
            return self.settle(self.key(t), self.ev(v))
        r = self.root(t)
        if r is not t:
            return self.get(r)
        if t in self.types:
            v = self.variant(t)
            if v is not None:
                path = self.types[t][0]
                l = LAYOUT.get(path)
                if l is None or v not in l:
                    return ('adt', v, (('?', ('tok', self.key(t))),))
                return ('adt', v, tuple((n, self.get(fld(t, v, n))) for n in sorted(l[v])))
        key = self.key(t)
        self.touched.add(key)
        if key in self.vals:
            return self.vals[key]
        k = self.kind_of(t)
        if k == 'str':
            from pc import dom_terms
            ds = dom_terms(t)
            if ds and ds[0] is t:
                l = self.pc.assignments((t,))
                v = self.rng.choice(l)[t].a[0] if l else ''
            else:
                v = self.text()
        elif k == 'int':
            lo, hi = self.pc.bounds(t)
            pool = INTS
            if t in self.signed or (T._ty.get(t) or '')[:1] == 'i':
                pool = INTS + NEGS
            if self.nums and self.rng.random() < 0.5:
                w = funs.WIDTH.get(T._ty.get(t) or '')
                pool = [x for x in self.nums if w is None or fits(x, T._ty[t], w)] + pool
                if not (t in self.signed or (T._ty.get(t) or '')[:1] == 'i'):
                    pool = [x for x in pool if x >= 0]
            if self.nums and self.rng.random() < 0.3:
                # a number that is related to one chosen before
                w = funs.WIDTH.get(T._ty.get(t) or '')
                l = [x for x in self.vals.values() if isinstance(x, int) and not isinstance(x, bool)]
                if l and w:
                    x, y = self.rng.choice(l), self.rng.choice(self.nums)
                    l = [z for z in (x ^ y, x + y, x - y) if fits(z, T._ty[t], w)]
                    pool = l or pool
            c = [x for x in pool if (lo is None or x >= lo) and (hi is None or x <= hi)]
            if lo is not None:
                c += [lo, lo + 1]
            if hi is not None:
                c += [hi]
            v = self.rng.choice(c or [0])
        elif k == 'bool':
            r = self.pc.decide(t)
            v = int(r) if r is not None and not self.env else self.rng.choice((0, 1))
        elif k == 'seq':
            n = self.rng.choice([0, 1, 1, 2])
            if self.sizes and self.rng.random() < 0.4:
                n = self.rng.choice(self.sizes) + self.rng.choice((0, 0, 1, 1, 2))
            if self.kind.get(elt(t)) != 'str':
                v = tuple(('tok', key, i) for i in range(n))
            elif n > 2:
                x, y = self.rng.choice((0.5, 0.9)), self.rng.choice(('', self.text()))
                v = tuple(y if self.rng.random() < x else self.text() for i in range(n))
            else:
                v = tuple(self.text() for i in range(n))
        else:
            v = ('tok', key)
        self.vals[key] = v
        return v

    def text(self):
        """some text: one of the pool, or one put together of what the terms mention"""
        g = self.rng
        x = g.random()
        if x < 0.5:
            return g.choice(self.pool)
        if self.lens and x < 0.6:
            n = max(0, g.choice(self.lens) + g.choice((-1, 0, 1, 1)))
            c = g.choice(('a', 'a', 'a', '\u20ac', 'a\xe9'))
            return 'a' * n if c == 'a' else c * (n // 3 + 2)
        if self.keys and x < 0.8:
            ls = []
            n = g.choice((1, 1, 2, 3))
            if self.sizes and g.random() < 0.2:
                n += g.choice(self.sizes)
            for _ in range(n):
                k = g.choice(self.keys) if g.random() < 0.7 else g.choice(self.pieces)
                if g.random() < 0.3:
                    k = g.choice((k.lower(), k.upper(), g.choice(self.blanks) + k, k + g.choice(self.blanks), k + g.choice(self.pieces) + g.choice(self.pieces)))
                v = k + g.choice((':', ': ')) + self.some(3)
                if ls and g.random() < 0.3:
                    # the same line again, the same key or the same value
                    i, y = g.random(), ls[-1].partition(':')
                    v = ls[-1] if i < 0.4 else y[0] + ':' + v.partition(':')[2] if i < 0.7 else k + ':' + y[2]
                ls.append(v)
            return '\n'.join(ls)
        return self.some(5)

    def some(self, n):
        return ''.join(self.rng.choice(self.pieces) for _ in range(self.rng.randint(0, n)))

    def truth(self, t):
        """an uninterpreted boolean"""
        r = self.pc.decide(t)
        k = self.key(t)
        self.touched.add(k)
        if r is not None and not self.env:
            return self.settle(k, int(r))
        if k not in self.vals:
            self.vals[k] = self.rng.choice((0, 1))
        return self.vals[k]

    def s(self, t):
        v = self.ev(t)
        if not isinstance(v, str):
            raise NoValue('string %s' % show(t))
        return v

    def chp(self, p):
        """a pattern that is a predicate on characters, as a function; None for a string"""
        if p.op == 'ws':
            return lambda c: c in RUST_WS
        if p.op != 'charpred':
            return None
        e = T.mk('chr_elt')

        def f(c):
            saved = self.env.get(e)
            self.env[e] = ord(c)
            try:
                return any(all(self.ev(a) == int(b) for a, b in case) for case in p.a[0])
            finally:
                if saved is None:
                    self.env.pop(e, None)
                else:
                    self.env[e] = saved
        return f

    def i(self, t):
        v = self.ev(t)
        if isinstance(v, bool) or not isinstance(v, int):
            raise NoValue('integer %s' % show(t))
        return v

    def q(self, t):
        v = self.ev(t)
        if not isinstance(v, tuple) or funs.tagged(v):
            raise NoValue('sequence %s' % show(t))
        return v

    # ------------------------------------------------------------ evaluation
    def ev(self, t):
        """the value of a term; what was found is kept with the unknowns it came from"""
        if t.op in ('int', 'str'):
            return t.a[0]
        if self.env:
            return self.env[t] if t in self.env else self.ev_(t)
        r = self.memo.get(t)
        if r is None:
            outer, self.touched = self.touched, set()
            try:
                r = self.ev_(t), None, self.touched
            except NoValue as x:
                r = None, x, self.touched
            finally:
                outer |= self.touched
                self.touched = outer
            if not self.env:
                self.memo[t] = r
        else:
            self.touched |= r[2]
        if r[1] is not None:
            raise r[1]
        return r[0]

    def forget(self, ks):
        """the unknowns are to be chosen again"""
        for k in ks:
            del self.vals[k]
        self.memo = {t: r for t, r in self.memo.items() if r[2].isdisjoint(ks)}

    def ev_(self, t):
        op, a = t.op, t.a
        if op == 'opq':
            raise NoValue('opaque')
        if op == 'adt':
            return ('adt', a[1], tuple((n, self.ev(x)) for n, x in a[2]))
        if op in ('tup', 'arr'):
            return ('adt', '()', tuple(self.ev(x) for x in a))
        if op == 'not':
            return 1 - self.i(a[0])
        if op == 'and':
            return int(all(self.ev(x) == 1 for x in a))
        if op == 'eq':
            return int(self.ev(a[0]) == self.ev(a[1]))
        if op == 'is':
            v = self.ev(a[0]) if a[0].op in ('adt', 'hd', 'elt', 'tl', 'mapget') or a[0] in self.env or of_arr(a[0]) else None
            if v is None and a[0].op == 'app' and funs.get(a[0].a[0]):
                v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == 'adt':
                return int(v[1] == a[2])
            if self.root(a[0]) in self.types:
                return int(self.variant(a[0]) == a[2])
            return self.truth(t)
        if op == 'lt':
            return int(self.i(a[0]) < self.i(a[1]))
        if op in ('add', 'sub', 'mul'):
            x, y = self.i(a[0]), self.i(a[1])
            return wrapi(x + y if op == 'add' else x - y if op == 'sub' else x * y, a[2])
        if op in ('div', 'rem', 'band', 'bor', 'bxor', 'shl', 'shr'):
            x, y = self.i(a[0]), self.i(a[1])
            r = arith({'band': 'and', 'bor': 'or', 'bxor': 'xor'}.get(op, op), I(x), I(y), a[2])
            if r.op != 'int':
                raise NoValue(op)
            return r.a[0]
        if op == 'neg':
            return wrapi(-self.i(a[0]), a[1])
        if op == 'cast':
            return wrapi(self.i(a[0]), a[2])
        if op == 'ovf':
            x, y = self.i(a[1]), self.i(a[2])
            if a[0] in ('div', 'rem'):
                return int(y == -1 and a[3].startswith('i') and wrapi(-x, a[3]) != -x)
            m = {'add': x + y, 'sub': x - y, 'mul': x * y, 'neg': -x}[a[0]]
            return int(wrapi(m, a[3]) != m)
        if op == 'cat':
            return ''.join(self.s(x) for x in a)
        if op == 'trim':
            return rtrim(self.s(a[0]), a[1], a[2])
        if op in ('sw', 'ew'):
            x, p = self.s(a[0]), a[1]
            f = self.chp(p)
            if f:
                return int(bool(x) and f(x[0] if op == 'sw' else x[-1]))
            p = self.s(p)
            return int(x.startswith(p) if op == 'sw' else x.endswith(p))
        if op == 'has':
            x = self.s(a[0])
            f = self.chp(a[1])
            if f:
                return int(any(f(c) for c in x))
            return int(self.s(a[1]) in x)
        if op in ('slice', 'slbad'):
            x = self.s(a[0]).encode('utf-8', 'surrogatepass')
            lo = self.i(a[1])
            hi = len(x) if a[2].op == 'end' else self.i(a[2])
            bad = not 0 <= lo <= hi <= len(x) or any(0 < i < len(x) and x[i] & 0xc0 == 0x80 for i in (lo, hi))
            if op == 'slbad':
                return int(bad)
            if bad:
                raise NoValue('slice')
            return x[lo:hi].decode('utf-8', 'surrogatepass')
        if op == 'chr':
            return chr(self.i(a[0]))
        if op == 'disp':
            v = self.ev(a[0])
            if isinstance(v, (int, str)):
                return str(v)
            return '<%s>' % (v,)
        if op == 'strip':
            x, p = self.s(a[0]), self.s(a[1])
            return x[len(p):] if a[2] == 'pre' else x[:len(x) - len(p)]
        if op in ('before', 'after', 'find'):
            x = self.s(a[0])
            f = self.chp(a[1])
            if f:
                i = next((j for j, c in enumerate(x) if f(c)), -1)
                n = 1
            else:
                p = self.s(a[1])
                i, n = x.find(p), len(p)
            if i < 0:
                raise NoValue('not found')
            return x[:i] if op == 'before' else x[i + n:] if op == 'after' else len(x[:i].encode())
        if op == 'len':
            v = self.ev(a[0])
            if isinstance(v, str):
                return len(v.encode())
            return len(self.q(a[0]))
        if op == 'slen':
            return len(self.q(a[0]))
        # sequences
        if op == 'seq0':
            return ()
        if op == 'chars':
            return tuple(ord(c) for c in self.s(a[0]))
        if op == 'split':
            x = self.s(a[0])
            f = self.chp(a[1])
            if f:
                out, cur = [], ''
                for c in x:
                    if f(c):
                        out.append(cur)
                        cur = ''
                    else:
                        cur += c
                return tuple(out + [cur])
            p = self.s(a[1])
            if p == '':
                raise NoValue('split')
            return tuple(x.split(p))
        if op == 'lines':
            x = self.s(a[0]).split('\n')
            if x[-1] == '':
                x.pop()
            return tuple(l[:-1] if l.endswith('\r') else l for l in x)
        if op == 'snoc':
            return self.q(a[0]) + (self.ev(a[1]),)
        if op == 'seqcat':
            return self.q(a[0]) + self.q(a[1])
        if op == 'strseq':
            l = self.q(a[0])
            if not all(isinstance(x, str) for x in l):
                raise NoValue('strseq')
            return ''.join(l)
        if op == 'join':
            l = self.q(a[0])
            if not all(isinstance(x, str) for x in l):
                raise NoValue('join')
            return self.s(a[1]).join(l)
        if op == 'nil':
            return int(len(self.q(a[0])) == 0)
        if op in ('hd', 'tl'):
            l = self.q(a[0])
            if not l:
                raise NoValue('empty')
            return l[0] if op == 'hd' else l[1:]
        if op == 'elt':
            return self.get(t)
        if op in ('compr', 'any'):
            e = elt(a[0])
            out, found = [], 0
            saved = self.env.get(e)
            vs = self.vals
            for x in self.q(a[0]):
                self.env[e] = x
                self.vals = dict(vs)
                for c in a[1]:
                    f = c if op == 'any' else c[0]
                    if all(self.ev(p) == int(b) for p, b in f):
                        if op == 'any':
                            found = 1
                        else:
                            out += [self.ev(y) for y in c[1]]
                        break
            self.vals = vs
            if saved is None:
                self.env.pop(e, None)
            else:
                self.env[e] = saved
            return found if op == 'any' else tuple(out)
        if op == 'mapget' and self.known_map(a[0]):
            d, k = self.m(a[0]), self.ev(a[1])
            return ('adt', 'Some', (('0', d[k]),)) if k in d else ('adt', 'None', ())
        if op == 'mapor' and self.known_map(a[0]):
            d, k = self.m(a[0]), self.ev(a[1])
            return d[k] if k in d else self.ev(a[2])
        if op in ('mapset', 'mapext', 'mapgroup') and self.known_map(a[0]):
            d = self.m(a[0])
            if op == 'mapset':
                d[self.ev(a[1])] = self.ev(a[2])
            else:
                for x in self.q(a[1]):
                    if not (isinstance(x, tuple) and x[0] == 'adt' and x[1] == '()' and len(x[2]) == 2):
                        raise NoValue('pair')
                    k, v = x[2]
                    d[k] = v if op == 'mapext' else d.get(k, ()) + (v,)
            return ('map', tuple(sorted(d.items(), key=repr))) if d else ()
        if op == 'mapiter' and self.known_map(a[0]):
            return tuple(('adt', '()', (k, v)) for k, v in sorted(self.m(a[0]).items(), key=repr))
        if op == 'setadd':
            v = self.ev(a[0])
            new = set(self.q(a[1]))
            if v == () or isinstance(v, tuple) and v[:2] == ('set', ()):
                new |= set(v[2] if v else ())
                return ('set', (), tuple(sorted(new, key=str))) if new else ()
            return ('set', v, tuple(sorted(new, key=str)))
        if op == 'pred':
            if a[0] == 'ws':
                v = self.ev(a[1])
                return int(v in RUST_WS) if isinstance(v, str) else int(chr(self.i(a[1])) in RUST_WS)
            if a[0] == 'ascii':
                return int(all(ord(c) < 128 for c in self.s(a[1])))
            if a[0] == 'contains':
                v = self.ev(a[1])
                if isinstance(v, tuple) and (not v or v[0] not in ('tok', 'adt')):
                    x = self.ev(a[2])
                    l = v[2] if v and v[0] == 'set' else v
                    if x in l:
                        return 1
                    if not v or v[0] != 'set' or v[1] == ():
                        return 0
                return self.truth(t)
            f = funs.PRED.get(a[0])
            if f:
                try:
                    return int(f(*[self.ev(x) for x in a[1:]]))
                except (funs.Unknown, TypeError, ValueError):
                    raise NoValue(a[0])
            if a[0].startswith('char.'):
                raise NoValue(a[0])
            return self.truth(t)
        if op == 'rematch' and a[0].op == 'regex' and a[0].a[0].op == 'str':
            try:
                return int(rx.match(a[0].a[0].a[0], self.s(a[1])) is not None)
            except rx.Unsupported:
                raise NoValue('regex')
        if op == 'capsiter' and a[0].op == 'regex' and a[0].a[0].op == 'str':
            x = self.s(a[1])
            try:
                return tuple(('caps', tuple(None if g is None else x[g[0]:g[1]] for g in m)) for m in rx.find_iter(a[0].a[0].a[0], x))
            except rx.Unsupported:
                raise NoValue('regex')
        if op in ('hasgrp', 'grp') and a[0].op in ('elt', 'hd', 'at'):
            v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == 'caps':
                g = v[1][a[1]] if a[1] < len(v[1]) else None
                if op == 'hasgrp':
                    return int(g is not None)
                if g is None:
                    raise NoValue('no group')
                return g
        if op in ('hasgrp', 'grp') and a[0].op == 'caps':
            c = a[0]
            if c.a[0].op == 'regex' and c.a[0].a[0].op == 'str':
                x = self.s(c.a[1])
                try:
                    m = rx.match(c.a[0].a[0].a[0], x)
                except rx.Unsupported:
                    raise NoValue('regex')
                if m is None:
                    raise NoValue('no match')
                g = m[a[1]] if a[1] < len(m) else None
                if op == 'hasgrp':
                    return int(g is not None)
                if g is None:
                    raise NoValue('no group')
                return x[g[0]:g[1]]
        if op == 'reprep':
            return self.reprep(t)
        if op == 'mapcell' or op in ('mapget', 'mapor', 'mapiter') and a[0].op in ('mapcell', 'mapset', 'mapext', 'mapgroup', 'mapdel'):
            raise NoValue(op)
        if is_bool(t) or op == 'hasgrp':
            return self.truth(t)
        if op == 'fld':
            b = a[0]
            r = b
            while r.op == 'fld' and r not in self.env:
                r = r.a[0]
            if r in self.env or of_arr(r) or b.op not in ('var', 'fld', 'app', 'phi', 'peek', 'rawhd', 'next') or b.op == 'app' and funs.get(b.a[0]):
                v = self.ev(b)
                if isinstance(v, tuple) and v and v[0] == 'adt':
                    if v[1] == '()':
                        return v[2][int(a[2])]
                    for n, x in v[2]:
                        if n == a[2]:
                            return x
                    raise NoValue('field')
        if op == 'app':
            f = funs.get(a[0])
            if f and t not in self.env:
                args = [self.chp(x) or self.ev(x) if isinstance(x, Term) else x for x in a[1:]]
                try:
                    return f(*args)
                except (funs.Unknown, TypeError, ValueError, IndexError):
                    raise NoValue(a[0])
        if of_arr(t):
            l, i = a[0].a, self.i(a[1])
            if not 0 <= i < len(l):
                raise NoValue('index')
            return self.ev(l[i])
        if op == 'at' and a[0].op not in ('var', 'fld', 'phi'):
            l, i = self.q(a[0]), self.i(a[1])
            if not 0 <= i < len(l):
                raise NoValue('index')
            return l[i]
        return self.get(t)

    def reprep(self, t):
        kind, re_, s, cases = t.a
        try:
            limit = {'replace_all': 0, 'replace': 1}[kind] if kind in ('replace_all', 'replace') else int(kind[8:])
        except ValueError:
            raise NoValue(kind)
        if re_.op != 'regex':
            raise NoValue('regex')
        x = self.s(s)
        p = re_.a[0].a[0]
        out, at = [], 0
        try:
            ms = list(rx.find_iter(p, x))[:limit or None]
        except rx.Unsupported:
            raise NoValue('regex')
        if isinstance(cases, Term):
            r = self.s(cases)
            if '$' in r:
                raise NoValue('replacement')
            cases = (((), (cases,)),)
        k = T.mk('capsvar', re_)
        for m in ms:
            out.append(x[at:m[0][0]])
            at = m[0][1]
            env = {}
            for i, g in enumerate(m):
                env[T.mk('grp', k, i)] = S(x[g[0]:g[1]]) if g is not None else T.mk('opq', 'no group', 0)
                env[T.mk('hasgrp', k, i)] = B(g is not None)
            done = False
            for f, e in cases:
                if all(self.i(subst(p_, env)) == int(b) for p_, b in f):
                    out.append(self.s(subst(e[0], env)))
                    done = True
                    break
            if not done:
                raise NoValue('replacement')
        out.append(x[at:])
        return ''.join(out)


ROUNDS = 30


class Fixed(Model):
    """A model in which nothing is chosen: every value follows from those given."""

    def __init__(self, env):
        Model.__init__(self, PC(), (), random.Random(1))
        self.env.update(env)

    def get(self, t):
        if t in self.env:
            return self.env[t]
        r = self.root(t)
        if r is t:
            raise NoValue('not given: %s' % show(t)[:200])
        return self.get(r)

    def truth(self, t):
        raise NoValue('not given: %s' % show(t)[:200])

    def variant(self, t):
        raise NoValue('not given: %s' % show(t)[:200])


class Given(Fixed):
    """A model of given values in which functions that are not described give names of their results, unless a rule says
    more, and streams are tuples ('lines', items)."""

    def __init__(self, env, rules):
        Fixed.__init__(self, env)
        self.rules = rules

    def arg_(self, x):
        if not isinstance(x, Term):
            return x
        try:
            return self.ev(x)
        except NoValue:
            return x

    def ev_(self, t):
        op, a = t.op, t.a
        if op in ('peek', 'next'):
            v = self.ev(a[0])
            if v[:1] != ('lines',):
                raise NoValue('stream %s' % show(t))
            if op == 'next':
                return ('lines', v[1][1:])
            return funs.some(v[1][0]) if v[1] else ('adt', 'None', ())
        if op == 'app' and a[0] in self.rules:
            return self.rules[a[0]](*[self.arg_(x) for x in a[1:]])
        if op == 'app' and not funs.get(a[0]):
            return ('free', a[0]) + tuple(self.arg_(x) for x in a[1:])
        if op in ('is', 'fld'):
            v = self.ev(a[0])
            if isinstance(v, tuple) and v[:1] == ('free',) and op == 'fld':
                return ('free', op, v) + a[1:]
            if not isinstance(v, tuple) or v[:1] != ('adt',):
                raise NoValue('%s of %s' % (op, show(a[0])[:100]))
            if op == 'is':
                return int(v[1] == a[2])
            if v[1] == '()':
                return v[2][int(a[2])]
            for n, x in v[2]:
                if n == a[2]:
                    return x
            raise NoValue('field %s' % a[2])
        return Fixed.ev_(self, t)


def first_broken(m, facts):
    """the first fact the valuation does not agree with; the unknowns it depends on are in m.touched"""
    for n, (a, b) in enumerate(facts):
        m.touched = set()
        m.env = {}
        try:
            good = m.ev(a) == int(b)
        except (NoValue, RecursionError):
            good = False
        if not good:
            return n
    return len(facts)


def agrees(m, pc):
    """Whether the valuation agrees with the facts.  The unknowns of the first fact it breaks are chosen again, a few
    times, and the choice is kept unless it breaks an earlier one."""
    at = first_broken(m, pc.log)
    for n in range(ROUNDS):
        if at == len(pc.log):
            return True
        l = sorted((k for k in m.touched if k in m.vals), key=repr)
        if not l:
            return False
        kept, touched, memo = dict(m.vals), m.touched, m.memo
        m.forget([k for k in l if m.rng.random() < 0.6] or [m.rng.choice(l)])
        now = first_broken(m, pc.log)
        if now >= at:
            at = now
        else:
            m.vals, m.touched, m.memo = kept, touched, memo
    return at == len(pc.log)


# What the search for examples may cost in one run; past it only a few valuations are tried, and a difference
# without an example is undecided.
PATIENCE = 150
BRIEF = 15      # once the property is known to be broken
patience = [PATIENCE]
spent = [0.0]


def willing():
    """whether to look for more examples"""
    return patience[0] != BRIEF or spent[0] < BRIEF


def tries_of(n):
    return n if spent[0] < patience[0] else max(n // 20, 1)


def differ(t1, t2, pc, tries=400):
    """A valuation that tells the terms apart under the facts: its description, or None."""
    if t1.opq or t2.opq or not feasible(pc, tries):
        return None
    t0 = time.time()
    try:
        rng = random.Random(12345)
        m = Model(pc, (t1, t2), rng)
        for _ in range(tries_of(tries)):
            m.reset()
            try:
                if not agrees(m, pc):
                    continue
                a, b = m.ev(t1), m.ev(t2)
            except (NoValue, RecursionError):
                continue
            if a != b:
                return ', '.join('%s = %r' % (show(k), v) for k, v in sorted(((k, v) for k, v in m.vals.items() if isinstance(k, Term)),
                                                                             key=lambda x: x[0].h)
                                 if isinstance(v, (str, int)))[:300] or 'any'
        return None
    finally:
        spent[0] += time.time() - t0


_feasible = {}


def feasible(pc, tries=400):
    """whether a valuation agrees with the facts: not known when none is found"""
    r, n = _feasible.get(pc.log, (False, 0))
    if not r and n < tries:
        r = search(pc, tries)
        _feasible[pc.log] = r, tries
    return r


def search(pc, tries):
    t0 = time.time()
    try:
        rng = random.Random(54321)
        m = Model(pc, (), rng)
        for _ in range(tries_of(tries)):
            m.reset()
            try:
                if agrees(m, pc):
                    return True
            except (NoValue, RecursionError):
                continue
        return False
    finally:
        spent[0] += time.time() - t0
