"""Path conditions: the facts about terms that hold on a path."""
from terms import *
from terms import find as T_find


_domain = [lambda t: None]
_doms = {}


def set_domain(f):
    """f(term) -> the strings a term can be, when they are known to be few."""
    _domain[0] = f
    _doms.clear()


def dom_terms(t):
    r = _doms.get(t)
    if r is None:
        if t.op in ('int', 'str', 'var', 'phi', 'opq'):
            r = ()
        elif _domain[0](t) is not None:
            r = (t,)
        else:
            l = []
            for c in children(t):
                for x in dom_terms(c):
                    if x not in l:
                        l.append(x)
            r = tuple(l)
        _doms[t] = r
    return r


COUNTERS = set()    # fields that count lines (set by World)


def counter(t):
    """a number of turns, lines or elements: it starts small and goes up by a constant"""
    while t.op == 'add' and t.a[1].op == 'int':
        t = t.a[0]
    return t.op in ('phi', 'slen', 'len', 'find') or t.op == 'fld' and t.a[2] in COUNTERS


class PC(object):
    """Facts; copied on write."""
    __slots__ = ('atoms', 'var', 'nvar', 'val', 'nval', 'log', 'memo', 'canons')

    def __init__(self, o=None):
        self.memo = self.canons = None
        if o is None:
            self.atoms, self.var, self.nvar, self.val, self.nval, self.log = {}, {}, {}, {}, {}, ()
        else:
            self.atoms, self.var, self.nvar, self.val, self.nval = (dict(o.atoms), dict(o.var), dict(o.nvar),
                                                                     dict(o.val), dict(o.nval))
            self.log = o.log

    def copy(self):
        return PC(self)

    # ------------------------------------------------------------ queries
    def decide(self, t):
        """True, False or None"""
        if t.op == 'int':
            return t.a[0] != 0
        op = t.op
        if op == 'not':
            r = self.decide(t.a[0])
            return None if r is None else not r
        if op == 'and':
            rs = [self.decide(x) for x in t.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        r = self.atoms.get(t)
        if r is not None:
            return r
        ds = dom_terms(t)
        if ds and len(ds) <= 2:
            rs = set()
            for m in self.assignments(ds):
                x = subst(t, m)
                rs.add((x.a[0] != 0) if x.op == 'int' else None)
            if len(rs) == 1 and None not in rs:
                return rs.pop()
        if op == 'is':
            x, _, v = t.a
            k = self.var.get(x)
            if k is not None:
                return k == v
            if v in self.nvar.get(x, ()):
                return False
            return None
        if op == 'eq':
            a, b = t.a
            if b.op in ('int', 'str'):
                return self._eqc(a, b)
            ra, rb = self.value(a), self.value(b)
            if ra is not a or rb is not b:
                r = eq(ra, rb)
                if r is not t:
                    return self.decide(r)
            p, q = self.atoms.get(mk('lt', a, b)), self.atoms.get(mk('lt', b, a))
            if p or q:
                return False
            if p is False and q is False:
                return True
            return None
        if op == 'lt':
            p, q = self.atoms.get(eq(t.a[0], t.a[1])), self.atoms.get(mk('lt', t.a[1], t.a[0]))
            if p or q:
                return False
            if p is False and q is False:
                return True
            lo1, hi1 = self.bounds(t.a[0])
            lo2, hi2 = self.bounds(t.a[1])
            if hi1 is not None and lo2 is not None and hi1 < lo2:
                return True
            if lo1 is not None and hi2 is not None and lo1 >= hi2:
                return False
            return None
        if op == 'ovf':
            return self._ovf(*t.a)
        if op == 'nil':
            lo, hi = self.bounds(mk('slen', t.a[0]))
            if lo is not None and lo > 0:
                return False
            if hi == 0:
                return True
        # predicates on a term whose value is known, or is one of a few
        subj = t.a[0] if t.a and isinstance(t.a[0], Term) else None
        if subj is not None and op in ('sw', 'ew', 'has', 'nil', 'any', 'pred', 'rematch'):
            v = self.val.get(subj)
            if v is not None:
                r = subst(t, {subj: v})
                if r.op == 'int':
                    return r.a[0] != 0
            if op in ('sw', 'ew', 'has'):
                return self._strfacts(t, subj)
        return None

    def _ovf(self, k, a, b, ty):
        lo, hi = RANGES.get(ty, (None, None))
        if lo is None:
            return None
        l1, h1 = self.bounds(a)
        l2, h2 = self.bounds(b)
        if None in (l1, h1, l2, h2):
            l1, h1 = lo if l1 is None else l1, hi if h1 is None else h1
            l2, h2 = lo if l2 is None else l2, hi if h2 is None else h2
        if k == 'add':
            l, h = l1 + l2, h1 + h2
        elif k == 'sub':
            l, h = l1 - h2, h1 - l2
        elif k == 'mul':
            c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            l, h = min(c), max(c)
        else:
            return None
        if lo <= l and h <= hi:
            return False
        if h < lo or l > hi:
            return True
        if k == 'add' and ty in ('usize', 'u64', 'i64', 'isize', 'u128', 'i128') and b.op == 'int' and 0 <= b.a[0] <= 16 and counter(a):
            return False    # a counter that goes up by a constant: 2^59 turns cannot happen
        return None

    def _strfacts(self, t, s):
        """what other facts about the same string say"""
        op, p = t.op, t.a[1]
        if p.op != 'str':
            return None
        p = p.a[0]
        if S('') in self.nval.get(s, ()) and False:
            return None
        for a, b in self.atoms.items():
            if a.op in ('sw', 'ew', 'has') and a.a[0] is s and a.a[1].op == 'str':
                q = a.a[1].a[0]
                if b:
                    if op == 'sw' and a.op == 'sw':
                        if q.startswith(p):
                            return True
                        if not p.startswith(q):
                            return False
                    if op == 'ew' and a.op == 'ew':
                        if q.endswith(p):
                            return True
                        if not p.endswith(q):
                            return False
                    if op == 'has' and p in q:
                        return True
                else:
                    if op == 'sw' and a.op == 'sw' and p.startswith(q):
                        return False
                    if op == 'ew' and a.op == 'ew' and p.endswith(q):
                        return False
                    if a.op == 'has' and q in p:
                        return False
        return None

    def _eqc(self, a, c):
        v = self.val.get(a)
        if v is not None:
            return v is c
        if c in self.nval.get(a, ()):
            return False
        if a.op == 'add' and c.op == 'int':
            return None
        if c.op == 'int':
            lo, hi = self.bounds(a)
            if lo is not None and c.a[0] < lo or hi is not None and c.a[0] > hi:
                return False
        if c.op == 'str':
            for x, b in self.atoms.items():
                if x.op in ('sw', 'ew', 'has') and x.a[0] is a and x.a[1].op == 'str':
                    r = {'sw': sw, 'ew': ew, 'has': has}[x.op](c, x.a[1])
                    if r.op == 'int' and (r.a[0] != 0) != b:
                        return False
        return None

    def value(self, t):
        return self.val.get(t, t)

    def assignments(self, ds):
        """The values of terms of known domain that agree with the facts."""
        out = [{}]
        for d in ds:
            v = self.val.get(d)
            vs = [v] if v is not None else [S(x) for x in _domain[0](d) if S(x) not in self.nval.get(d, ())]
            out = [merge(m, d, x) for m in out for x in vs]
        res = []
        facts = [(a, b) for a, b in self.atoms.items() if dom_terms(a) and all(x in ds for x in dom_terms(a))]
        for m in out:
            good = True
            for a, b in facts:
                x = subst(a, m)
                if x.op == 'int' and (x.a[0] != 0) != b:
                    good = False
                    break
            if good:
                res.append(m)
        return res

    def bounds(self, t):
        """interval of an integer term, from the facts and its shape"""
        if t.op == 'int':
            return t.a[0], t.a[0]
        v = self.val.get(t)
        if v is not None and v.op == 'int':
            return v.a[0], v.a[0]
        lo = hi = None
        if t.op in ('len', 'find', 'ord', 'slen'):
            lo = 0
            hi = None if t.op == 'ord' else 2 ** 48
            if t.op == 'slen':
                e = nil(t.a[0])
                e = not self.atoms[e.a[0]] if e.op == 'not' and e.a[0] in self.atoms else self.atoms.get(e)
                lo, hi = (0, 0) if e else (0, hi) if e is None else (1, hi)
        if t.op == 'cast':
            l0, h0 = self.bounds(t.a[0])
            r = RANGES.get(t.a[2], (None, None))
            if l0 is not None and h0 is not None and r[0] is not None and r[0] <= l0 and h0 <= r[1]:
                lo, hi = l0, h0
            else:
                f = RANGES.get(t.a[1], (None, None))
                if None not in f and None not in r and r[0] <= f[0] and f[1] <= r[1]:
                    lo, hi = f
                    if l0 is not None:
                        lo = max(lo, l0)
                    if h0 is not None:
                        hi = min(hi, h0)
                elif r[0] is not None:
                    lo, hi = r
        if t.op == 'add' and t.a[1].op == 'int':
            l0, h0 = self.bounds(t.a[0])
            c = t.a[1].a[0]
            r = RANGES.get(t.a[2], (None, None))
            if l0 is not None and h0 is not None and r[0] is not None and l0 + c >= r[0] and h0 + c <= r[1]:
                lo, hi = l0 + c, h0 + c
        if t.op == 'sub' and t.a[0].op == 'int':
            l0, h0 = self.bounds(t.a[1])
            c = t.a[0].a[0]
            r = RANGES.get(t.a[2], (None, None))
            if l0 is not None and h0 is not None and r[0] is not None and c - h0 >= r[0] and c - l0 <= r[1]:
                lo, hi = c - h0, c - l0
        if t.op == 'div' and t.a[1].op == 'int' and t.a[1].a[0] > 0:
            l0, h0 = self.bounds(t.a[0])
            if l0 is not None and l0 >= 0:
                lo = l0 // t.a[1].a[0]
                if h0 is not None:
                    hi = h0 // t.a[1].a[0]
        for a, b in self.atoms.items():
            if a.op == 'lt' and a.a[0] is t and a.a[1].op == 'int':
                c = a.a[1].a[0]
                if b:
                    hi = c - 1 if hi is None else min(hi, c - 1)
                else:
                    lo = c if lo is None else max(lo, c)
            elif a.op == 'lt' and a.a[1] is t and a.a[0].op == 'int':
                c = a.a[0].a[0]
                if b:
                    lo = c + 1 if lo is None else max(lo, c + 1)
                else:
                    hi = c if hi is None else min(hi, c)
        nv = self.nval.get(t)
        if nv:
            while lo is not None and I(lo) in nv:
                lo += 1
            while hi is not None and I(hi) in nv:
                hi -= 1
        return lo, hi

    # ------------------------------------------------------------ assumptions
    def assume(self, t, b):
        """A path condition with the fact, or None when it contradicts."""
        r = self.decide(t)
        if r is not None:
            return self if r == b else None
        n = self.copy()
        return n if n._add(t, b) else None

    def _add(self, t, b):
        while t.op == 'not':
            t, b = t.a[0], not b
        r = self.decide(t)
        if r is not None:
            return r == b
        if t.op == 'and':
            if b:
                return all(self._add(x, True) for x in t.a)
            rest = [x for x in t.a if self.decide(x) is not True]
            if len(rest) == 1:
                return self._add(rest[0], False)
            self.atoms[t] = False
            self.log += ((t, b),)
            return True
        self.log += ((t, b),)
        self.atoms[t] = b
        if t.op == 'is':
            x, p, v = t.a
            if b:
                self.var[x] = v
            else:
                self.nvar[x] = self.nvar.get(x, frozenset()) | {v}
                if p in BINARY:
                    o = [w for w in BINARY[p] if w != v][0]
                    self.var[x] = o
        elif t.op == 'eq' and t.a[1].op in ('int', 'str'):
            x, c = t.a
            if b:
                self.val[x] = c
                for a, v in list(self.atoms.items()):
                    if a is not t and occurs(x, a):
                        r = subst(a, {x: c})
                        if r.op == 'int' and (r.a[0] != 0) != v:
                            return False
            else:
                self.nval[x] = self.nval.get(x, frozenset()) | {c}
        elif t.op == 'hasgrp' and b and t.a[0].op == 'caps':
            return self._add(mk('rematch', *t.a[0].a), True)
        return True

    def variant(self, x):
        if x.op == 'adt':
            return x.a[1]
        return self.var.get(x)

    # ------------------------------------------------------------ normal form under the facts
    def norm(self, t, variants=None):
        """t with every subterm of known variant or value replaced."""
        if variants is None and self.memo is not None and self.memo[0] == len(self.log):
            m = self.memo[1]
        else:
            m = {}
            for x, c in self.val.items():
                m[x] = c
            for x, v in self.var.items():
                e = expand_variant(x, v, self, variants)
                if e is not None:
                    m[x] = e
            for a, b in self.atoms.items():
                if is_bool(a):
                    m.setdefault(a, B(b))
                if a.op == 'is' and a.a[2] == 'Some' and not b and a.a[0].op == 'peek':
                    m[next_of(a.a[0].a[0])] = a.a[0].a[0]     # nothing is left: the iterator stays at its end
            if variants is None:
                self.memo = (len(self.log), m)
        for d in dom_terms(t):
            if d not in m:
                l = self.assignments((d,))
                if len(l) == 1:
                    m = dict(m)
                    m[d] = l[0][d]
        if not m:
            return t
        for _ in range(6):
            r = self._subst_deep(t, m)
            if r is t:
                break
            t = r
        return t

    def canon(self, t):
        """t with the arguments of every function it applies in their normal form under the facts"""
        if not has_app(t):
            return t
        if self.canons is None or self.canons[0] != len(self.log):
            self.canons = (len(self.log), {})
        memo = self.canons[1]

        def go(x):
            if x in memo:
                return memo[x]
            if not has_app(x):
                return x
            na = tuple(w(y) for y in x.a)
            if x.op == 'app':
                na = (na[0],) + tuple(self.norm(y) if isinstance(y, Term) else y for y in na[1:])
            r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
            return r

        def w(y):
            if isinstance(y, Term):
                return go(y)
            if isinstance(y, tuple):
                return tuple(w(z) for z in y)
            return y
        return go(t)

    def canonical(self, n=0):
        """The same facts with their applications in normal form; None when they contradict.  The first n of them
        have been brought to it among themselves."""
        pc = self
        if n:
            inside = [app_inner(a) for a, _ in pc.log]
            inside = [x for x in inside if x]
            new = set()
            for a, _ in pc.log[n:]:
                keys_of(a, new)
            if not any(y in x for y in new for x in inside):
                return pc
        for _ in range(3):
            log = [(pc.canon(a), b) for a, b in pc.log]
            if all(x is a for (x, _), (a, _) in zip(log, pc.log)):
                return pc
            new = PC()
            for a, b in log:
                new = new.assume(a, b)
                if new is None:
                    return None
            pc = new
        return pc

    def _subst_deep(self, t, m):
        return subst_keys(t, m)


_apps = {}


def has_app(t):
    r = _apps.get(t)
    if r is None:
        r = _apps[t] = t.op == 'app' or any(has_app(c) for c in children(t))
    return r


def keys_of(t, out):
    """the terms whose normal form the fact t may change"""
    out.add(t)
    for c in children(t):
        if t.op in ('and', 'not'):
            keys_of(c, out)
        elif c.op not in ('int', 'str'):
            out.add(c)


_inner = {}


def app_inner(t):
    """the terms inside the arguments of the functions t applies"""
    r = _inner.get(t)
    if r is None:
        s = set()
        if has_app(t):
            for x in T_find(t, lambda y: y.op == 'app'):
                for y in children(x):
                    s.update(T_find(y, lambda z: z.op not in ('int', 'str')))
        r = _inner[t] = frozenset(s)
    return r


def merge(m, k, v):
    m = dict(m)
    m[k] = v
    return m


_layout = {}


def set_layout(l):
    """path of an enum -> {variant: [field names]}"""
    _layout.update(l)


def expand_variant(x, v, pc, variants):
    for a, b in pc.atoms.items():
        if a.op == 'is' and a.a[0] is x:
            p = a.a[1]
            l = _layout.get(p)
            if l is None or v not in l:
                return None
            return mk('adt', p, v, tuple((f, fld(x, v, f)) for f in sorted(l[v])))
    return None


def subst_keys(t, m):
    """Like subst, but what a key is replaced by is not searched for that key again."""
    memo = {}

    def go(x, blocked):
        if not x.a or x.op in ('int', 'str', 'var', 'phi', 'opq'):
            r = m.get(x)
            return r if r is not None and x not in blocked else x
        k = (x, blocked)
        if k in memo:
            return memo[k]
        if x in m and x not in blocked:
            e = m[x]
            if e.op == 'adt' and e.a[2] and e.a[2][0][1].op == 'fld' and e.a[2][0][1].a[0] is x:
                # an expansion: its fields are projections of x itself, which stay as they are
                r = mk('adt', e.a[0], e.a[1], tuple((n, pf(v, blocked | {x})) for n, v in e.a[2]))
            else:
                r = e
            memo[k] = r
            return r
        def w(y):
            if isinstance(y, Term):
                return go(y, blocked)
            if isinstance(y, tuple):
                return tuple(w(z) for z in y)
            return y
        if x.op == 'fld':
            r = pf(x, blocked)
        else:
            na = tuple(w(y) for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[k] = r
        return r

    def pf(x, blocked):
        """a projection: the projected term is not expanded, only what is inside of it"""
        if x in m and x not in blocked:
            return go(x, blocked)
        b = x.a[0]
        if b.op == 'fld':
            nb = pf(b, blocked | {b})
        else:
            nb = go(b, blocked | {b})
        return x if nb is b else fld(nb, x.a[1], x.a[2])
    return go(t, frozenset())


def next_of(s):
    return mk('next', s)
