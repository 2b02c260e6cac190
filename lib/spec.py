"""Checking a function's summary against its specification.

A specification is a decision procedure over the same terms as the summary.  Its questions are answered by the
facts of the path under analysis and, where these say nothing, both ways.  On each path the result of the
function must be the one the specification demands.  Loops: the summary of a loop is its transfer function, and
either an invariant relation with the loop of the specification is established (every number of turns), or the
function is compared on the compositions of the transfer function up to a few turns."""
import itertools, time
from terms import *
import terms as T
from pc import PC
import engine
from engine import Undecided, Budget, Loc
import evalt, random


class Cut(Exception):
    """the specification is past the bound"""


# ---------------------------------------------------------------- what a specification demands
class Any(object):
    pass


ANY = Any()


class Is(object):
    """the value is this term"""

    def __init__(self, t, *props):
        self.t, self.props = t, props


class Var(object):
    """the value is this variant, with these fields"""

    def __init__(self, path, var, fields, *props):
        self.path, self.var, self.fields, self.props = path, var, fields, props


class Test(object):
    """the value satisfies a test: f(value, pc) -> True, None (not decided) or a complaint"""

    def __init__(self, f, *props):
        self.f, self.props = f, props


class Known(object):
    """A demand with a failure of its own name: a value that satisfies `wrong` is reported under `key`."""

    def __init__(self, good, wrong, key, *props):
        self.good, self.wrong, self.key, self.props = good, wrong, key, props


def Ok(x, *p):
    return Var(T.RES, 'Ok', {'0': x}, *p)


def Err(x, *p):
    return Var(T.RES, 'Err', {'0': x}, *p)


def Some(x, *p):
    return Var(T.OPT, 'Some', {'0': x}, *p)


def Nothing(*p):
    return Var(T.OPT, 'None', {}, *p)


PATIENCE = 120    # seconds spent on a function after which the loops are turned no further
ENOUGH = 20      # seconds spent on a function after which a violation found ends its analysis


class Report(object):
    """What a check found."""

    expected = frozenset()      # keys of the known findings
    focus = None                # the only property asked for (None: all)

    def __init__(self, quick=False):
        self.quick = quick      # only whether the demand is met matters: no example of a difference is looked for
        self.known = set()
        self.fresh = 0
        self.pending = []
        self.left, self.looked = [], 0
        self.violations = []    # (props, key, text)
        self.undecided = []     # (props, text)
        self.undset = set()
        self.obl = {}           # property -> obligations
        self.done = {}          # property -> obligations discharged
        self.units = []         # one entry per function analysed
        self.functions = set()
        self.paths = 0

    def bad(self, props, key, text):
        if self.has(props, key):
            return
        self.known.add((frozenset(props), key))
        if key not in self.expected:
            self.fresh += 1
            if self.focus is not None:
                evalt.patience[0] = evalt.BRIEF
        self.violations.append((tuple(props), key, text))

    def has(self, props, key):
        return (frozenset(props), key) in self.known

    def later(self, props, key, search, found, otherwise):
        """A difference between terms: an example of it is looked for when all the differences are known."""
        self.pending.append((tuple(props), key, search, found, otherwise))

    def attempt(self, ds, tries, most):
        """tries examples for the first differences of each kind; gives those that have none"""
        again, count = [], {}
        for d in ds:
            props, key, search, found, otherwise = d
            if self.has(props, key):
                continue
            n = count[props, key] = count.get((props, key), 0) + 1
            w = search(tries) if n <= most and evalt.willing() else None
            if w is None:
                again.append(d)
            else:
                self.bad(props, key, found(w))
        return [d for d in again if not self.has(*d[:2])]

    def settle(self, last=True, tries=6):
        """Looks for the examples: first a little for each difference, then more for those without one."""
        self.left += self.attempt(self.pending, 6, 10 ** 9)
        self.pending = []
        if tries > 6:
            # what is left of one round
            i = self.looked
            new = self.left[i:]
            random.Random(len(new)).shuffle(new)
            self.left[i:] = self.attempt(new, tries, 60)
            self.looked = len(self.left)
        if not last:
            return
        left, self.left, self.looked = self.left, [], 0
        random.Random(len(left)).shuffle(left)
        for tries, most in ((40, 400), (400, 25)):
            left = self.attempt(left, tries, most)
        for props, key, search, found, otherwise in left:
            self.maybe(props, otherwise())

    def skip(self, props):
        return self.focus is not None and self.focus not in props

    def maybe(self, props, text):
        if (tuple(props), text) not in self.undset:
            self.undset.add((tuple(props), text))
            self.undecided.append((tuple(props), text))

    def owe(self, props, n=1):
        for p in props:
            self.obl[p] = self.obl.get(p, 0) + n

    def paid(self, props, n=1):
        for p in props:
            self.done[p] = self.done.get(p, 0) + n

    def fact(self, props, good, key, text):
        """One obligation decided by the caller (None: not decided)."""
        self.owe(props)
        if good:
            self.paid(props)
        elif good is None:
            self.maybe(props, text)
        else:
            self.bad(props, key, text)
        return good


# ---------------------------------------------------------------- oracles
class Oracle(object):
    """Answers the questions of a specification from a path condition, forking where it is silent."""

    def __init__(self, pc, decisions):
        self.pc, self.decisions, self.n = pc, decisions, 0
        self.todo = []
        self.loops = 0
        self.hook = None

    def ask(self, t):
        if t.op == 'int':
            return t.a[0] != 0
        if t.op == 'not':
            return not self.ask(t.a[0])
        if t.op == 'and':
            return all(self.ask(x) for x in t.a)
        if t.op == 'eq' and (is_bool(t.a[0]) or is_bool(t.a[1])) and t.a[1].op != 'int':
            return self.ask(t.a[0]) == self.ask(t.a[1])
        r = self.pc.decide(t)
        if r is not None:
            return r
        c = self.pc.canon(t)
        if c is not t:
            return self.ask(c)
        u = unfold(self.pc, t)
        if u is not t:
            return self.ask(u)
        if self.n < len(self.decisions):
            r = self.decisions[self.n]
        else:
            r = True
            self.todo.append(self.decisions + (False,))
            self.decisions += (True,)
        self.n += 1
        pc = self.pc.assume(t, r)
        if pc is not None:
            pc = pc.canonical(len(self.pc.log))
        if pc is None:
            raise Cut()
        self.pc = pc
        return r

    def is_(self, x, path, var, variants=None):
        return self.ask(variant_is(x, path, var, variants or T.BINARY.get(path) or engine_variants(path)))

    def some(self, x):
        return self.is_(x, T.OPT, 'Some')

    def err(self, x):
        return self.is_(x, T.RES, 'Err')

    def loop(self, name, vars, body):
        """body(vars) -> ('again', vars) or ('exit', result)"""
        if self.hook is not None:
            return self.hook(self, name, vars, body)
        n = 0
        while True:
            n += 1
            if n > self.max_turns:
                raise Cut()
            k, r = body(vars)
            if k == 'exit':
                return r
            vars = r

    max_turns = 8


_variants = {}


def engine_variants(path):
    return _variants.get(path) or ()


def set_variants(d):
    _variants.update(d)


def explore(spec, pc, hook=None, limit=400):
    """[(pc, result)] of a specification under a path condition"""
    out = []
    todo = [()]
    n = 0
    while todo:
        n += 1
        if n > limit:
            raise Budget('specification paths')
        o = Oracle(pc, todo.pop())
        o.hook = hook
        try:
            r = spec(o)
        except Cut:
            todo.extend(o.todo)
            continue
        todo.extend(o.todo)
        out.append((o.pc, r))
    return out


# ---------------------------------------------------------------- paths
class Path(object):
    __slots__ = ('pc', 'kind', 'val', 'mem', 'info', 'turns', 'opq', 'ev', 'deepest')

    def __init__(self, pc, kind, val, mem, info, turns, opq, ev, deepest=0):
        self.pc, self.kind, self.val, self.mem, self.info, self.turns, self.opq, self.ev = pc, kind, val, mem, info, turns, opq, ev
        self.deepest = deepest


def apply_log(pc, log, m):
    """The facts under a substitution; None when they contradict."""
    memo = {}
    for a, b in log:
        t = subst(a, m, memo) if m else a
        pc = pc.assume(t, b)
        if pc is None:
            return None
    return pc


def few_turns(rec):
    n = len(rec.backs)
    return 8 if n == 1 else DEPTH[n] if n < len(DEPTH) else 3


def asked(rec, out, n0):
    """numbers of turns at which something may change: around the constants that values of the loop are compared with"""
    r = set()
    terms = [a for a, b in out.st.pc.log[n0:]] + [v for r, v in out.st.mem.items() if r[0] == 'in' and v is not None]
    terms += [out.val] if out.val is not None else []
    for b in rec.backs:
        terms += [a for a, _ in b.pc.log[n0:]] + [out_eng[0].load(b, Loc(loc[0], loc[1], None)) for loc in rec.phi]
    for t in terms:
        for y in turning(t):
            if y <= 70:
                r |= {y - 1, y, y + 1, y + 2}
    return r


_turning = {}


def turning(t):
    """the constants something is compared with or divided by"""
    r = _turning.get(t)
    if r is None:
        asks = t.op in ('lt', 'eq', 'rem', 'div', 'band', 'shr', 'app') and not any(isinstance(x, Term) and x.op in ('fld', 'hd', 'elt') for x in t.a)
        r = {x.a[0] for x in t.a if isinstance(x, Term) and x.op == 'int' and x.a[0] > 0} if asks else set()
        for c in children(t):
            r = r | turning(c)
        _turning[t] = r
    return r


DEPTH = (3, 8, 5, 4, 3)         # by the number of ways to turn
DEEPEST = 72


def settled(out, v):
    return engine.settled(out_eng[0], out.st, v) if v is not None and v.cell else v


def compose(out, depth, skipped, mixed):
    """The loop-free paths of an outcome: its loops turn 0 to depth times, each always the same way or (mixed) some of them
    in different ways."""
    log = out.st.pc.log
    states = [(PC(), {}, 0, 0, False)]      # facts, variables, turns, most turns of one loop, mixed
    pos = 0
    for rec in out.st.trace:
        n0 = len(rec.pc0.log)
        nxt = []
        for pc, m, turns, deep, mx in states:
            pc2 = apply_log(pc, log[pos:n0], m)
            if pc2 is None:
                continue
            memo = {}
            m2 = dict(m)
            for loc, ph in rec.phi.items():
                m2[ph] = subst(rec.init[loc], m, memo)
            cur = [(pc2, m2, 0, None)]
            nxt.append((pc2, m2, turns, deep, mx))
            few = most = few_turns(rec)
            if not mixed:
                few, most = 1, depth
            for k in range(min(depth, most)):
                new = []
                for pc3, m3, t3, way in cur:
                    stuck = False           # what it did so far it can do no more, whatever comes: another way is the same
                    for b in sorted(rec.backs, key=lambda b: b is not way) if k >= few else rec.backs:
                        if k >= few and way is not b and not stuck:
                            continue
                        if len(b.trace) != len(rec.header.trace):
                            skipped.append(rec.id)
                            continue
                        pc4 = apply_log(pc3, b.pc.log[n0:], m3)
                        if pc4 is None:
                            stuck = stuck or way is b
                            continue
                        memo = {}
                        m4 = dict(m3)
                        for loc, ph in rec.phi.items():
                            v = out_eng[0].load(b, Loc(loc[0], loc[1], None))
                            m4[ph] = subst(v, m3, memo)
                        new.append((pc4, m4, t3 + 1, b if not k or way is b or k >= few else None))
                cur = new
                nxt += [(p, mm, turns + t, max(deep, t), mx or way is None) for p, mm, t, way in cur]
                if len(nxt) > 3000:
                    raise Budget('compositions')
        pos = n0
        states = nxt
    res = []
    for pc, m, turns, deep, mx in states:
        if mx != mixed:
            continue
        pc2 = apply_log(pc, log[pos:], m)
        if pc2 is None:
            continue
        pc2 = pc2.canonical()
        if pc2 is None:
            continue
        memo = {}
        val = settled(out, out.val)
        if val is not None and m:
            val = subst(val, m, memo)
        mem = {r: (subst(settled(out, v), m, memo) if m else settled(out, v)) for r, v in out.st.mem.items() if r[0] == 'in'}
        o = any(a.opq for a, _ in pc2.log)
        ev = tuple((e[0],) + tuple(subst(x, m, memo) if isinstance(x, Term) and m else x for x in e[1:]) for e in out.st.ev)
        res.append(Path(pc2, out.kind, val, mem, out.info, turns, o, ev, deep))
    return res


out_eng = [None]


def said(outs, eng):
    """what outcomes and the turns of their loops are said with"""
    ts = []
    for o in outs:
        ts.append(o.val)
        sts, i = [o.st], 0
        while i < len(sts):
            ts += [a for a, _ in sts[i].pc.log]
            for rec in sts[i].trace:
                ts += list(rec.init.values())
                for b in rec.backs:
                    if b not in sts:
                        sts.append(b)
                        ts += [eng.load(b, Loc(loc[0], loc[1], None)) for loc in rec.phi]
            i += 1
    return [t for t in dict.fromkeys(ts) if t is not None]


def follow(outs, env, eng, turns=400, model=evalt.Fixed):
    """The outcome whose facts hold for the values in env, and a model to evaluate its terms in: the loops before it are
    turned as often as their facts say.  None when the facts of no outcome hold."""
    left, turned = [turns], {}

    def holds(m, facts):
        return all(m.ev(a) == int(b) for a, b in facts)

    def values(m, todo):
        """what is not known stays away: whether it is asked for is seen then"""
        r = {}
        for ph, t in todo:
            try:
                r[ph] = m.ev(t)
            except evalt.NoValue:
                r[ph] = UNKNOWN
        return r

    def walk(st, start, pos, env):
        m = model(env)
        log = st.pc.log
        for rec in st.trace[start:]:
            n0 = len(rec.pc0.log)
            if not holds(m, log[pos:n0]):
                return None
            k = id(rec), id(env)
            if k in turned:
                env = turned[k][2]
                m = model(env)
                pos = n0
                continue
            before = env
            env = dict(env)
            env.update(values(m, [(ph, rec.init[loc]) for loc, ph in rec.phi.items()]))
            while True:
                for b in rec.backs:
                    m2 = walk(b, len(rec.header.trace), n0, env)
                    if m2:
                        break
                else:
                    break
                left[0] -= 1
                if left[0] < 0:
                    raise evalt.NoValue('too many turns')
                env = dict(env)
                env.update(values(m2, [(ph, eng.load(b, Loc(loc[0], loc[1], None))) for loc, ph in rec.phi.items()]))
            turned[k] = rec, before, env
            m = model(env)
            pos = n0
        return m if holds(m, log[pos:]) else None
    for o in outs:
        m = walk(o.st, 0, 0, env)
        if m:
            return o, m
    return None


UNKNOWN = object()


class Sure(Oracle):
    """Answers the questions of a specification for given values."""

    max_turns = 1000

    def __init__(self, m):
        Oracle.__init__(self, PC(), ())
        self.m = m

    def ask(self, t):
        v = self.m.ev(t)
        if v is UNKNOWN or v not in (0, 1):
            raise evalt.NoValue(show(t))
        return bool(v)


def meets(m, v, m0, want, where, out, props=()):
    """Adds to out what the value v, in the model m, has else than the demand, in the model m0."""
    if want is ANY or want is None or isinstance(want, Test):
        return
    props = want.props or props
    if isinstance(want, Known):
        a, b = [], []
        meets(m, v, m0, want.good, where, a, props)
        if a:
            meets(m, v, m0, want.wrong, where, b, props)
            if b:
                out += a
        return
    try:
        x = v if not isinstance(v, Term) else None
        if isinstance(want, Is):
            x = m.ev(v) if x is None else x
            y = m0.ev(want.t)
            if x is not UNKNOWN and y is not UNKNOWN and not solid(x, y) and x != y:
                out.append((props, where, x, y))
            return
        if x is None and not (v.op == 'adt'):
            x = m.ev(v)
        if x is None:
            var, fs = v.a[1], dict(v.a[2])
        elif isinstance(x, tuple) and x[:1] == ('adt',):
            var, fs = x[1], dict(x[2])
        else:
            return
    except evalt.NoValue:
        return
    if var != want.var:
        out.append((props, where, var, demand(want)))
        return
    for n, w in want.fields.items():
        if n in fs:
            meets(m, fs[n], m0, w, where + '.' + (n if not n.isdigit() else str(want.var)), out, props)


def solid(x, y):
    """whether one of the values stands for something that is not known (then nothing is said of their equality)"""
    return any(z is UNKNOWN or isinstance(z, Term) or isinstance(z, tuple) and z and (z[0] == 'free' or any(solid(u, 0) for u in z)) for z in (x, y)) \
        and not (isinstance(x, (str, int)) and isinstance(y, (str, int)))


def brief(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'adt':
            fs = ', '.join(brief(x) for _, x in v[2])
            return ('%s(%s)' % (v[1] or '', fs) if fs else str(v[1]))
        if v[0] == 'lines':
            return '[%s]' % ', '.join(brief(x) for x in v[1])
        if v[0] == 'set':
            return '{%s}' % ', '.join(brief(x) for x in v[2])
        return '(%s)' % ', '.join(brief(x) for x in v)
    return repr(v)


def followed(rep, eng, unit, outs, spec, props, extract, given):
    """The function and its specification on given values: its loops are turned as often as these say."""
    t0, n, blind, bad0 = time.time(), 0, {}, rep.fresh
    outs = [o for o in outs if o.kind == 'ret']
    for env, rules in given:
        if time.time() - t0 > 30 or rep.fresh > bad0:
            break
        try:
            got = follow(outs, env, eng, 1500, lambda e: evalt.Given(e, rules))
            m0 = evalt.Given(env, rules)
            if got is None:
                continue
            o, m = got
            want = spec(Sure(m0))
            n += 1
            p = Path(o.st.pc, o.kind, settled(o, o.val), {r: settled(o, v) for r, v in o.st.mem.items() if r[0] == 'in'}, o.info, 0, False, ())
            out = []
            for name, w in want.items():
                v = extract(p, name, p.pc)
                if v is not None:
                    meets(m, v, m0, w, name, out, props)
        except (evalt.NoValue, Cut) as x:
            blind[str(x)[:200]] = None
            continue
        for ps, where, x, y in out:
            if not rep.skip(ps):
                rep.bad(ps, '%s/%s' % (unit, where), '%s: %s is %s instead of %s when %s' % (
                    unit, where, brief(x), brief(y), (', '.join('%s = %s' % (show(a), brief(b)) for a, b in env.items()) or 'given what the calls return')[:1500]))
    return n, list(blind)


# ---------------------------------------------------------------- comparison
def norm(pc, t):
    for _ in range(4):
        r = pc.norm(t)
        if r is t:
            return t
        t = r
    return t


def unfold(pc, t):
    """t with the sequences whose number of elements the path knows written out"""
    if not any(b and a.op == 'nil' for a, b in pc.log) or not T.find(t, lambda x: x.op in ('compr', 'any', 'mapgroup', 'mapext')):
        return t
    memo = {}

    def known(s):
        l, x = [], s
        for _ in range(8):
            r = pc.decide(nil(x))
            if r is None:
                return None
            if r:
                return l
            l.append(pc.canon(hd(x)))
            x = tl(x)
        return None

    def listed(s):
        """the elements of a sequence"""
        l = []
        while s.op == 'snoc':
            l.insert(0, s.a[1])
            s = s.a[0]
        if s is T.EMPTY:
            return l
        k = known(s)
        return None if k is None else k + l

    def chosen(cases, e, x):
        """the first case whose facts hold of x, None when that is not known"""
        for f, els in cases:
            good = True
            for a, b in f:
                d = pc.decide(pc.canon(go(subst(a, {e: x}))))
                if d is None:
                    return None
                if d != b:
                    good = False
                    break
            if good:
                return els
        return ()

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = go_(t)
        return r

    def go_(t):
        if not t.a or not T.find(t, lambda x: x.op in ('compr', 'any', 'mapgroup', 'mapext')):
            return t
        if t.op in ('compr', 'any'):
            base = go(t.a[0])
            l = listed(base)
            e = T.elt(t.a[0])
            if l is not None:
                if t.op == 'any':
                    rs = [chosen([(f, (1,))], e, x) for f in t.a[1] for x in l]
                    if any(rs):
                        return T.TRUE
                    return T.FALSE if None not in rs else t
                out = T.EMPTY
                for x in l:
                    els = chosen(t.a[1], e, x)
                    if els is None:
                        return t
                    for y in els:
                        out = T.snoc(out, go(subst(y, {e: x})))
                return out
            if base is not t.a[0]:
                m = {e: T.elt(base)}
                cases = [(frozenset((subst(a, m), b) for a, b in (f if t.op == 'any' else f[0])), () if t.op == 'any' else tuple(subst(y, m) for y in f[1]))
                         for f in t.a[1]]
                return T.anyseq(base, [f for f, _ in cases]) if t.op == 'any' else T.compr(base, cases)
            return t
        if t.op in ('mapgroup', 'mapext'):
            m, base = go(t.a[0]), go(t.a[1])
            l = listed(base)
            if l is not None:
                for x in l:
                    k, v = pc.canon(fld(x, None, '0')), pc.canon(fld(x, None, '1'))
                    m = T.rebuild('mapset', (m, k, T.snoc(T.rebuild('mapor', (m, k, T.EMPTY)), v) if t.op == 'mapgroup' else v))
                return m
        if t.op in ('mapgroup', 'mapext', 'mapget', 'mapiter', 'mapor', 'is', 'fld', 'app', 'hd', 'tl', 'join', 'eq', 'not', 'nil', 'snoc', 'mapset'):
            return T.rebuild(t.op, tuple(go(x) if isinstance(x, T.Term) else x for x in t.a))
        if t.op == 'adt':
            return T.adt(t.a[0], t.a[1], [(n, go(x)) for n, x in t.a[2]])
        return t

    return go(t)


def compare(pc, val, want, rep, where, ctx):
    """Checks a value against a demand."""
    if want is ANY or want is None:
        return True
    props = want.props or ctx.props
    if isinstance(want, Known):
        r2 = Report(True)
        if compare(pc, val, want.good, r2, where, ctx):
            return compare(pc, val, want.good, rep, where, ctx)
        r3 = Report(True)
        if compare(pc, val, want.wrong, r3, where, ctx):
            if ctx.lenient:
                return True
            rep.owe(props)
            rep.bad(props, want.key, '%s: %s is %s [%s]' % (ctx.unit, where, show(norm(pc, val)), ctx.path(pc)))
            return False
        return compare(pc, val, want.good, rep, where, ctx)
    if not isinstance(want, Var) and rep.skip(props):
        return True
    rep.owe(props)
    val = norm(pc, val)
    if isinstance(want, Test):
        r = want.f(val, pc)
        if r is True:
            rep.paid(props)
            return True
        if r is None or ctx.opq:
            rep.maybe(props, '%s: %s: %s' % (ctx.unit, where, show(val)))
            return False
        if not rep.quick:
            rep.later(props, ctx.key(where), lambda n: evalt.feasible(pc, n) or None,
                      lambda w: '%s: %s: %s [%s]' % (ctx.unit, where, r, ctx.path(pc)),
                      lambda: '%s: %s: %s on a path of unknown feasibility' % (ctx.unit, where, r))
        return False
    if isinstance(want, Var):
        v = val.a[1] if val.op == 'adt' else pc.variant(val) if val.op != 'opq' else None
        if v is None and want.var is not None:
            rep.maybe(props, '%s: %s: variant of %s' % (ctx.unit, where, show(val)))
            return False
        if v != want.var:
            if rep.quick or rep.skip(props) or rep.has(props, ctx.key(where)):
                return False
            if ctx.opq:
                rep.maybe(props, '%s: %s is not understood' % (ctx.unit, where))
            else:
                rep.later(props, ctx.key(where), lambda n: evalt.feasible(pc, n) or None,
                          lambda w: '%s: %s is %s instead of %s [%s]' % (ctx.unit, where, show(val), demand(want), ctx.path(pc)),
                          lambda: '%s: %s is %s instead of %s on a path of unknown feasibility' % (ctx.unit, where, show(val), demand(want)))
            return False
        good = True
        for n, w in want.fields.items():
            x = fld(val, want.var, n)
            sub = '%s.%s' % (where, n) if not n.isdigit() else '%s.%s' % (where, want.var)
            if w is ANY:
                continue
            if isinstance(w, (Var, Is)) and not w.props:
                w = type(w)(*((w.path, w.var, w.fields) if isinstance(w, Var) else (w.t,)), *props)
            good = compare(pc, x, w, rep, sub, ctx) and good
        if good:
            rep.paid(props)
        return good
    t = norm(pc, want.t)
    if val is t:
        rep.paid(props)
        return True
    if all(is_bool(x) or x.op == 'int' and x.a[0] in (0, 1) for x in (t, val)):
        r1, r2 = pc.decide(val), pc.decide(t)
        if r1 is not None and r1 == r2:
            rep.paid(props)
            return True
    if val.op == 'adt' and t.op == 'adt' and val.a[1] == t.a[1] and [n for n, _ in val.a[2]] == [n for n, _ in t.a[2]] and val.a[2]:
        good = True
        for (n, x), (_, y) in zip(val.a[2], t.a[2]):
            good = compare(pc, x, Is(y, *props), rep, '%s.%s' % (where, n), ctx) and good
        if good:
            rep.paid(props)
        return good
    u = norm(pc, unfold(pc, t))
    if u is not t and u is norm(pc, unfold(pc, val)):
        rep.paid(props)
        return True
    if val.opq or t.opq or ctx.opq:
        rep.maybe(props, '%s: %s is not understood: %s' % (ctx.unit, where, show(val)))
        return False
    if rep.quick or rep.has(props, ctx.key(where)):
        return False
    rep.later(props, ctx.key(where), lambda n: evalt.differ(val, t, pc, n),
              lambda w: '%s: %s is %s instead of %s [%s] e.g. %s' % (ctx.unit, where, show(val), show(t), ctx.path(pc), w),
              lambda: '%s: %s is %s, wanted %s: not decided [%s]' % (ctx.unit, where, show(val), show(t), ctx.path(pc)))
    return False


def demand(w):
    if isinstance(w, Var):
        return '%s(%s)' % (w.var, ', '.join(demand(x) for x in w.fields.values())) if w.fields else w.var
    if isinstance(w, Is):
        return show(w.t)
    return '..'


class Ctx(object):
    def __init__(self, unit, props, loc, opq, turns=0):
        self.unit, self.props, self.loc, self.opq, self.turns = unit, props, loc, opq, turns
        self.lenient = False

    def key(self, where):
        return '%s/%s' % (self.unit, where)

    def path(self, pc):
        return ' & '.join(('' if b else '!') + show(a) for a, b in pc.log)[:700]


def happens(e, o):
    """True: a concrete witness; False: no path; None: not known"""
    if any(a.opq for a, _ in o.st.pc.log):
        return None
    try:
        if not o.st.trace:
            return True if evalt.feasible(o.st.pc) else None
        out_eng[0] = e
        ps = compose(o, 2, [], False) + compose(o, 2, [], True)
    except (Undecided, Budget, RecursionError):
        return None
    if not ps:
        return None
    for p in ps:
        if not p.opq and evalt.feasible(p.pc):
            return True
    return None


# ---------------------------------------------------------------- the check of a function
def check(rep, eng, unit, outs, spec, props, extract, depth=DEEPEST, panic_ok=True, loc='', given=None):
    """outs: the summary; spec(oracle) -> {name: demand}; extract(path, name) -> term."""
    out_eng[0] = eng
    rep.functions.update(eng.visited)
    if rep.focus == 'C01':
        return 0        # no demand of a specification is about panics: those are read off the summaries
    skipped = []
    npaths = nopq = 0
    before = sum(rep.obl.values())
    und0 = len(rep.undecided)
    proof = 'no loop'
    if any(o.st.trace for o in outs):
        proof = induct(rep, eng, unit, outs, spec, props, extract)
        if proof.startswith('related'):
            depth = 1       # every number of turns is decided: the paths give the obligations their names
    over, t0 = set(), time.time()
    bad0 = rep.fresh
    rounds, tried = [(False, 0)], ''
    if given and proof.startswith('compared'):
        n, blind = followed(rep, eng, unit, outs, spec, props, extract, given(outs, eng))
        tried = ' and followed on %d given inputs' % n
    if proof != 'no loop':
        recs = [(r, o) for o in outs for r in o.st.trace]
        deep = set(range(depth + 1)) & set(range(max(few_turns(r) for r, _ in recs) + 1))
        mix = [(True, d) for d in sorted(deep) if d > 1]
        if not proof.startswith('related'):
            for r, o in recs:
                deep |= asked(r, o, len(r.pc0.log))
        rounds = sorted([(False, d) for d in deep if d >= 0] + mix, key=lambda x: (x[1], x[0]))
    done = {False: False, True: False}
    for mixed, d in rounds:
        if done[mixed]:
            continue
        more = fresh_paths = False
        for i, o in enumerate(outs):
            if o.kind != 'ret' or (d and not o.st.trace):
                continue
            if rep.fresh > bad0 and time.time() - t0 > ENOUGH:
                break
            more = more or bool(o.st.trace)
            try:
                paths = compose(o, d, skipped, mixed)
            except Budget:
                if i not in over:
                    rep.maybe(props, '%s: too many compositions' % unit)
                over.add(i)
                continue
            for p in paths:
                if d and p.deepest < d:
                    continue        # seen before
                if rep.fresh > bad0 and time.time() - t0 > ENOUGH:
                    break           # the rest could only show more of it
                npaths += 1
                fresh_paths = True
                if p.opq:
                    nopq += 1
                Oracle.max_turns = max(8, p.deepest + 5)
                try:
                    specs = explore(spec, p.pc)
                except (Budget, Undecided) as x:
                    rep.maybe(props, '%s: %s' % (unit, x))
                    continue
                for pc, want in specs:
                    ctx = Ctx(unit, props, loc, p.opq, p.turns)
                    for name, w in want.items():
                        if w is ANY:
                            continue
                        v = extract(p, name, pc)
                        if v is None:
                            rep.maybe(props, '%s: %s is missing' % (unit, name))
                            continue
                        compare(pc, v, w, rep, name, ctx)
                if len(rep.pending) > 200:
                    rep.settle(False)
        rep.settle(False, 40)
        if not more or d > 1 and not fresh_paths:
            done[mixed] = True
        if d > 1 and time.time() - t0 > PATIENCE:
            break
        if d and not proof.startswith('related') and rep.fresh > bad0:
            break       # more turns could only show it again
    rep.settle()
    if proof.startswith('compared'):
        rep.maybe(props, '%s: its loops are %s' % (unit, proof + tried))
    for o in outs:
        # a function that panics does not return what it has to
        if o.kind == 'panic' and o.info[1] != 'result::unwrap_failed' and happens(eng, o):
            rep.bad(props, '%s/panic' % unit, '%s: panics (%s) instead of returning [%s]' % (unit, o.info[1], ' & '.join(
                ('' if b else '!') + show(a) for a, b in o.st.pc.log)[:600]))
            break
    if skipped:
        rep.maybe(props, '%s: nested loop %s not composed' % (unit, skipped[0]))
    rep.paths += npaths
    rep.units.append({'unit': unit, 'paths': npaths, 'opaque_paths': nopq, 'obligations': sum(rep.obl.values()) - before,
                      'loops': proof, 'undecided': len(rep.undecided) - und0})
    return npaths


class Reject(Exception):
    pass


def induct(rep, eng, unit, outs, spec, props, extract):
    """Tries to relate the loops of the function and of the specification for any number of turns."""
    total, good = 0, 0
    for rec in {id(r): r for o in outs for r in o.st.trace}.values():
        total += 1
        if relate(eng, rec, outs, spec, unit, props, extract):
            good += 1
    if total and good == total:
        return 'related for any number of turns (%d loop entries)' % total
    return 'compared turn by turn (%d of %d loop entries related for any number)' % (good, total)


def relate(eng, rec, outs, spec, unit, props, extract):
    mine = [o for o in outs if o.st.trace and o.st.trace[0] is rec]
    if any(len(o.st.trace) != 1 for o in mine) or any(len(b.trace) != len(rec.header.trace) for b in rec.backs):
        return False
    # candidate meanings of each variable of the specification's loop
    seen = {}

    def probe(o, name, vars, body):
        seen.setdefault('vars', []).append((o.pc, vars))
        raise Cut()
    explore(spec, rec.pc0, probe)
    if not seen.get('vars'):
        return False
    pc, vars = seen['vars'][0]
    cands = {}
    for v, t in vars.items():
        t = norm(pc, t)
        l = [ph for loc, ph in rec.phi.items() if norm(pc, rec.init[loc]) is t]
        l.sort(key=lambda ph: not str(ph.a[1]).endswith('.' + v))
        l.append(t)
        cands[v] = l
    names = sorted(cands)
    n = 0
    for combo in itertools.product(*[cands[v] for v in names]):
        used = [x for x in combo if x.op == 'phi']
        if len(set(used)) != len(used):
            continue
        n += 1
        if n > 200:
            return False
        m = dict(zip(names, combo))
        if holds(eng, rec, mine, spec, unit, props, extract, m):
            return True
    return False


def holds(eng, rec, mine, spec, unit, props, extract, m):
    back = {}

    def hook(o, name, vars, body):
        for v, t in vars.items():
            x = m.get(v)
            if x is None:
                raise Reject()
            init = subst(x, {ph: rec.init[loc] for loc, ph in rec.phi.items()})
            if norm(o.pc, init) is not norm(o.pc, t):
                raise Reject()
        k, r = body({v: m[v] for v in vars})
        if k == 'exit':
            return r
        back['vars'] = r
        raise Again(r, o)
    try:
        for b in rec.backs:
            for pc, r in explore_again(spec, b.pc, hook):
                if not isinstance(r, Again):
                    return False
                mm = {ph: eng.load(b, Loc(loc[0], loc[1], None)) for loc, ph in rec.phi.items()}
                for v, t in r.vars.items():
                    if norm(pc, subst(m[v], mm)) is not norm(pc, t):
                        return False
        for o in mine:
            if o.kind != 'ret':
                continue
            p = Path(o.st.pc, o.kind, settled(o, o.val), {r: settled(o, v) for r, v in o.st.mem.items() if r[0] == 'in'}, o.info, 0,
                     any(a.opq for a, _ in o.st.pc.log), o.st.ev)
            for pc, r in explore_again(spec, o.st.pc, hook):
                if isinstance(r, Again):
                    return False
                rr = Report(True)
                for name, w in r.items():
                    v = extract(p, name, pc)
                    if w is ANY:
                        continue
                    ctx = Ctx(unit, props, '', p.opq)
                    ctx.lenient = True
                    if v is None or not compare(pc, v, w, rr, name, ctx):
                        return False
    except (Reject, Budget, Undecided):
        return False
    return True


class Again(Exception):
    def __init__(self, vars, o):
        self.vars, self.o = vars, o


def explore_again(spec, pc, hook):
    def s(o):
        try:
            return spec(o)
        except Again as a:
            return a
    return explore(s, pc, hook)
