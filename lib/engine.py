"""Path-sensitive dataflow analysis of the MIR.

A function is summarised by its paths: for each, the facts that hold on it, the value it returns and the
memory it leaves, all as terms over the values at entry (see terms.py).  Local functions, closures and the
small generic functions of core (Option, Result ...) are summarised in their calling context; the rest of the
standard library is described by models.py.  A loop is summarised by a fixpoint: the locations its body
changes are replaced by unknowns (phi) until nothing else changes, so each loop contributes one set of
entry, iteration and exit paths whatever the number of turns; loops over a sequence that only accumulate
have a closed form (see foreach)."""
import re, sys
from terms import *
from pc import PC, set_layout
import terms as T

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class Budget(Exception):
    pass


class State(object):
    __slots__ = ('mem', 'pc', 'trace', 'nl', 'ev')

    def __init__(self, mem=None, pc=None, trace=(), nl=0, ev=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc or PC()
        self.trace = trace
        self.nl = nl
        self.ev = ev

    def fork(self, pc=None):
        return State(dict(self.mem), pc or self.pc, self.trace, self.nl, self.ev)


class Loc(object):
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, path, ty


class Out(object):
    """An outcome: kind is ret, panic or stop."""
    __slots__ = ('st', 'kind', 'val', 'info')

    def __init__(self, st, kind, val=None, info=None):
        self.st, self.kind, self.val, self.info = st, kind, val, info


class LoopRec(object):
    def __init__(self, lid, fn, span):
        self.id, self.fn, self.span = lid, fn, span
        self.init = {}      # (root, path) -> term
        self.phi = {}       # (root, path) -> phi term
        self.backs = []     # states at the back edges
        self.header = None  # state at the header
        self.types = {}


_gen = re.compile(r'<')


def strip_generics(s):
    """path without generic arguments; <impl X> kept as X"""
    out = []
    i, n = 0, len(s)

    def skip(i):
        d = 0
        while i < n:
            if s[i] == '<':
                d += 1
            elif s[i] == '>' and s[i - 1] != '-':
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
        return n
    while i < n:
        if s.startswith('::<impl ', i):
            j = skip(i + 2)
            inner = s[i + 8:j - 1]
            out.append('::' + strip_generics(inner.split(' for ')[-1]).split('::')[-1])
            i = j
        elif s.startswith('::<', i):
            i = skip(i + 2)
        elif s[i] == '<':
            j = skip(i)
            if i == 0:
                inner = s[1:j - 1]
                out.append(strip_generics(inner.split(' as ')[-1]))
            i = j
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def short(s):
    p = strip_generics(s).split('::')
    r = '::'.join(p[-2:])
    if r.startswith('BTree'):
        r = 'Hash' + r[5:]
    return r.replace('[T]::', 'slice::').replace('[T; N]::', 'array::')


class Engine(object):
    def __init__(self, dump, models, budget=60000):
        self.d = dump
        self.types = dump['types']
        self.inst = dump['instances']
        self.models = models
        self.actions = {}          # instance path (stripped) -> handler
        self.budget = budget
        self.steps = 0
        self.nframe = 0
        self.panics = []
        self.visited = {}          # instance key -> set of blocks
        self.callstack = []
        self.cfg = {}
        self.opaque_calls = {}
        self.calls_of_unknown = []
        self.deep = {}
        self.notes = []
        self.loops = []
        lay = {}
        for k, t in self.types.items():
            if t['k'] == 'adt' and t.get('kind') == 'enum':
                lay[t['path']] = {v['name']: [f['name'] for f in v['fields']] for v in t['variants']}
        set_layout(lay)
        # local impls that are written by hand: the others are derived and behave structurally
        self.manual = {}
        for im in dump['impls']:
            if not im.get('derived'):
                self.manual.setdefault(im['trait'], set()).add(im['self'])

    # ------------------------------------------------------------ types
    def ty(self, k):
        return self.types.get(k, {'k': 'other'})

    def deref_ty(self, k):
        t = self.ty(k)
        if t['k'] in ('ref', 'ptr'):
            return t['t']
        if t['k'] == 'adt' and t.get('box'):
            return t['args'][0]
        return None

    def is_mut_ref(self, k):
        t = self.ty(k)
        return t['k'] == 'ref' and t['mut']

    def variants(self, k):
        t = self.ty(k)
        while t['k'] == 'ref' or (t['k'] == 'adt' and t.get('box')):
            k = self.deref_ty(k)
            t = self.ty(k)
        if t['k'] == 'adt' and t['kind'] == 'enum':
            return t
        return None

    # ------------------------------------------------------------ memory
    def load_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            return T.mk('opq', 'uninitialised', 0)
        return v

    def proj(self, v, path):
        for var, name in path:
            v = fld(v, var, name) if var != '[]' else self.index(v, name)
        return v

    def index(self, v, i):
        if v.op == 'arr' and i.op == 'int' and i.a[0] < len(v.a):
            return v.a[i.a[0]]
        if v.op == 'opq':
            return v
        return T.at(v, i)

    def load(self, st, loc):
        v = self.load_root(st, loc.root)
        if v.cell:
            v = settled(self, st, v)
        return self.proj(v, loc.path)

    def store(self, st, loc, val):
        root = self.load_root(st, loc.root) if loc.path else None
        st.mem[loc.root] = self._upd(root, loc.path, val, self.root_ty(loc.root))

    def root_ty(self, root):
        return self.rtypes.get(root)

    def _upd(self, v, path, val, ty):
        if not path:
            return val
        (var, name), rest = path[0], path[1:]
        ty = self._strip(ty)
        if var == '[]':
            if v is not None and v.op == 'arr' and name.op == 'int':
                l = list(v.a)
                l[name.a[0]] = self._upd(l[name.a[0]], rest, val, None)
                return mk('arr', *l)
            return opq('store through an index')
        if v.op == 'adt':
            if var is not None and v.a[1] != var:
                return opq('store to another variant')
            return adt(v.a[0], v.a[1], tuple((n, self._upd(x, rest, val, self._fty(ty, var, name)) if n == name else x)
                                             for n, x in v.a[2]))
        if v.op == 'tup':
            l = list(v.a)
            l[int(name)] = self._upd(l[int(name)], rest, val, self._fty(ty, var, name))
            return mk('tup', *l)
        if v.op == 'clos':
            l = list(v.a[1])
            l[int(name)] = self._upd(l[int(name)], rest, val, None)
            return mk('clos', v.a[0], tuple(l))
        t = self.ty(ty) if ty else {'k': 'other'}
        if t['k'] == 'tuple':
            return self._upd(mk('tup', *[fld(v, None, str(i)) for i in range(len(t['ts']))]), path, val, ty)
        if t['k'] == 'adt' and t['kind'] == 'union':
            return adt(t['path'], var, ((name, self._upd(mk('opq', 'uninitialised', 0), rest, val, self._fty(ty, var, name))),))
        if t['k'] == 'adt' and (t['kind'] == 'struct' or var is not None):
            for vt in t['variants']:
                if t['kind'] == 'struct' or vt['name'] == var:
                    if v.op == 'opq' and v.a[0] == 'uninitialised':
                        e = mk('adt', t['path'], var, tuple(sorted((f['name'], mk('opq', 'uninitialised', 0)) for f in vt['fields'])))
                    else:
                        e = mk('adt', t['path'], var, tuple(sorted((f['name'], fld(v, var, f['name'])) for f in vt['fields'])))
                    return self._upd(e, path, val, ty)
        return opq('partial store to %s' % ty)

    def _strip(self, ty):
        t = self.ty(ty) if ty else None
        while t and (t['k'] in ('ref', 'ptr') or (t['k'] == 'adt' and t.get('box'))):
            ty = self.deref_ty(ty)
            t = self.ty(ty)
        return ty

    def _fty(self, ty, var, name):
        t = self.ty(ty) if ty else {'k': 'other'}
        if t['k'] == 'tuple':
            return t['ts'][int(name)]
        if t['k'] == 'adt':
            for v in t['variants']:
                if var is None or v['name'] == var:
                    for f in v['fields']:
                        if f['name'] == name:
                            return f['t']
        return None

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """the location a place denotes"""
        root = (fr.id, p[0])
        loc = Loc(root, (), fr.inst['locals'][p[0]])
        var = None
        for e in p[1:]:
            if e == '*':
                t = self.ty(loc.ty)
                v = self.load(st, loc)
                nt = self.deref_ty(loc.ty)
                if v.op == 'ref' and not (t['k'] == 'ref' and not t['mut'] and nt and self.is_mut_ref(nt)):
                    loc = Loc(v.a[0], v.a[1], v.a[2] or nt)
                else:
                    loc = Loc(loc.root, loc.path, nt)
            elif isinstance(e, dict) and 'v' in e:
                t = self.ty(loc.ty)
                if t['k'] == 'adt' and t['kind'] == 'enum':
                    var = t['variants'][e['v']]['name']
                continue
            elif isinstance(e, dict) and 'f' in e:
                t = self.ty(loc.ty)
                if t['k'] == 'adt':
                    vt = None
                    for v in t['variants']:
                        if t['kind'] != 'enum' or v['name'] == var:
                            vt = v
                    if vt is None:
                        name = str(e['f'])
                    else:
                        name = vt['fields'][e['f']]['name']
                    if t['path'].startswith('core::mem::') and t['path'].endswith(('ManuallyDrop', 'MaybeDangling', 'MaybeUninit')):
                        loc = Loc(loc.root, loc.path, e['t'])
                        var = None
                        continue
                    loc = Loc(loc.root, loc.path + ((var, name),), e['t'])
                else:
                    loc = Loc(loc.root, loc.path + ((None, str(e['f'])),), e['t'])
                var = None
            elif isinstance(e, dict) and 'ix' in e:
                i = self.load_root(st, (fr.id, e['ix']))
                t = self.ty(loc.ty)
                loc = Loc(loc.root, loc.path + (('[]', i),), t.get('t'))
            elif isinstance(e, dict) and 'cx' in e and not e.get('end'):
                t = self.ty(loc.ty)
                loc = Loc(loc.root, loc.path + (('[]', I(e['cx'])),), t.get('t'))
            else:
                st.mem[('tmp',)] = opq('place %r' % (e,))
                loc = Loc(('tmp',), (), None)
        return loc

    def const(self, k):
        if 'i' in k:
            return I(int(k['i']))
        if 's' in k:
            return S(k['s'])
        if 'b' in k:
            return mk('bytes', bytes(k['b']))
        if 'ref' in k:
            return self.const(k['ref'])
        if 'fn' in k:
            return self.fnitem(k['fn'])
        if 'v' in k or ('f' in k and 't' in k):
            t = self.ty(k['t'])
            if t['k'] == 'adt':
                vt = t['variants'][k.get('v', 0) or 0]
                fs = [self.const(x) for x in k.get('f', [])]
                return adt(t['path'], vt['name'] if t['kind'] == 'enum' else None,
                           dict(zip([f['name'] for f in vt['fields']], fs)))
            if t['k'] == 'tuple':
                return tup(*[self.const(x) for x in k.get('f', [])])
        if 'a' in k:
            return mk('arr', *[self.const(x) for x in k['a']])
        if k.get('z'):
            t = self.ty(k.get('t'))
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'fndef':
                return self.fnitem(t['fn'])
            if t['k'] == 'adt' and t['kind'] != 'enum':
                return adt(t['path'], None, ())
            if t['k'] == 'closure':
                return mk('clos', k['t'], ())
            return UNIT
        if 'static' in k:
            return mk('static', k['static'])
        return opq('constant %s' % (k.get('op'),))

    def fnitem(self, f):
        key = f.get('res') or f.get('decl')
        self.fns[key] = f
        return mk('fnitem', key)

    fns = {}

    def operand(self, st, fr, o):
        if 'c' in o:
            return self.load(st, self.place(st, fr, o['c']))
        if 'm' in o:
            return self.load(st, self.place(st, fr, o['m']))
        if 'k' in o:
            v = self.const(o['k'])
            if v.op == 'opq':
                t = self.ty(o.get('t'))
                if t['k'] == 'fndef':
                    return self.fnitem(t['fn'])
                if t['k'] == 'closure':
                    return mk('clos', o['t'], ())
            return v
        return opq('operand')

    def opty(self, fr, o):
        if 'k' in o:
            return o.get('t')
        p = o.get('c') or o.get('m')
        ty = fr.inst['locals'][p[0]]
        for e in p[1:]:
            if e == '*':
                ty = self.deref_ty(ty)
            elif 'f' in e:
                ty = e['t']
        return ty

    # ------------------------------------------------------------ rvalues
    BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'and', 'BitOr': 'or',
           'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr', 'AddUnchecked': 'add', 'SubUnchecked': 'sub',
           'MulUnchecked': 'mul'}

    def binop(self, op, a, b, ty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Eq', 'Ne'):
                r = self.eqt(a, b)
                if ty == 'bool':
                    for x, y in ((a, b), (b, a)):
                        if y.op == 'int':
                            r = x if y.a[0] == 1 else not_(x)
                return r if op == 'Eq' else not_(r)
            if op == 'Lt':
                return lt(a, b, ty)
            if op == 'Gt':
                return lt(b, a, ty)
            if op == 'Le':
                return not_(lt(b, a, ty))
            return not_(lt(a, b, ty))
        if op in self.BIN:
            k = self.BIN[op]
            if ty == 'bool':
                if k == 'and':
                    return and_(a, b)
                if k == 'or':
                    return or_(a, b)
                if k == 'xor':
                    return or_(and_(a, not_(b)), and_(not_(a), b))
            return arith(k, a, b, ty)
        if op.endswith('WithOverflow'):
            k = self.BIN[op[:-12]]
            r = arith(k, a, b, ty)
            if a.op == 'int' and b.op == 'int':
                x, y = a.a[0], b.a[0]
                m = {'add': x + y, 'sub': x - y, 'mul': x * y}[k]
                return tup(r, B(wrapi(m, ty) != m))
            return tup(r, mk('ovf', k, a, b, ty))
        return opq('operation ' + op)

    def eqt(self, a, b):
        if a.op == 'disc' and b.op == 'disc':
            t = a.a[1]
            for x, y in ((a, b), (b, a)):
                if y.a[0].op == 'adt':
                    return self.is_variant(x.a[0], t, y.a[0].a[1])
            return mk('eq', a, b) if a.h < b.h else mk('eq', b, a)
        for x, y in ((a, b), (b, a)):
            if x.op == 'disc' and y.op == 'int':
                v = self.variants(x.a[1])
                if v:
                    for w in v['variants']:
                        if w['discr'] == y.a[0]:
                            return self.is_variant(x.a[0], x.a[1], w['name'])
                    return FALSE
        return eq(a, b)

    def is_variant(self, x, ty, var):
        v = self.variants(ty)
        return variant_is(x, v['path'], var, [w['name'] for w in v['variants']])

    def disc(self, x, ty):
        if x.op == 'opq':
            return x
        v = self.variants(ty)
        if v is None:
            return opq('discriminant of %s' % ty)
        if x.op == 'adt':
            for w in v['variants']:
                if w['name'] == x.a[1]:
                    return I(w['discr'])
        return mk('disc', x, ty)

    def rvalue(self, st, fr, r, dty=None):
        k = r['r']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k == 'ref':
            loc = self.place(st, fr, r['p'])
            if r['mut']:
                if loc.root == ('tmp',):
                    return opq('reference')
                return mk('ref', loc.root, loc.path, loc.ty)
            return self.load(st, loc)
        if k == 'raw':
            loc = self.place(st, fr, r['p'])
            return mk('ref', loc.root, loc.path, loc.ty)
        if k == 'bin':
            a, b = self.operand(st, fr, r['a']), self.operand(st, fr, r['b'])
            return self.binop(r['op'], a, b, r.get('t'))
        if k == 'un':
            o = self.operand(st, fr, r['o'])
            if r['op'] == 'Not':
                if self.opty(fr, r['o']) == 'bool' or r.get('t') == 'bool':
                    return not_(o)
                ty = r.get('t') or self.opty(fr, r['o'])
                top = wrapi(-1, ty)
                return sub(I(top), o, ty)
            if r['op'] == 'Neg':
                return neg(o, r.get('t'))
            if r['op'] == 'PtrMetadata':
                return self.models.length_of(self, o)
            return opq('unary ' + r['op'])
        if k == 'disc':
            loc = self.place(st, fr, r['p'])
            return self.disc(self.load(st, loc), r['t'])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            if r['k'] == 'tuple':
                return tup(*ops)
            if r['k'] == 'array':
                return mk('arr', *ops)
            if r['k'] == 'closure':
                return mk('clos', r['t'], tuple(ops))
            if r['k'] == 'adt':
                t = self.ty(r['t'])
                if t['k'] == 'adt':
                    vt = t['variants'][r['v']]
                    if t['path'].startswith('core::mem::') and len(ops) == 1:
                        return ops[0]
                    return adt(t['path'], vt['name'] if t['kind'] == 'enum' else None,
                               dict(zip([f['name'] for f in vt['fields']], ops)))
            return opq('aggregate')
        if k == 'cast':
            o = self.operand(st, fr, r['o'])
            c = r['k']
            if c == 'IntToInt':
                ft, tt = r['from'], r['t']
                if o.op == 'disc':
                    return o
                if o.op == 'int':
                    return wrap(o.a[0], tt)
                a, b = RANGES.get(ft), RANGES.get(tt)
                if a and b and b[0] <= a[0] and a[1] <= b[1]:
                    return o if ft in ('char', 'u8', 'bool') and False else mk('cast', o, ft, tt)
                return mk('cast', o, ft, tt)
            if c.startswith('PointerCoercion') or c in ('PtrToPtr', 'BoxDerefTransmute'):
                return o
            if c == 'Transmute':
                ta, tb = self.ty(r['from']), self.ty(r['t'])
                if ta['k'] in ('ref', 'ptr', 'adt') and tb['k'] in ('ref', 'ptr', 'adt'):
                    return o
                return opq('transmute')
            return opq('cast ' + c)
        if k == 'repeat':
            o = self.operand(st, fr, r['o'])
            n = r.get('n')
            if isinstance(n, int) and n <= 256:
                return mk('arr', *([o] * n))
            return opq('repeat')
        if k == 'tls':
            return mk('static', r.get('static', 'tls'))
        return opq('rvalue ' + k)

    # ------------------------------------------------------------ control flow
    def graph(self, key):
        g = self.cfg.get(key)
        if g is None:
            g = self.cfg[key] = Graph(self.inst[key])
        return g

    def assume(self, st, t, b):
        pc = st.pc.assume(t, b)
        if pc is None:
            return None
        if pc is st.pc:
            return st.fork()
        return st.fork(pc)

    def branch(self, st, t):
        """[(state, truth value)] for a boolean term"""
        if t.op == 'int':
            return [(st, t.a[0] != 0)]
        if t.op == 'not':
            return [(s, not b) for s, b in self.branch(st, t.a[0])]
        if t.op == 'and':
            out = []
            cur = [st]
            for x in t.a:
                nxt = []
                for s in cur:
                    for s2, b in self.branch(s, x):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        if t.op == 'eq' and (is_bool(t.a[0]) or is_bool(t.a[1])):
            return [(s2, b1 == b2) for s, b1 in self.branch(st, t.a[0]) for s2, b2 in self.branch(s, t.a[1])]
        out = []
        for b in (True, False):
            s = self.assume(st, t, b)
            if s is not None:
                out.append((s, b))
        return out

    def split_variant(self, st, x, ty):
        """[(state, variant name)]"""
        if x.op == 'adt':
            return [(st, x.a[1])]
        v = self.variants(ty)
        if v is None:
            raise Undecided('variants of %s' % ty)
        names = [w['name'] for w in v['variants']]
        out = []
        k = st.pc.variant(x)
        if k is not None:
            return [(st, k)]
        s = st
        live = [n for n in names if st.pc.decide(variant_is(x, v['path'], n, names)) is not False]
        if len(live) == 1:
            s2 = self.assume(st, variant_is(x, v['path'], live[0], names), True)
            return [(s2, live[0])] if s2 is not None else []
        for n in live:
            s2 = self.assume(st, variant_is(x, v['path'], n, names), True)
            if s2 is not None:
                out.append((s2, n))
        return out

    def switch(self, st, d, ts, other, ty):
        """[(state, target)]"""
        if d.op == 'int':
            for v, b in ts:
                if wrapi(int(v), ty) == d.a[0] or int(v) == d.a[0]:
                    return [(st, b)]
            return [(st, other)]
        if d.op == 'disc':
            vt = self.variants(d.a[1])
            dis = {w['name']: w['discr'] for w in vt['variants']}
            tm = {int(v): b for v, b in ts}
            return [(s, tm.get(dis[n], other)) for s, n in self.split_variant(st, d.a[0], d.a[1])]
        if d.op == 'opq':
            out = []
            for i, (v, b) in enumerate(list(ts) + [(None, other)]):
                a = mk('opqsw', d, i)
                out.append((st.fork(self._opaque_fact(st.pc, a)), b))
            return out
        if ty == 'bool':
            tm = {int(v): b for v, b in ts}
            return [(s, tm.get(1 if b else 0, other)) for s, b in self.branch(st, d)]
        out = []
        cur = st
        for v, b in ts:
            c = I(wrapi(int(v), ty))
            s = self.assume(cur, eq(d, c), True)
            if s is not None:
                out.append((s, b))
            cur = self.assume(cur, eq(d, c), False)
            if cur is None:
                return out
        out.append((cur, other))
        return out

    def _opaque_fact(self, pc, a):
        n = pc.copy()
        n.atoms[a] = True
        n.log += ((a, True),)
        return n

    # ------------------------------------------------------------ functions
    def run(self, key, args, st):
        """All the outcomes of a call."""
        inst = self.inst[key]
        if len(self.callstack) > 60 or self.callstack.count(key) > 2:
            raise Undecided('recursion in %s' % key)
        self.nframe += 1
        fr = Frame(self.nframe, key, inst)
        st = st.fork()
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        for i, t in enumerate(inst['locals']):
            self.rtypes[(fr.id, i)] = t
        self.callstack.append(key)
        try:
            g = self.graph(key)
            outs = self.flow(fr, g, [(0, st)], None)
        finally:
            self.callstack.pop()
        res = []
        for o in outs:
            if o.kind == 'ret':
                o.val = self.load_root(o.st, (fr.id, 0))
                if o.val.op == 'opq' and o.val.a[0] == 'uninitialised' and self.ty(inst['locals'][0]) == {'k': 'tuple', 'ts': []}:
                    o.val = UNIT
                self.drop_frame(o, fr)
            res.append(o)
        return res

    def drop_frame(self, o, fr):
        keep = set()
        for t in [o.val] + [v for r, v in o.st.mem.items() if r[0] != fr.id]:
            for x in refs_in(t):
                keep.add(x)
        for r in [r for r in o.st.mem if r[0] == fr.id and r not in keep]:
            del o.st.mem[r]

    rtypes = {}

    def flow(self, fr, g, work, scope):
        """Propagates states through the graph.  scope: None, or (header, blocks, backs, exits) of the loop
        whose body is being analysed."""
        outs = []
        work = list(work)
        first = scope is not None
        while work:
            bb, st = work.pop()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('more than %d steps' % self.budget)
            if scope is not None and not first:
                if bb == scope[0]:
                    scope[2].append(st)
                    continue
                if bb not in scope[1]:
                    scope[3].append((bb, st))
                    continue
            if bb in g.loops and not first:
                exits, o = self.loop(fr, g, bb, st)
                outs.extend(o)
                work.extend(exits)
                continue
            first = False
            self.visited.setdefault(fr.key, set()).add(bb)
            blk = fr.inst['blocks'][bb]
            for dst, r, sp in blk['s']:
                self.assign(st, fr, dst, r)
            t = blk['t']
            k = t['k']
            if k == 'goto':
                work.append((t['t'], st))
            elif k == 'return':
                outs.append(Out(st, 'ret'))
            elif k == 'switch':
                d = self.operand(st, fr, t['d'])
                for s, b in self.switch(st, d, t['ts'], t['o'], t['ty']):
                    work.append((b, s.fork()))
            elif k == 'call':
                for o in self.call(fr, st, t, blk['sp']):
                    if o.kind == 'ret':
                        if t['t'] is None:
                            outs.append(self.panic(o.st, fr, 'call of a function that does not return', blk['sp']))
                            continue
                        loc = self.place(o.st, fr, t['d'])
                        self.store(o.st, loc, o.val)
                        work.append((t['t'], o.st))
                    else:
                        outs.append(o)
            elif k == 'assert':
                c = self.operand(st, fr, t['c'])
                for s, b in self.branch_assert(st, c, t, fr):
                    if b == bool(t['e']):
                        work.append((t['t'], s))
                    else:
                        outs.append(self.panic(s, fr, t['m'], blk['sp']))
            elif k == 'unreachable':
                continue
            elif k == 'unwind':
                continue
            else:
                raise Undecided('terminator %s' % k)
        return outs

    def branch_assert(self, st, c, t, fr):
        if c.op == 'opq':
            return [(self.fork_opq(st, c), True), (self.fork_opq(st, c), False)]
        return self.branch(st, c)

    def fork_opq(self, st, c):
        return st.fork(self._opaque_fact(st.pc, mk('opqsw', c, 0)))

    def panic(self, st, fr, msg, sp):
        o = Out(st, 'panic', None, (fr.key if fr else None, msg, sp, tuple(self.callstack)))
        return o

    def assign(self, st, fr, dst, r):
        if r['r'] == 'setdisc':
            loc = self.place(st, fr, dst)
            t = self.variants(loc.ty)
            if t is None:
                self.store(st, loc, opq('set discriminant'))
                return
            vt = t['variants'][r['v']]
            v = self.load(st, loc)
            self.store(st, loc, mk('adt', t['path'], vt['name'],
                                   tuple(sorted((f['name'], fld(v, vt['name'], f['name'])) for f in vt['fields']))))
            return
        v = self.rvalue(st, fr, r)
        loc = self.place(st, fr, dst)
        self.store(st, loc, v)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t, sp):
        args = [self.operand(st, fr, a) for a in t['a']]
        f = t['f']
        if 'ind' in f:
            fv = self.operand(st, fr, f['ind'])
            return self.apply(fr, st, fv, args, sp, t.get('dt'))
        return self.call_fn(fr, st, f, args, t['at'], t.get('dt'), sp)

    def call_fn(self, fr, st, f, args, at, dt, sp):
        name = short(f['decl'])
        res = f.get('res')
        local = f.get('local') or (res in self.inst and self.inst[res]['local'])
        if f.get('ctor'):
            c = f['ctor']
            ty = self.ty(c['t']) if c.get('t') else None
            if ty and ty['k'] == 'adt':
                for i, vt in enumerate(ty['variants']):
                    if i == c['variant']:
                        return [Out(st, 'ret', adt(ty['path'], vt['name'] if ty['kind'] == 'enum' else None,
                                                   dict(zip([x['name'] for x in vt['fields']], args))))]
        full = strip_generics(f.get('rpath') or f['decl'])
        c = Call(self, fr, st, f, args, at, dt, sp, name, full)
        h = self.actions.get(full) or self.actions.get(strip_generics(f['decl']))
        if h:
            r = h(c)
            if r is not None:
                return r
        if f.get('kind') == 'dropglue' or name.endswith('mem::drop') or name == 'mem::drop':
            return [Out(st, 'ret', UNIT)]
        m = self.models.lookup(c, local)
        if m is not None:
            r = m(c)
            if r is not None:
                return r
        if name in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call') or (f.get('trait') or '').split('::')[-1] in ('FnOnce', 'FnMut', 'Fn'):
            a = args[1]
            al = list(a.a) if a.op == 'tup' else None
            if al is not None:
                return self.apply(fr, st, args[0], al, sp, dt)
        if f.get('kind') in ('closure',) and res in self.inst:
            return self.run(res, args, st)
        if res in self.inst:
            return self.run(res, args, st)
        return self.unknown(c)

    def unknown(self, c):
        """A call without a model: its result is unknown, and so is all it could change."""
        self.opaque_calls[c.name] = self.opaque_calls.get(c.name, 0) + 1
        st = c.st.fork()
        for a in c.args:
            for r in refs_full(a):
                loc = Loc(r.a[0], r.a[1], r.a[2])
                self.store(st, loc, opq('changed by ' + c.name))
        if c.dt and self.ty(c.dt)['k'] == 'never':
            return [self.panic(st, c.fr, c.name, c.sp)]
        ok, bad = self.models.may_panic(c)
        for a in c.args:
            # a function that is handed over may be called, with anything
            v = self.load(st, Loc(a.a[0], a.a[1], a.a[2])) if a.op == 'ref' else a
            if v.op == 'clos' and len(self.calls_of_unknown) < 4:
                key = self.ty(v.a[0]).get('inst')
                if key in self.inst and key not in self.calls_of_unknown:
                    self.calls_of_unknown.append(key)
                    try:
                        i = self.inst[key]
                        n = i['argc'] - 1
                        if i['spread'] is not None:
                            n = len(self.ty(i['locals'][i['spread']]).get('ts', [])) if isinstance(i['spread'], int) else n
                        bad = bad + [o for o in self.apply(c.fr, st, a, [opq('an argument') for _ in range(n)], c.sp) if o.kind == 'panic']
                    except Undecided:
                        pass
                    finally:
                        self.calls_of_unknown.pop()
        return [Out(st, 'ret', opq('call of ' + c.name))] + bad

    def apply(self, fr, st, fv, args, sp, dt=None):
        """Calls a function value."""
        v = fv
        while v.op == 'ref':
            v = self.load(st, Loc(v.a[0], v.a[1], v.a[2]))
        if v.op == 'clos':
            t = self.ty(v.a[0])
            key = t.get('inst')
            if key is None:
                raise Undecided('closure %s' % v.a[0])
            if key not in self.inst:
                raise Undecided('closure %s is not in the dump' % key)
            env = fv if fv.op == 'ref' else v
            if fv.op != 'ref':
                # a location for the environment, so that a FnMut closure can change its captures
                self.nframe += 1
                root = ('env', self.nframe)
                st = st.fork()
                st.mem[root] = v
                self.rtypes[root] = v.a[0]
                lt_ = self.inst[key]['locals'][1]
                if self.is_mut_ref(lt_):
                    env = mk('ref', root, (), v.a[0])
            else:
                lt_ = self.inst[key]['locals'][1]
                if not self.is_mut_ref(lt_):
                    env = v
            if self.inst[key]['spread'] is not None:
                return self.run(key, [env, tup(*args)], st)
            return self.run(key, [env] + list(args), st)
        if v.op == 'fnitem':
            f = self.fns[v.a[0]]
            at = [None] * len(args)
            return self.call_fn(fr, st, f, list(args), at, dt, sp)
        return self.unknown(Call(self, fr, st, {'decl': 'indirect'}, list(args) + [fv], [], dt, sp, 'indirect', 'indirect'))

    # ------------------------------------------------------------ loops
    def loop(self, fr, g, h, st):
        """Summarises the loop of header h entered in state st: (exits, outcomes)."""
        blocks = g.loops[h]
        live = g.live_in(h)
        base = st.fork()
        base.nl += 1
        lid = '%s#%d' % ('/'.join(short(k) for k in self.callstack[-3:]), base.nl)
        lkey = (len(base.trace), base.nl)
        changed = {}
        for _ in range(12):
            hs = base.fork()
            phi = {}
            for (root, path) in sorted(changed, key=lambda x: (str(x[0]), str(x[1]))):
                ty = self.path_ty(root, path)
                p = mk('phi', lid, self.loc_name(fr, root, path))
                phi[(root, path)] = p
                self.store(hs, Loc(root, path, ty), p)
            backs, exits = [], []
            entry = hs.fork()
            outs = self.flow(fr, g, [(h, entry)], (h, blocks, backs, exits))
            new = {}
            for b in backs:
                self.diff(hs, b, fr, live, g, new)
            new = {k for k in new if not any(self.covers(c, k) for c in changed)}
            if not new:
                break
            for k in new:
                for c in [c for c in changed if self.covers(k, c)]:
                    del changed[c]
                changed[k] = True
        else:
            raise Undecided('no fixpoint for the loop of %s' % fr.key)
        rec = LoopRec(lid, fr.key, fr.inst['blocks'][h]['sp'])
        rec.phi = phi
        rec.init = {k: self.load(base, Loc(k[0], k[1], None)) for k in phi}
        rec.types = {k: self.path_ty(*k) for k in phi}
        rec.backs = backs
        rec.header = hs
        rec.outs = outs
        rec.nexits = len(exits)
        rec.pc0 = hs.pc
        self.loops.append(rec)
        if backs:
            r = self.models.foreach(self, rec, base, exits, outs)
            if r is not None:
                return r
            for _, s in exits:
                s.trace = base.trace + (rec,) + s.trace[len(base.trace):]
            for o in outs:
                o.st.trace = base.trace + (rec,) + o.st.trace[len(base.trace):]
        return exits, outs

    def covers(self, a, b):
        return a[0] == b[0] and b[1][:len(a[1])] == a[1]

    def loc_name(self, fr, root, path):
        n = None
        if root[0] == fr.id:
            for nm, p in fr.inst['names']:
                if p == [root[1]]:
                    n = nm
            n = n or '_%d' % root[1]
        else:
            n = '%s' % (root[1] if isinstance(root[1], str) else '%s_%s' % root)
        return n + ''.join('.' + (str(v) if not isinstance(v, Term) else show(v)) for _, v in path)

    def path_ty(self, root, path):
        ty = self.root_ty(root)
        for var, name in path:
            ty = self._strip(ty)
            if var == '[]':
                ty = self.ty(ty).get('t') if ty else None
            else:
                ty = self._fty(ty, var, name)
        return ty

    def diff(self, a, b, fr, live, g, out):
        for root, va in a.mem.items():
            vb = b.mem.get(root)
            if vb is va or vb is None:
                continue
            if root[0] == fr.id and root[1] not in live and root[1] not in g.addr_taken:
                continue
            if root == ('tmp',):
                continue
            self.diff1(root, (), va, vb, out)

    def diff1(self, root, path, va, vb, out):
        if va is vb:
            return
        if va.op == 'adt' and vb.op == 'adt' and va.a[0] == vb.a[0] and va.a[1] == vb.a[1] and va.a[2]:
            fb = dict(vb.a[2])
            for n, x in va.a[2]:
                self.diff1(root, path + ((va.a[1] if self._is_enum(va) else None, n),), x, fb[n], out)
            return
        if va.op == 'tup' and vb.op == 'tup' and len(va.a) == len(vb.a) and va.a:
            for i, x in enumerate(va.a):
                self.diff1(root, path + ((None, str(i)),), x, vb.a[i], out)
            return
        if va.op == 'clos' and vb.op == 'clos' and va.a[0] == vb.a[0]:
            for i, x in enumerate(va.a[1]):
                self.diff1(root, path + ((None, str(i)),), x, vb.a[1][i], out)
            return
        # an expanded struct against the term it expands
        for x, y in ((va, vb), (vb, va)):
            if x.op == 'adt' and x.a[1] is None and x.a[2] and y.op in ('var', 'fld', 'phi', 'app'):
                fy = tuple((n, fld(y, None, n)) for n, _ in x.a[2])
                for (n, v), (_, w) in zip(x.a[2], fy):
                    self.diff1(root, path + ((None, n),), v if x is va else w, w if x is va else v, out)
                return
        out[(root, path)] = True

    def _is_enum(self, v):
        return v.a[1] is not None

    # ------------------------------------------------------------ entry points
    def find(self, suffix, crate_local=True):
        """the instance whose stripped path ends with the suffix"""
        r = [k for k, i in self.inst.items() if strip_generics(i['path']).endswith(suffix) and '{closure' not in i['path']
             and (i['local'] or not crate_local)]
        if not r:
            raise Undecided('no function %s' % suffix)
        ks = [k for k in r if strip_generics(self.inst[k]['path']) == suffix or
              strip_generics(self.inst[k]['path']).endswith('::' + suffix)]
        if len(ks) != 1:
            raise Undecided('%d functions %s' % (len(ks), suffix))
        return ks[0]

    def find_impl(self, self_prefix, trait, meth):
        r = [k for k, i in self.inst.items() if k.startswith('<' + self_prefix) and k.endswith('>::' + meth)
             and (' as ' + trait) in k and (i['local'])]
        if len(r) != 1:
            raise Undecided('%d implementations of %s::%s for %s' % (len(r), trait, meth, self_prefix))
        return r[0]

    def fresh(self):
        self.rtypes = {}
        self.fns = Engine.fns
        self.steps = 0
        self.panics = []
        self.loops = []
        self.nframe = 0

    def param(self, st, name, ty):
        """the value of a parameter: a mutable reference gets a location of its own"""
        t = self.ty(ty)
        if t['k'] == 'ref' and t['mut']:
            root = ('in', name)
            if root not in st.mem:
                st.mem[root] = mk('var', name)
            self.rtypes[root] = t['t']
            return mk('ref', root, (), t['t'])
        return mk('var', name)

    def summarise(self, key, args=None, st=None):
        """The outcomes of a function on unknown arguments (args: name -> term replaces some)."""
        inst = self.inst[key]
        self.fresh()
        st = st or State()
        names = {p[0]: n for n, p in inst['names'] if len(p) == 1 and p[0] <= inst['argc']}
        al = []
        for i in range(1, inst['argc'] + 1):
            if args and i in args:
                al.append(args[i])
            else:
                al.append(self.param(st, 'self' if names.get(i) == 'self' else 'p%d' % i, inst['locals'][i]))
        for r, v in list(st.mem.items()):
            if r not in self.rtypes and r[0] == 'in':
                self.rtypes[r] = None
        outs = self.run(key, al, st)
        self.journal.append((self, key, outs))
        return outs

    journal = []


def settled(eng, st, v):
    import models
    return models.settle(eng, st, v)


def refs_in(t):
    return {x.a[0] for x in T.find(t, lambda y: y.op == 'ref')}


def refs_full(t):
    return T.find(t, lambda y: y.op == 'ref')


class Frame(object):
    __slots__ = ('id', 'key', 'inst')

    def __init__(self, i, key, inst):
        self.id, self.key, self.inst = i, key, inst


class Call(object):
    __slots__ = ('eng', 'fr', 'st', 'f', 'args', 'at', 'dt', 'sp', 'name', 'full')

    def __init__(self, eng, fr, st, f, args, at, dt, sp, name, full):
        self.eng, self.fr, self.st, self.f, self.args, self.at, self.dt, self.sp = eng, fr, st, f, args, at, dt, sp
        self.name, self.full = name, full

    def ret(self, v, st=None):
        return [Out(st or self.st, 'ret', v)]

    def selfty(self):
        a = self.f.get('args')
        return a[0] if a else None

    def load(self, a, st=None):
        """the value behind an argument (through a mutable reference)"""
        st = st or self.st
        n = 0
        while a.op == 'ref' and n < 8:
            a = self.eng.load(st, Loc(a.a[0], a.a[1], a.a[2]))
            n += 1
        return a

    def target(self, a, st):
        """the location behind a mutable reference argument"""
        n = 0
        while a.op == 'ref' and n < 8:
            loc = Loc(a.a[0], a.a[1], a.a[2])
            v = self.eng.load(st, loc)
            if v.op == 'ref':
                a = v
                n += 1
            else:
                return loc
        return None

    def update(self, a, v, st):
        loc = self.target(a, st)
        if loc is None:
            raise Undecided('%s on something that is not a reference: %s' % (self.name, show(a)))
        self.eng.store(st, loc, v)


class Graph(object):
    """Control flow of a body: natural loops and live locals."""

    def __init__(self, inst):
        self.inst = inst
        blocks = inst['blocks']
        n = len(blocks)
        self.succ = [self._succ(b['t']) for b in blocks]
        pred = [[] for _ in range(n)]
        seen, order = set(), []

        def dfs(x):
            stack = [(x, iter(self.succ[x]))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z not in seen:
                        seen.add(z)
                        stack.append((z, iter(self.succ[z])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        dom = {0: {0}}
        allb = set(rpo)
        for b in rpo[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if p in idx]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        self.irreducible = False
        for b in rpo:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in pred[x]:
                            if p in idx and p not in body:
                                body.add(p)
                                st.append(p)
                    self.loops.setdefault(s, set()).update(body)
                elif idx[s] <= idx[b]:
                    self.irreducible = True
        self.reach = set(rpo)
        self.addr_taken = set()
        for b in blocks:
            for dst, r, sp in b['s']:
                if r['r'] in ('ref', 'raw') and (r.get('mut', True)):
                    p = r['p']
                    if '*' not in p[1:]:
                        self.addr_taken.add(p[0])
        self._live = None

    def _succ(self, t):
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            return sorted(set([b for _, b in t['ts']] + [t['o']]))
        if k in ('call', 'assert'):
            return [t['t']] if t['t'] is not None else []
        return []

    def live_in(self, h):
        if self._live is None:
            self._compute()
        return self._live[h]

    def _compute(self):
        blocks = self.inst['blocks']
        use, dfn = {}, {}
        for b in self.reach:
            u, d = set(), set()

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if isinstance(e, dict) and 'ix' in e and e['ix'] not in d:
                        u.add(e['ix'])

            def op(o):
                if 'c' in o:
                    rd(o['c'])
                elif 'm' in o:
                    rd(o['m'])

            def rv(r):
                for k in ('o', 'a', 'b'):
                    if isinstance(r.get(k), dict):
                        op(r[k])
                if 'p' in r:
                    rd(r['p'])
                for o in r.get('ops', []) or []:
                    op(o)

            def wr(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    rd(p)
            for dst, r, sp in blocks[b]['s']:
                rv(r)
                wr(dst)
            t = blocks[b]['t']
            k = t['k']
            if k == 'switch':
                op(t['d'])
            elif k == 'call':
                for o in t['a']:
                    op(o)
                if 'ind' in t['f']:
                    op(t['f']['ind'])
                wr(t['d'])
            elif k == 'assert':
                op(t['c'])
            elif k == 'return':
                if 0 not in d:
                    u.add(0)
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in self.reach:
                o = set()
                for s in self.succ[b]:
                    if s in live:
                        o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = live
