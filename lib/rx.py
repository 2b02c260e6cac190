"""Regular expressions of the Rust `regex` crate, as automata.

Two expressions are compared, capture groups included, by the product of their prioritised tagged automata
(leftmost-first, as the crate does): a product state is the list of threads of each automaton, with the tag
positions renamed, so it ranges over a finite set and the comparison covers every text."""
import functools, random
from terms import RUST_WS


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- character sets
def is_s(c):
    return c in RUST_WS


def is_d(c):
    import unicodedata
    return unicodedata.category(c) == 'Nd'


def is_w(c):
    import unicodedata
    return c == '_' or unicodedata.category(c) in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl', 'Mn', 'Mc', 'Me', 'Nd', 'Pc') or c in '\u200c\u200d'


class Set(object):
    """A set of characters."""

    def __init__(self, items, neg=False):
        self.items, self.neg = tuple(items), neg

    def has(self, c):
        r = False
        for it in self.items:
            if it[0] == 'r':
                r = it[1] <= c <= it[2]
            elif it[0] == 's':
                r = is_s(c)
            elif it[0] == 'd':
                r = is_d(c)
            elif it[0] == 'w':
                r = is_w(c)
            elif it[0] == 'set':
                r = it[1].has(c)
            if r:
                break
        return r != self.neg

    def points(self):
        out = set()
        for it in self.items:
            if it[0] == 'r':
                for x in (ord(it[1]) - 1, ord(it[1]), ord(it[2]), ord(it[2]) + 1):
                    if 0 <= x < 0x110000 and not 0xd800 <= x < 0xe000:
                        out.add(chr(x))
            elif it[0] == 'set':
                out |= it[1].points()
        return out

    def chars(self, limit=80):
        """the members, when they are few"""
        if self.neg:
            return None
        out = set()
        for it in self.items:
            if it[0] == 'set':
                l = it[1].chars(limit)
                if l is None:
                    return None
                out |= l
                continue
            if it[0] != 'r' or ord(it[2]) - ord(it[1]) > limit:
                return None
            out |= {chr(x) for x in range(ord(it[1]), ord(it[2]) + 1)}
        return out


def lit(c):
    return Set([('r', c, c)])


ANY = Set([], True)


@functools.lru_cache(None)
def folds():
    """simple case folding: the characters that differ in case only"""
    t = {}
    for i in range(0x110000):
        c = chr(i)
        if c.upper() != c or c.lower() != c:
            u = c.upper() if len(c.upper()) == 1 else c
            f = u.lower() if len(u.lower()) == 1 else u
            t.setdefault(f, set()).update((c, f))
    return {c: l for l in t.values() if len(l) > 1 for c in l}


def folded(s):
    """the set, with the other cases of its characters"""
    out = list(s.items)
    for it in s.items:
        if it[0] == 'r':
            if ord(it[2]) - ord(it[1]) > 1000:
                raise Unsupported('case of a large range')
            for i in range(ord(it[1]), ord(it[2]) + 1):
                out += [('r', c, c) for c in sorted(folds().get(chr(i), ()))]
    return Set(out, s.neg)


class Parser(object):
    def __init__(self, p):
        self.p, self.i = p, 0
        self.ng = 0
        self.names = {}
        self.flags = {'s': False, 'x': False, 'i': False, 'U': False}

    def err(self, m):
        raise Unsupported('%s at %d of %r' % (m, self.i, self.p))

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else None

    def parse(self):
        n = self.alt()
        if self.i < len(self.p):
            self.err('unbalanced )')
        return n

    def alt(self):
        save = dict(self.flags)
        alts = [self.seq()]
        while self.peek() == '|':
            self.i += 1
            alts.append(self.seq())
        self.flags = save
        return alts[0] if len(alts) == 1 else ('alt', tuple(alts))

    def seq(self):
        out = []
        while True:
            c = self.peek()
            if c is None or c in '|)':
                break
            if self.flags['x'] and (c in RUST_WS or c == '#'):
                if c == '#':
                    while self.peek() not in (None, '\n'):
                        self.i += 1
                else:
                    self.i += 1
                continue
            a = self.atom()
            if a is None:
                continue
            out.append(self.quant(a))
        return ('seq', tuple(out))

    def quant(self, a):
        while True:
            c = self.peek()
            if c == '*':
                lo, hi = 0, None
            elif c == '+':
                lo, hi = 1, None
            elif c == '?':
                lo, hi = 0, 1
            elif c == '{':
                j = self.p.find('}', self.i)
                if j < 0:
                    self.err('repetition')
                b = self.p[self.i + 1:j].split(',')
                try:
                    lo = int(b[0])
                    hi = lo if len(b) == 1 else (int(b[1]) if b[1].strip() else None)
                except ValueError:
                    self.err('repetition')
                self.i = j
            else:
                return a
            self.i += 1
            greedy = True
            if self.peek() == '?':
                self.i += 1
                greedy = False
            if a[0] == 'assert':
                self.err('repeated assertion')
            a = ('rep', a, lo, hi, greedy)

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '(':
            cap = None
            save = dict(self.flags)
            if self.peek() == '?':
                self.i += 1
                c = self.peek()
                if c == ':':
                    self.i += 1
                elif c == '<' or self.p.startswith('P<', self.i):
                    self.i += 1 if c == '<' else 2
                    j = self.p.find('>', self.i)
                    if j < 0:
                        self.err('group name')
                    self.ng += 1
                    cap = self.ng
                    self.names[self.p[self.i:j]] = cap
                    self.i = j + 1
                else:
                    on = True
                    while self.peek() not in (':', ')', None):
                        f = self.peek()
                        if f == '-':
                            on = False
                        elif f in 'sxi':
                            self.flags[f] = on
                        elif f == 'm' and not on or f == 'u' and on:
                            pass
                        else:
                            self.err('flag %s' % f)
                        self.i += 1
                    if self.peek() == ')':
                        self.i += 1
                        return None
                    self.i += 1
            else:
                self.ng += 1
                cap = self.ng
            n = self.alt()
            if self.peek() != ')':
                self.err('missing )')
            self.i += 1
            self.flags = save
            return ('grp', cap, n) if cap else n
        if c == '.':
            return ('set', ANY if self.flags['s'] else Set([('r', '\n', '\n')], True))
        if c == '^':
            return ('assert', '^')
        if c == '$':
            return ('assert', '$')
        if c == '[':
            return ('set', self.cls())
        if c == '\\':
            n = self.esc()
            return ('set', folded(n[1])) if self.flags['i'] and n[0] == 'set' else n
        if c in '*+?':
            self.err('nothing to repeat')
        return ('set', folded(lit(c)) if self.flags['i'] else lit(c))

    def esc(self, in_class=False):
        c = self.peek()
        if c is None:
            self.err('trailing backslash')
        self.i += 1
        if c in 'sdwSDW':
            return ('set', Set([(c.lower(),)], c.isupper()))
        m = {'n': '\n', 'r': '\r', 't': '\t', 'f': '\x0c', 'v': '\x0b', 'a': '\x07'}
        if c in m:
            return ('set', lit(m[c]))
        if c == 'x' or c == 'u':
            if self.peek() == '{':
                j = self.p.find('}', self.i)
                h = self.p[self.i + 1:j]
                self.i = j + 1
            else:
                k = 2 if c == 'x' else 4
                h = self.p[self.i:self.i + k]
                self.i += k
            try:
                return ('set', lit(chr(int(h, 16))))
            except ValueError:
                self.err('hexadecimal escape')
        if not in_class and c == 'A':
            return ('assert', '^')
        if not in_class and c == 'z':
            return ('assert', '$')
        if c.isalnum():
            self.err('escape \\%s' % c)
        return ('set', lit(c))

    def cls(self):
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        items = []
        first = True
        while True:
            c = self.peek()
            if c is None:
                self.err('missing ]')
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[':
                if self.p.startswith('[:', self.i):
                    j = self.p.find(':]', self.i)
                    n = self.p[self.i + 2:j]
                    t = {'space': [('r', '\t', '\r'), ('r', ' ', ' ')], 'digit': [('r', '0', '9')],
                         'alpha': [('r', 'a', 'z'), ('r', 'A', 'Z')], 'alnum': [('r', 'a', 'z'), ('r', 'A', 'Z'), ('r', '0', '9')]}.get(n)
                    if t is None:
                        self.err('class %s' % n)
                    items += t
                    self.i = j + 2
                    continue
                self.i += 1
                items.append(('set', self.cls()))
                continue
            if self.p.startswith(('&&', '--', '~~'), self.i):
                self.err('class operation')
            if c == '\\':
                self.i += 1
                s = self.esc(True)[1]
                one = s.items[0][1] if not s.neg and len(s.items) == 1 and s.items[0][0] == 'r' else None
            else:
                self.i += 1
                s, one = lit(c), c
            if one is not None and self.peek() == '-' and self.i + 1 < len(self.p) and self.p[self.i + 1] != ']':
                self.i += 1
                d = self.peek()
                if d == '\\':
                    self.i += 1
                    t = self.esc(True)[1]
                    d = t.items[0][1]
                else:
                    self.i += 1
                if d < one:
                    self.err('empty range')
                items.append(('r', one, d))
            else:
                items.append(('set', s))
        s = Set(items, neg)
        return folded(s) if self.flags['i'] else s


# ---------------------------------------------------------------- programs
class Prog(object):
    """code: ('set', Set) | ('split', (targets by priority)) | ('save', n) | ('assert', c) | ('match',)"""

    def __init__(self, p):
        ps = Parser(p)
        self.pattern = p
        self.ast = ps.parse()
        self.ng, self.names = ps.ng, ps.names
        self.code = []
        self.emit(('grp', 0, self.ast))
        self.code.append(('match',))
        if len(self.code) > 4000:
            raise Unsupported('too large')

    def emit(self, n):
        c = self.code
        k = n[0]
        if k == 'set':
            c.append(n)
        elif k == 'assert':
            c.append(n)
        elif k == 'seq':
            for x in n[1]:
                self.emit(x)
        elif k == 'grp':
            c.append(('save', 2 * n[1]))
            self.emit(n[2])
            c.append(('save', 2 * n[1] + 1))
        elif k == 'alt':
            jumps = []
            for i, x in enumerate(n[1]):
                if i + 1 < len(n[1]):
                    s = len(c)
                    c.append(None)
                    self.emit(x)
                    jumps.append(len(c))
                    c.append(None)
                    c[s] = ('split', (s + 1, len(c)))
                else:
                    self.emit(x)
            for j in jumps:
                c[j] = ('split', (len(c),))
        elif k == 'rep':
            _, x, lo, hi, greedy = n
            for _ in range(lo):
                self.emit(x)
            if hi is None:
                s = len(c)
                c.append(None)
                self.emit(x)
                c.append(('split', (s,)))
                c[s] = ('split', (s + 1, len(c)) if greedy else (len(c), s + 1))
            else:
                ss = []
                for _ in range(hi - lo):
                    ss.append(len(c))
                    c.append(None)
                    self.emit(x)
                for s in ss:
                    c[s] = ('split', (s + 1, len(c)) if greedy else (len(c), s + 1))

    def closure(self, threads, pos, start, end):
        """The threads after the empty moves, in priority order; ends at the first match."""
        out, seen = [], set()
        stack = [(pc, t) for pc, t in reversed(threads)]
        while stack:
            pc, t = stack.pop()
            if pc in seen:
                continue
            seen.add(pc)
            i = self.code[pc]
            k = i[0]
            if k == 'split':
                for x in reversed(i[1]):
                    stack.append((x, t))
            elif k == 'save':
                l = list(t)
                l[i[1]] = pos
                stack.append((pc + 1, tuple(l)))
            elif k == 'assert':
                if (start if i[1] == '^' else end):
                    stack.append((pc + 1, t))
            elif k == 'match':
                out.append((pc, t))
                break
            else:
                out.append((pc, t))
        return out

    def init(self):
        return ((0, (None,) * (2 * self.ng + 2)),)


@functools.lru_cache(None)
def prog(p):
    return Prog(p)


def match(p, s, at=0):
    """(start, end) of every group of the leftmost-first match, or None."""
    g = prog(p)
    threads, best = [], None
    n = len(s)
    for i in range(at, n + 1):
        if best is None:
            threads = list(threads) + [g.init()[0]]
        cl = g.closure(threads, i, i == 0, i == n)
        threads = []
        for pc, t in cl:
            if g.code[pc][0] == 'match':
                best = t
                break
            if i < n and g.code[pc][1].has(s[i]):
                threads.append((pc + 1, t))
        if not threads and best is not None:
            break
    if best is None:
        return None
    return [(best[2 * k], best[2 * k + 1]) if best[2 * k] is not None and best[2 * k + 1] is not None else None
            for k in range(g.ng + 1)]


def find_iter(p, s):
    at, last = 0, -1
    while at <= len(s):
        m = match(p, s, at)
        if m is None:
            return
        a, b = m[0]
        if a == b and a == last:
            at = b + 1 if at == a else a + 1
            m2 = match(p, s, at) if at <= len(s) else None
            if m2 is None:
                return
            a, b = m2[0]
            m = m2
        yield m
        last = b
        at = b


# ---------------------------------------------------------------- groups
def group_status(p, i):
    """Whether the group takes part in every match, none, or some."""
    g = prog(p)
    if i > g.ng:
        return 'never'

    def inside(n):
        k = n[0]
        if k == 'grp':
            return n[1] == i or inside(n[2])
        if k == 'seq':
            return any(inside(x) for x in n[1])
        if k == 'alt':
            return any(inside(x) for x in n[1])
        if k == 'rep':
            return inside(n[1])
        return False

    def go(n):
        k = n[0]
        if k == 'grp':
            return n[1] == i or go(n[2])
        if k == 'seq':
            return any(go(x) for x in n[1])
        if k == 'alt':
            return all(go(x) for x in n[1])
        if k == 'rep':
            return n[2] > 0 and go(n[1])
        return False
    return 'always' if go(g.ast) else 'maybe'


def group_name(p, name):
    return prog(p).names.get(name)


def language(n, limit=64):
    """The finite language of a node, or None."""
    k = n[0]
    if k == 'set':
        return n[1].chars(limit)
    if k == 'assert':
        return {''}
    if k == 'grp':
        return language(n[2], limit)
    if k == 'alt':
        out = set()
        for x in n[1]:
            l = language(x, limit)
            if l is None:
                return None
            out |= l
        return out
    if k == 'seq':
        out = {''}
        for x in n[1]:
            l = language(x, limit)
            if l is None:
                return None
            out = {a + b for a in out for b in l}
            if len(out) > limit:
                return None
        return out
    if k == 'rep':
        _, x, lo, hi, _ = n
        if hi is None:
            return None
        l = language(x, limit)
        if l is None:
            return None
        out, cur = set(), {''}
        for j in range(hi + 1):
            if j >= lo:
                out |= cur
            cur = {a + b for a in cur for b in l}
            if len(cur) > limit:
                return None
        return out
    return None


def group_language(p, i, limit=64):
    def go(n):
        if n[0] == 'grp' and n[1] == i:
            return n
        for x in ([n[2]] if n[0] == 'grp' else n[1] if n[0] in ('seq', 'alt') else [n[1]] if n[0] == 'rep' else []):
            r = go(x)
            if r:
                return r
        return None
    n = go(prog(p).ast)
    return language(n[2], limit) if n else set()


def samples(p, n=40):
    """Some texts of the language of an expression (assertions are not looked at)."""
    rng = random.Random(p)

    def go(x):
        k = x[0]
        if k == 'set':
            cs = [c for c in SAMPLE if x[1].has(c)] or [c for c in POOL if x[1].has(c)]
            return rng.choice(cs) if cs else ''
        if k == 'grp':
            return go(x[2])
        if k == 'alt':
            return go(rng.choice(x[1]))
        if k == 'seq':
            return ''.join(go(y) for y in x[1])
        if k == 'rep':
            _, y, lo, hi, _ = x
            return ''.join(go(y) for _ in range(rng.randint(lo, min(lo + 2, hi if hi is not None else lo + 2))))
        return ''
    try:
        a = prog(p).ast
    except Unsupported:
        return []
    return list(dict.fromkeys(go(a) for _ in range(n)))


# ---------------------------------------------------------------- alphabets
SAMPLE = 'abnrtvxX019 \t\\"\'#~|:=;.,_-\xe9'
POOL = [chr(x) for x in range(1, 127)] + list('\x85\xa0\u2003\u0660\xe9\xdf\u65e5\u200b\u203f\U0001f600\x7f\u2028\x1c')


def sets_of(p):
    return [i[1] for i in prog(p).code if i[0] == 'set']


def alphabet(patterns, extra='', exclude='\n', preds=()):
    """One character of each class that the expressions and the predicates can tell apart; `extra` characters are
    kept apart."""
    sets = []
    pool = list(POOL)
    for p in patterns:
        for s in sets_of(p):
            sets.append(s)
            pool += sorted(s.points())
    seen, out = {}, []
    for c in list(extra) + pool:
        if c in exclude:
            continue
        sig = tuple(s.has(c) for s in sets) + tuple(bool(q(c)) for q in preds) + ((c,) if c in extra else (is_s(c),))
        if sig not in seen:
            seen[sig] = c
            out.append(c)
    return out


# ---------------------------------------------------------------- product
class Budget(Exception):
    pass


def product(patterns, final, extra='', exclude='\n', anchored=False, limit=200000, preds=(), keep=()):
    """`preds`: predicates of characters; which of them has held of a character so far is part of the state.
    `keep`: (expression, group) pairs; the text of these groups is part of the state.  Explores the product automaton of the expressions.  `final(word, results)` is called for every
    product state with a shortest word that reaches it and the positions of the groups of each expression at
    the end of this word (None: no match); it returns a complaint or None.  Returns (complaint, states)."""
    ps = [prog(p) for p in patterns]
    al = alphabet(patterns, extra, exclude, preds)
    bits = {c: frozenset(i for i, q in enumerate(preds) if q(c)) for c in al}
    n = len(ps)
    # state: for each automaton (threads before closure, best match so far)
    st0 = tuple((p.init(), None) for p in ps)
    seen = {(canon(st0, 0), frozenset(), ()): True}
    todo = [(st0, '', frozenset())]
    k = 0
    classes = {}
    for c in al:
        for p in ps:
            for i in p.code:
                if i[0] == 'set':
                    classes[(i[1], c)] = i[1].has(c)
    while k < len(todo):
        st, w, held = todo[k]
        k += 1
        if len(todo) > limit:
            raise Budget('product of %d expressions' % n)
        pos = len(w)
        res = []
        for p, (th, best) in zip(ps, st):
            r = best
            for pc, t in p.closure(list(th), pos, pos == 0, True):
                if p.code[pc][0] == 'match':
                    r = t
                    break
            res.append(None if r is None else [(r[2 * j], r[2 * j + 1]) if r[2 * j] is not None and r[2 * j + 1] is not None else None
                                               for j in range(p.ng + 1)])
        bad = final(w, res)
        if bad:
            return bad, len(todo)
        cls = []
        for p, (th, best) in zip(ps, st):
            b = best
            l = []
            for pc, t in p.closure(list(th), pos, pos == 0, False):
                if p.code[pc][0] == 'match':
                    b = t
                    break
                l.append((pc, p.code[pc][1], t))
            cls.append((l, b))
        for c in al:
            nst = []
            alive = False
            for p, (l, b) in zip(ps, cls):
                th = [(pc + 1, t) for pc, s, t in l if classes[(s, c)]]
                if b is None and not anchored:
                    th.append((0, (None,) * (2 * p.ng + 2)))
                if th or b is not None:
                    alive = True
                nst.append((tuple(th), b))
            if not alive:
                # every expression has failed for ever
                key = 'dead'
            else:
                key = canon(tuple(nst), pos + 1)
            h = held | bits[c]
            key = (key, h, texts(nst, w + c, keep) if keep and alive else ())
            if key not in seen:
                seen[key] = True
                todo.append((tuple(nst), w + c, h))
    return None, len(todo)


def texts(st, w, keep):
    """The texts of the groups to keep, in every thread and in the best match."""
    out = []
    for i, g in keep:
        th, b = st[i]
        for t in [t for _, t in th] + ([b] if b is not None else []):
            x, y = t[2 * g], t[2 * g + 1]
            out.append(None if x is None else w[x:] if y is None or y < x else w[x:y])
    return tuple(out)


def canon(st, pos):
    """The state with its positions renamed by rank."""
    ids = set()
    for th, b in st:
        for pc, t in th:
            ids.update(t)
        if b is not None:
            ids.update(b)
    ids.discard(None)
    rank = {x: i for i, x in enumerate(sorted(ids))}
    rank[None] = None
    out = []
    for th, b in st:
        out.append((tuple((pc, tuple([rank[x] for x in t])) for pc, t in th),
                    None if b is None else tuple(rank[x] for x in b)))
    return (tuple(out), pos == 0, pos in ids)
