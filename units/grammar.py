"""The grammar of plural formulas against the expressions of C.

The productions, the terminals and the token expressions are read from the parser that the build generates
from the grammar file; the value each production computes is the summary of its action function (MIR).  The
trees the grammar derives are a regular tree language; so are the trees of C.  Inclusion is decided on the
nestings a fixpoint over the grammar can reach, and the formulas that must be accepted by determinising the
grammar bottom-up."""
import re, itertools, random
from run import *
import engine, rx, evalt, funs
from pc import PC

PROPS = ('C16', 'C17')
FPATH = 'plural::formula::formula::'
BIN = {'||': ('Or', 1), 'or': ('Or', 1), '&&': ('And', 2), 'and': ('And', 2), '==': ('Eq', 3), '!=': ('Ne', 3),
       '<': ('Lt', 4), '<=': ('Lte', 4), '>': ('Gt', 4), '>=': ('Gte', 4), '+': ('Add', 5), '-': ('Sub', 5),
       '*': ('Mul', 6), '/': ('Div', 6), '%': ('Mod', 6)}
UN = {'!': 'Not', 'not': 'Not', '-': 'Neg'}
LEVEL = dict([(t, l) for t, (_, l) in BIN.items()] + [('?:', 0), ('u!', 7), ('unot', 7), ('u-', 7), ('()', 8), ('n', 8), ('num', 8)])


class Grammar(object):
    def __init__(self, text):
        self.prods = []         # (left, [items], action); an item is ('t', terminal) or ('n', nonterminal)
        seen = set()
        for m in re.finditer(r'^\s*// (\S.*?) => ActionFn\((\d+)\);$', text, re.M):
            if m.group(0).strip() in seen:
                continue
            seen.add(m.group(0).strip())
            left, rest = cut(m.group(1) + ' ', ' = ')
            if rest is None:
                raise Undecided('production %s' % m.group(0).strip())
            items = []
            while rest.strip():
                w, rest = cut(rest.strip(), ', ')
                rest = rest or ''
                items.append(('t', w) if w[0] == '"' or re.match(r'r#*"', w) else ('n', w))
            self.prods.append((left.strip(), items, int(m.group(2))))
        n = len(set(re.findall(r'ActionFn\((\d+)\)', text)))
        if not self.prods or n != len({a for _, _, a in self.prods}):
            raise Undecided('%d productions read, %d actions' % (len(self.prods), n))
        m = re.search(r'const __TERMINAL: &\[&str\] = &\[(.*?)\n\s*\];', text, re.S)
        self.terminals = re.findall(r'r###"(.*?)"###', m.group(1)) if m else []
        m = re.search(r'fn __token_to_integer.*?match \*__token \{(.*?)_ => None', text, re.S)
        self.tokens = {int(a): int(b) for a, b in re.findall(r'Token\((\d+), _\) if true => Some\((\d+)\)', m.group(1))} if m else {}
        m = re.search(r'fn new_builder.*?&\[\(&str, bool\)\] = &\[(.*?)\n\s*\];', text, re.S)
        self.lexer = []
        for x in re.finditer(r'\((r?)"((?:\\.|[^"\\])*)", (true|false)\)', m.group(1) if m else ''):
            p = x.group(2) if x.group(1) else x.group(2).replace('\\\\', '\\').replace('\\"', '"')
            self.lexer.append((p, x.group(3) == 'true'))
        if not self.terminals or not self.lexer or len(self.tokens) != len(self.terminals):
            raise Undecided('the tables of the generated parser')

    def terminal(self, w):
        return w[1:-1] if w.startswith('"') else w


def cut(s, sep):
    """s before and after the first separator that stands outside of quotes and brackets"""
    i, depth = 0, 0
    while i < len(s):
        m = re.match(r'r(#+)".*?"\1|"(?:\\.|[^"\\])*"', s[i:])
        if m:
            i += m.end()
            continue
        if not depth and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        depth += s[i] in '<(' 
        depth -= s[i] in '>)'
        i += 1
    return s, None


class Made(object):
    """an outcome of an action function of a production after another was put in the place of a part"""
    def __init__(self, pc, val):
        self.st, self.pc, self.val = self, pc, val


def expand(todo):
    """Nonterminals whose productions are tokens with a constant value (operators, say) are put in their places."""
    by = {}
    for left, items, act, outs in todo:
        by.setdefault(left, []).append((items, outs))
    const = {l for l, ps in by.items()
             if all(all(k == 't' and w.startswith('"') for k, w, _ in items) and items and len(outs) == 1 and is_const(outs[0].val)
                    and (outs[0].val.op == 'adt' and outs[0].val.a[0] != NODE or outs[0].val.op == 'tup' and not outs[0].val.a)
                    for items, outs in ps)}
    done = []
    while todo:
        left, items, act, outs = todo.pop(0)
        if left in const:
            continue
        i = next((i for i, (k, w, _) in enumerate(items) if k == 'n' and w in const), None)
        if i is None:
            done.append((left, items, act, outs))
            continue
        for its, os_ in by[items[i][1]]:
            m = {items[i][2]: os_[0].val} if items[i][2] is not None else {}
            new = []
            for o in outs:
                pc = PC()
                for a, b in o.st.pc.log:
                    pc = pc and pc.assume(subst(a, m), b)
                if pc is not None:
                    new.append(Made(pc, subst(o.val, m)))
            todo.append((left, items[:i] + [(k, w, None) for k, w, _ in its] + items[i + 1:], act, new))
    return done


def same_language(p, q):
    """None, or a string that one expression matches as a whole and the other does not"""
    def final(w, res):
        a, b = [x is not None and x[0] == (0, len(w)) for x in res]
        return ('%r' % w) if a != b else None
    bad, n = rx.product([p + '$', q + '$'], final, anchored=True)
    return bad


def lexer(r, g):
    """every token has its own text, numbers are decimal, white space is skipped"""
    rep = r.rep
    skip = [p for p, s in g.lexer if s]
    for i, (p, s) in enumerate(g.lexer):
        if s:
            continue
        if i not in g.tokens:
            rep.maybe(('C17',), 'token %s has no terminal' % p)
            continue
        t = g.terminals[g.tokens[i]]
        want = '([0-9]+)' if not t.startswith('"') else re.sub(r'([^\w<>=!%:/])', r'\\\1', g.terminal(t))
        if t.startswith('"') and g.terminal(t) not in BIN and g.terminal(t) not in UN and g.terminal(t) not in ('?', ':', '(', ')', 'n'):
            rep.fact(('C17',), False, 'token:%s' % t, 'formulas accept the token %s, which is not one of the language' % t)
            continue
        try:
            bad = same_language(p, '^(?:%s)' % want)
        except (rx.Unsupported, rx.Budget) as x:
            rep.maybe(('C17',), 'token %s: %s' % (t, x))
            continue
        rep.fact(('C17',), not bad, 'token:%s' % t, 'the token %s is the expression %s: e.g. %s' % (t, p, bad))
    have = {g.terminal(t) for t in g.terminals}
    for t in sorted(set(BIN) | set(UN) | {'?', ':', '(', ')', 'n'}):
        rep.fact(('C17',), t in have, 'no-token:%s' % t, 'there is no token %s' % t)
    if not skip:
        rep.fact(('C17',), False, 'skip', 'white space is not skipped')
    for p in skip:
        try:
            bad = same_language(p, r'^(\s*)')
        except (rx.Unsupported, rx.Budget) as x:
            rep.maybe(('C17',), 'skipped text: %s' % x)
            continue
        rep.fact(('C17',), not bad, 'skip', 'text other than white space is skipped: %s, e.g. %s' % (p, bad))


# ---------------------------------------------------------------- what the actions compute
def apply(op, x, y):
    if op in ('Div', 'Mod') and y == 0:
        return x if op == 'Mod' else 10 ** 19 if x >= 0 else -10 ** 19
    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if y else 0
    return {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'Div': q, 'Mod': x - q * y, 'And': int(x != 0 and y != 0), 'Or': int(x != 0 or y != 0),
            'Eq': int(x == y), 'Ne': int(x != y), 'Lt': int(x < y), 'Lte': int(x <= y), 'Gt': int(x > y), 'Gte': int(x >= y)}[op]


def same_meaning(o, want, args):
    """True, a complaint, or None: the value of an action (on one of its paths) and the node it stands for"""
    v = norm(o.st.pc, o.val)
    if v is norm(o.st.pc, want):
        return True
    if v.op == 'adt' and v.a[1] in ('Ok', 'Err') and v.a[0] == T.RES:
        return None
    rng = random.Random(7)
    consts = {x.a[0] for t in [v] + [a for a, _ in o.st.pc.log] for x in T.find(t, lambda x: x.op == 'int') if 0 <= x.a[0] < 2 ** 63}
    nums = sorted({0, 1, 2, 3, 7, 10, 100, 2 ** 31, 2 ** 32, 2 ** 63 - 1} | {y for x in consts for y in (x, x + 1, max(x - 1, 0)) if y < 2 ** 63})
    # the kinds of the parts that the path asks for
    kinds = {}
    for a, b in o.st.pc.log:
        if a.op == 'is' and b:
            kinds[a.a[0]] = a.a[2]
        elif a.op == 'eq' and a.a[1].op == 'int':
            kinds[a.a[0]] = a.a[1].a[0]
    for i in range(600):
        m = evalt.Model(PC(), (), rng)
        for a in args:
            m.env[a] = tree(rng, nums, a, kinds, 2)
        try:
            if any(m.ev(a) != int(b) for a, b in o.st.pc.log):
                continue
            x, y = m.ev(v), m.ev(want)
            for n in (0, 1, 2, 5, 11, 2 ** 32, 2 ** 62):
                if worth(x, n) != worth(y, n):
                    return 'computes %s instead of %s, e.g. for %s' % (show(v), show(want), ', '.join(written(m.env[a]) for a in args))
        except (evalt.NoValue, KeyError, TypeError, IndexError, ValueError, AttributeError):
            return None
    return None


def tree(rng, nums, t, kinds, depth):
    """a tree for the part t, of the kinds that are asked for"""
    k = kinds.get(t)
    if k is None or k not in ('Var', 'Num', 'UnOp', 'BinOp', 'Cond'):
        k = rng.choice(('Var', 'Num', 'Num') if depth <= 0 else ('Var', 'Num', 'Num', 'UnOp', 'BinOp', 'Cond'))

    def sub(f):
        return tree(rng, nums, fld(t, k, f), kinds, depth - 1)

    def op(l):
        w = kinds.get(fld(t, k, 'op'))
        return ('adt', w if w in l else rng.choice(l), ())
    if k == 'Var':
        return ('adt', k, ())
    if k == 'Num':
        w = kinds.get(fld(t, k, '0'))
        return ('adt', k, (('0', w if isinstance(w, int) else rng.choice(nums)),))
    if k == 'UnOp':
        return ('adt', k, (('op', op(['Neg', 'Not'])), ('rhs', sub('rhs'))))
    if k == 'BinOp':
        return ('adt', k, (('lhs', sub('lhs')), ('op', op(sorted({o for o, _ in BIN.values()}))), ('rhs', sub('rhs'))))
    return ('adt', k, (('if_false', sub('if_false')), ('if_true', sub('if_true')), ('test', sub('test'))))


def wrap64(x):
    return (x + 2 ** 63) % 2 ** 64 - 2 ** 63


def worth(t, n):
    """the value of a tree, in the arithmetic of formulas"""
    _, k, f = t
    f = dict(f)
    if k == 'Var':
        return n
    if k == 'Num':
        return f['0']
    if k == 'Cond':
        return worth(f['if_true'] if worth(f['test'], n) else f['if_false'], n)
    x = worth(f['rhs'], n)
    if k == 'UnOp':
        return int(x == 0) if f['op'][1] == 'Not' else wrap64(-x)
    l, op = worth(f['lhs'], n), f['op'][1]
    if op == 'Div' and x == 0:
        return -2 ** 63 if l < 0 else 2 ** 63 - 1
    return wrap64(apply(op, l, x))


def written(t):
    _, k, f = t
    f = dict(f)
    if k == 'Var':
        return 'n'
    if k == 'Num':
        return str(f['0'])
    if k == 'UnOp':
        return '%s(%s)' % ({'Not': '!', 'Neg': '-'}[f['op'][1]], written(f['rhs']))
    if k == 'Cond':
        return '(%s ? %s : %s)' % tuple(written(f[x]) for x in ('test', 'if_true', 'if_false'))
    return '(%s %s %s)' % (written(f['lhs']), [o for o in BIN if BIN[o][0] == f['op'][1]][0], written(f['rhs']))


def node_args(items):
    """the values of the nonterminals of a production, as the action function gets them"""
    return [a for k, w, a in items if k == 'n']


def un(op, x):
    return adt(NODE, 'UnOp', {'op': adt('plural::formula::node::UnOp', op, ()), 'rhs': x})


def bi(op, x, y):
    return adt(NODE, 'BinOp', {'op': adt('plural::formula::node::BinOp', op, ()), 'lhs': x, 'rhs': y})


NUMBERS = ['0', '1', '9', '10', '12', '007', '00', '100', '255', '256', '65536', '2147483648', '4294967296', '9223372036854775807',
           '9223372036854775808', '18446744073709551616', '0' * 30 + '5', '99999999999999999999999']


def number_of(outs, tok, x):
    """what the token x is worth: a number or 'error'; None when it is not known"""
    m = evalt.Fixed({tok: x})
    try:
        for t in {t for o in outs for a in [o.val] + [a for a, _ in o.st.pc.log]
                  for t in T.find(a, lambda t: t.op == 'app' and (t.a[0][:7] == 'parse::' or t.a[0].endswith('::from_str_radix')))}:
            ty = t.a[0].split('::')[1 if t.a[0][:7] == 'parse::' else 0]
            if t.a[0][:7] != 'parse::' and t.a[2] is not I(10) or ty not in funs.WIDTH:
                return None
            w, y = funs.WIDTH[ty], m.s(t.a[1])
            good = re.match(r'[+-]?[0-9]+$' if ty[0] == 'i' else r'\+?[0-9]+$', y) is not None and evalt.fits(int(y), ty, w)
            m.env[t] = ('adt', 'Ok', (('0', int(y)),)) if good else ('adt', 'Err', (('0', ''),))
            if good:
                m.env[fld(t, 'Ok', '0')] = int(y)
            else:
                why = 'cannot parse integer from empty string' if y == '' else 'invalid digit found in string' \
                    if not re.match(r'[+-]?[0-9]+$', y) else 'number too %s to fit in target type' % ('small' if y[0] == '-' else 'large')
                m.env[mk('disp', fld(t, 'Err', '0'))] = why
        os_ = [o for o in outs if all(m.ev(a) == int(b) for a, b in o.st.pc.log)]
        if len(os_) != 1 or os_[0].val.op != 'adt':
            return None
        v = os_[0].val
        if v.a[1] == 'Err':
            return 'error'
        v = fld(v, 'Ok', '0')
        if v.op == 'adt' and v.a[1] == 'Num':
            v = fld(v, 'Num', '0')
        n = m.ev(v)
        return str(n) if isinstance(n, int) else None
    except evalt.NoValue:
        return None


def symbols(r, g):
    """[(left, symbol, [nonterminals])]: the productions as operators; '' is a unit production"""
    rep = r.rep
    out = []
    number = {}
    todo = []
    for left, items, act in g.prods:
        ks = [k for k in r.w.dump['instances'] if k == FPATH + '__action%d' % act]
        if len(ks) != 1:
            raise Undecided('action %d' % act)
        e, outs = r.summary(ks[0])
        outs = [o for o in outs if o.kind == 'ret']
        todo.append((left, [(k, w, fld(var('p%d' % (i + 2)), None, '1')) for i, (k, w) in enumerate(items)], act, outs))
    todo = expand(todo)
    # numbers: the text of the token, read in base ten
    for left, items, act, outs in todo:
        if len(items) == 1 and items[0][0] == 't' and items[0][1].startswith('r'):
            tok = items[0][2]
            v = app('parse::i64', tok)
            node = all(o.val.op == 'adt' and (o.val.a[1] == 'Err' or fld(o.val, 'Ok', '0').op == 'adt') for o in outs)
            good = True
            for o in outs:
                w = o.st.pc.decide(mk('is', v, T.RES, 'Err'))
                x = o.val
                if w is None:
                    good = None
                elif w:
                    good = good and (x.op == 'adt' and x.a[1] == 'Err' or None if x.op != 'adt' else x.a[1] == 'Err')
                else:
                    n = fld(v, 'Ok', '0')
                    y = fld(x, 'Ok', '0') if x.op == 'adt' and x.a[1] == 'Ok' else None
                    if y is None:
                        good = False if x.op == 'adt' else None
                    elif y is n or y is adt(NODE, 'Num', {'0': n}):
                        pass
                    else:
                        good = None if y.opq else False
            why = ', '.join(show(o.val) for o in outs)[:300]
            if good is not True:
                # not the same form: some tokens
                good = None
                for x in NUMBERS:
                    y = number_of(outs, tok, x)
                    if y is None:
                        break
                    if y != (str(int(x)) if int(x) < 2 ** 63 else 'error'):
                        good, why = False, '%s gives %s' % (x, y)
                        break
            rep.fact(('C17', 'C16'), good, 'number', 'the value of a number is not the decimal number of its token: %s' % why)
            if node:
                out.append((left, 'num', []))
            else:
                number[left] = True
    for left, items, act, outs in todo:
        pat = ' '.join('X' if k == 'n' else g.terminal(w) if w.startswith('"') else '#' for k, w, _ in items)
        args = node_args(items)
        if pat == '#':
            continue
        name = '%s = %s' % (left, ' '.join(w for _, w, _ in items))
        ts = [g.terminal(w) for k, w, _ in items if k == 't']
        ns = [w for k, w, _ in items if k == 'n']
        if pat == 'X' and ns[0] in number:
            want, sym, ns = adt(NODE, 'Num', {'0': args[0]}), 'num', []
        elif pat == 'X':
            want, sym = args[0], ''
        elif pat == '( X )':
            want, sym = args[0], '()'
        elif pat == 'n':
            want, sym = adt(NODE, 'Var', ()), 'n'
        elif pat == 'X ? X : X':
            want, sym = adt(NODE, 'Cond', {'test': args[0], 'if_true': args[1], 'if_false': args[2]}), '?:'
        elif len(items) == 3 and len(ns) == 2 and items[1][0] == 't' and ts[0] in BIN:
            want, sym = bi(BIN[ts[0]][0], args[0], args[1]), ts[0]
        elif len(items) == 2 and items[0][0] == 't' and ts[0] in UN:
            want, sym = un(UN[ts[0]], args[0]), 'u' + ts[0]
        else:
            raise Undecided('production %s' % name)
        for o in outs:
            v = same_meaning(o, want, args)
            rep.fact(('C17', 'C16'), True if v is True else None if v is None else False, 'action:%s' % (sym or 'unit'),
                     'the production `%s` %s' % (name, v if isinstance(v, str) else 'is not understood: %s' % show(o.val)))
        out.append((left, sym, ns))
    return out


# ---------------------------------------------------------------- the trees
def opname(s):
    return s[1:] if s.startswith('u') else s


def allowed(op, i, child):
    """C: may the tree with this root stand, without parentheses, as the i-th part of the operator?"""
    l = LEVEL[child]
    if op == '()':
        return True
    if op == '?:':
        return l >= (1, 0, 0)[i]
    if op.startswith('u'):
        return l >= 7
    return l >= LEVEL[op] + (1 if i else 0)


def included(r, prods, start):
    """Every tree of the grammar is a tree of C: the pairs (operator, root of a part) the grammar reaches."""
    reach = {}
    for _ in range(len(prods) + 2):
        for left, sym, ns in prods:
            reach.setdefault(left, set()).update({sym} if sym else reach.get(ns[0], set()))
    live, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x not in live:
            live.add(x)
            todo += [n for left, s, ns in prods if left == x for n in ns]
    done = set()
    for left, sym, ns in prods:
        if not sym or left not in live:
            continue
        for i, n in enumerate(ns):
            for c in sorted(reach.get(n, ())):
                if (sym, i, c) in done:
                    continue
                done.add((sym, i, c))
                good = allowed(sym, i, c)
                key = ('unary-looser:%s:%s' % (opname(sym), opname(c)) if sym.startswith('u') else 'nesting:%s:%d:%s' % (sym, i, c))
                r.rep.fact(('C17',), good, key, 'the grammar lets `%s` stand unparenthesised as part %d of `%s`, where C groups the other way'
                           % (opname(c), i + 1, opname(sym)))
    used = {s for left, s, ns in prods if left in live}
    for t in sorted(LEVEL):
        if t:
            r.rep.fact(('C17',), t in used, 'missing:%s' % t, 'no production for `%s`' % opname(t))
    return len(done)


RLEVEL = {'?:': 0, '||': 1, 'or': 1, '&&': 2, 'and': 2, '==': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, 'u!': 5, 'unot': 5, '+': 6, '-': 6,
          '*': 7, '/': 7, '%': 7, 'u-': 8, '()': 9, 'n': 9, 'num': 9}


def rparts(op):
    """the least level of each part, in the formulas that must be accepted"""
    l = RLEVEL[op]
    if l == 9:
        return (0,) if op == '()' else ()
    if op == '?:':
        return (1, 0, 0)
    if op.startswith('u'):
        return (9,)
    return (l, l + 1)


def accepted(r, prods, start):
    """The ordinary expressions (see DESIGN.md) are all formulas: (level, nonterminals that derive the tree)"""
    def close(s):
        s = set(s)
        while True:
            n = {left for left, sym, ns in prods if not sym and ns[0] in s} | s
            if n == s:
                return frozenset(s)
            s = n
    states = {}
    bad = []
    changed = True
    while changed:
        changed = False
        known = list(states.items())
        for op in sorted(RLEVEL):
            need = rparts(op)
            cands = [[(k, w) for k, w in known if k[0] >= n] for n in need]
            for combo in itertools.product(*cands):
                s = close({left for left, sym, ns in prods if sym == op and all(n in k[1] for n, (k, _) in zip(ns, combo))})
                k = (RLEVEL[op], s)
                if k in states:
                    continue
                w = write(op, [x for _, x in combo])
                states[k] = w
                changed = True
                if start not in s:
                    bad.append((op, w))
                if len(states) > 400:
                    raise Undecided('too many states')
    for op, w in bad[:5]:
        r.rep.fact(('C17',), False, 'refused:%s' % op, 'the formula `%s` is not accepted' % w)
    if not bad:
        r.rep.fact(('C17',), True, '', '')
    return len(states)


def write(op, xs):
    if op == 'num':
        return '1'
    if op == 'n':
        return 'n'
    if op == '()':
        return '(%s)' % xs[0]
    if op == '?:':
        return '%s ? %s : %s' % tuple(xs)
    if op.startswith('u'):
        return '%s %s' % (op[1:], xs[0])
    return '%s %s %s' % (xs[0], op, xs[1])


def grammar(r):
    g = Grammar(open(r.w.formula_rs).read())
    lexer(r, g)
    prods = symbols(r, g)
    lefts = {l for l, _, _ in prods}
    starts = [l for l in lefts if l.startswith('__')]
    if len(starts) != 1:
        raise Undecided('start of the grammar')
    n = included(r, prods, starts[0])
    m = accepted(r, prods, starts[0])
    r.rep.units.append({'unit': 'formula grammar', 'productions': len(prods), 'tokens': len(g.tokens), 'nestings': n, 'tree_states': m,
                        'decided': 'inclusion of tree languages', 'undecided': 0})


def run(r):
    r.group(grammar, ('C17', 'C16'))
