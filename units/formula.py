"""The plural formula: Formula::parse, Formula::execute, Node::execute."""
from run import *
import engine

PROPS = ('C01', 'C15', 'C16', 'C17', 'C20')
FORMULA = 'plural::formula::Formula'
UNOP, BINOP = 'plural::formula::node::UnOp', 'plural::formula::node::BinOp'
PARSER = 'plural::formula::formula::__parse__Formula::FormulaParser'
SHORT, DEEP, TOO_DEEP = 256, 8192, 65536


def exec_action(c):
    return c.ret(app('EX', c.load(c.args[0]), c.load(c.args[1])))


def node_execute(r):
    for p, vs in ((NODE, ('Var', 'Num', 'UnOp', 'BinOp', 'Cond')), (UNOP, ('Neg', 'Not')),
                  (BINOP, ('Add', 'Sub', 'Mul', 'Div', 'Mod', 'And', 'Or', 'Eq', 'Ne', 'Lt', 'Lte', 'Gt', 'Gte'))):
        r.has_fields(p, *vs)
    kinds = ('Var', 'Num', 'UnOp', 'BinOp', 'Cond')
    bins = [v['name'] for v in r.w.adt(BINOP)['variants']]
    s, n = SELF, var('p2')

    def ex(t):
        return app('EX', t, n)

    def spec(o):
        k = next((k for k in kinds if o.is_(s, NODE, k)), None)
        if k == 'Var':
            return R(Is(n))
        if k == 'Num':
            return R(Is(fld(s, 'Num', '0')))
        if k == 'UnOp':
            x = ex(fld(s, 'UnOp', 'rhs'))
            if o.is_(fld(s, 'UnOp', 'op'), UNOP, 'Not', ('Neg', 'Not')):
                return R(Is(I(1 if o.ask(eq(x, I(0))) else 0)))
            return R(Is(neg(x, 'i64')))
        if k == 'Cond':
            return R(Is(ex(fld(s, 'Cond', 'if_false' if o.ask(eq(ex(fld(s, 'Cond', 'test')), I(0))) else 'if_true'))))
        if k != 'BinOp':
            return R(ANY)
        op = fld(s, 'BinOp', 'op')
        b = next((v for v in bins if o.is_(op, BINOP, v)), None)
        x, y = ex(fld(s, 'BinOp', 'lhs')), ex(fld(s, 'BinOp', 'rhs'))
        if b in ('Add', 'Sub', 'Mul'):
            return R(Is(arith(b.lower(), x, y, 'i64')))
        if b in ('Div', 'Mod'):
            if o.ask(eq(y, I(0))):
                if b == 'Mod':
                    return R(Is(x))
                return R(Is(I(-2 ** 63 if o.ask(lt(x, I(0), 'i64')) else 2 ** 63 - 1)))
            return R(Is(arith('div' if b == 'Div' else 'rem', x, y, 'i64')))
        if b == 'And':
            return R(Is(I(0 if o.ask(eq(x, I(0))) or o.ask(eq(y, I(0))) else 1)))
        if b == 'Or':
            return R(Is(I(0 if o.ask(eq(x, I(0))) and o.ask(eq(y, I(0))) else 1)))
        c = {'Eq': lambda: eq(x, y), 'Ne': lambda: not_(eq(x, y)), 'Lt': lambda: lt(x, y, 'i64'), 'Lte': lambda: not_(lt(y, x, 'i64')),
             'Gt': lambda: lt(y, x, 'i64'), 'Gte': lambda: not_(lt(x, y, 'i64'))}[b]()
        return R(Is(I(1 if o.ask(c) else 0)))
    r.unit('Node::execute', 'plural::formula::node::Node::execute', spec, ('C16', 'C15'),
           actions={'plural::formula::node::Node::execute': exec_action})


def formula_execute(r):
    r.has_fields(FORMULA, 'expr')
    n = var('p2')

    def spec(o):
        if not o.ask(lt(n, I(2 ** 63))):
            return R(Nothing('C15', 'C16'))
        v = app('EX', fld(SELF, None, 'expr'), mk('cast', n, 'usize', 'i64'))
        if o.ask(lt(v, I(0), 'i64')):
            return R(Nothing('C15', 'C16'))
        return R(Some(Is(mk('cast', v, 'i64', 'usize'))))
    r.unit('Formula::execute', FORMULA + '::execute', spec, ('C15', 'C16'),
           actions={'plural::formula::node::Node::execute': exec_action})


def parser_action(c):
    v = app('FPARSE', c.load(c.args[1]))
    out = []
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), True)
    if st:
        out.append(Out(st, 'ret', err(fld(v, 'Err', '0'))))
    st = c.eng.assume(c.st, mk('is', v, T.RES, 'Err'), False)
    if st:
        out.append(Out(st, 'ret', ok(fld(v, 'Ok', '0'))))
    return out


def new_parser_action(c):
    return c.ret(app('FormulaParser'))


def bound(pc, t):
    """an upper bound the path gives for the length of the text (None: none)"""
    lo, hi = pc.bounds(mk('len', t))
    return hi


def formula_parse(r):
    r.has_fields(FORMULA, 'expr')
    text = trim(var('p1'))

    def spec(o):
        if o.ask(eq(text, S(''))):
            return R(Ok(Var(FORMULA, None, {'expr': Var(NODE, 'Var', {})})))
        v = app('FPARSE', text)
        asked = any(occurs(v, a) for a, _ in o.pc.log)
        if not asked:
            # refused before it is parsed: only a text of unreasonable length
            def refused(x, pc):
                if pc.variant(x) != 'Err' or pc.variant(fld(x, 'Err', '0')) != 'PluralForms':
                    return 'a formula is not parsed: %s' % show(x) if not any(a.opq or 'FPARSE' in show(a) for a, _ in pc.log) else None
                if not o.ask(lt(mk('len', text), I(SHORT + 1))):
                    return True
                if any(a.opq for a, _ in pc.log):
                    return None
                return 'a formula of ordinary length is refused'
            return R(Test(refused, 'C17', 'C20'))
        if o.err(v):
            return R(Err(Var(ERROR, 'PluralForms', {}), 'C17', 'C20'))
        return R(Ok(Var(FORMULA, None, {'expr': Is(fld(v, 'Ok', '0'))})))
    acts = {PARSER + '::parse': parser_action, PARSER + '::new': new_parser_action}
    e, outs = r.unit('Formula::parse', FORMULA + '::parse', spec, ('C17', 'C20'), actions=acts)

    # the depth of a formula is bounded, so that its evaluation (a recursion) does not overflow the stack
    v = app('FPARSE', text)
    rec = calls_itself(r, 'plural::formula::node::Node::execute')
    for o in outs:
        if o.kind != 'ret' or not any(a.op == 'is' and a.a[0].op == 'app' and a.a[0].a[0] == 'FPARSE' and a.a[2] == 'Err' and not b
                                      for a, b in o.st.pc.log):
            continue
        if not rec:
            r.rep.fact(('C01',), True, '', '')
            continue
        what = [a.a[0].a[1] for a, b in o.st.pc.log if a.op == 'is' and a.a[0].op == 'app' and a.a[0].a[0] == 'FPARSE']
        b = bound(o.st.pc, what[0])
        if b is None:
            for a in T.find(what[0], lambda x: x.op == 'var'):
                b = bound(o.st.pc, a) if b is None else b
        others = [a for a, _ in o.st.pc.log if a.opq or a.op not in ('is', 'eq') or not (occurs(v, a) or a is eq(text, S('')))]
        good = True if b is not None and b <= DEEP else False if b is not None and b > TOO_DEEP or b is None and not others else None
        r.rep.fact(('C01', 'C16'), good, 'Formula::parse/depth',
                   'Formula::parse: a formula of %s is parsed into a tree that Node::execute descends by recursion'
                   % ('any length' if b is None else 'up to %d bytes' % b))


def calls_itself(r, path):
    """The function is on a cycle of the call graph."""
    d = r.w.dump['instances']
    start = [k for k in d if engine.strip_generics(k) == path]
    seen, todo = set(), list(start)
    while todo:
        k = todo.pop()
        for b in d[k]['blocks']:
            f = b['t'].get('f') if b['t']['k'] == 'call' else None
            x = f and (f.get('res') or f.get('decl'))
            if x in d and x not in seen:
                if x in start:
                    return True
                seen.add(x)
                todo.append(x)
    return not start


def run(r):
    r.group(node_execute, ('C16', 'C15'))
    r.group(formula_execute, ('C15', 'C16'))
    r.group(formula_parse, ('C17', 'C20', 'C01'))
