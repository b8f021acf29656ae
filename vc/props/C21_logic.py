from C20_compare import *
def num(n): return (True, *null(n))
def zand(*c): return z3.And(*[zb(x) for x in c])
EMPTY = [(True, 'Empty', None)]
def b_of(v): return zb(v[1][1][0])
def spec_and(E, st, a, b, disj):
    if a[0] == 'Null': return [(True, *a)]
    if b[0] == 'Null': return [(True, *b)]
    if 'Empty' in (a[0], b[0]): return EMPTY
    if a[0] == b[0] == 'Bool': return [(True, *boolval(z3.Or(b_of(a), b_of(b)) if disj else z3.And(b_of(a), b_of(b))))]
    return [num(3)]
def spec_not(E, st, a):
    if a[0] in ('Null', 'Empty'): return [(True, *a)]
    return [(True, *boolval(z3.Not(b_of(a))))] if a[0] == 'Bool' else [num(3)]
def spec_less(E, st, a, b):
    if 'Null' in (a[0], b[0]): return [num(0)]
    if 'Empty' in (a[0], b[0]): return EMPTY
    if a[0] != b[0] and not (a[0] in NUM and b[0] in NUM): return [num(0)]
    if 'Float' in (a[0], b[0]):
        x, y = dbl(E, st, a[1]), dbl(E, st, b[1]); return [(True, *boolval(z3.And(z3.fpLT(x, y), z3.Not(near(x, y)))))]
    return [(True, *boolval(zb(spec_lt(E, st, a, b))))]
def spec_equal(E, st, a, b):
    if 'Null' in (a[0], b[0]): return [num(0)]
    return [(True, *boolval(zb(spec_eq(E, st, a, b))))]
OPS = dict(land=('operator&&', lambda *x: spec_and(*x, False)), lor=('operator||', lambda *x: spec_and(*x, True)), less=('Value::lessThan', spec_less), equal=('Value::equal', spec_equal))
def binop(op, ks, ops=OPS, extra=None):
    def u(E):
        for k in ks:
            for l in KINDS:
                st, p, q, a, b = two(E, k, l); w = f'{k} {op} {l}'; o = obj(E, st, 'out', E.vsz); h0 = heap(st); g0 = lts(st)
                if extra: extra(E, st, a, b)
                def post(s2, r):
                    result(E, s2, o, ops[op][1](E, s2, a, b), w); kk, c = abstract(E, s2, o)
                    rr = quiet(E, s2, 'vc_v_get_' + kk, o)[1] if kk in BOXED else None
                    ob(E, s2, f'{w}: nothing else is left allocated', heap(s2) == (h0 | {rr.obj} if rr is not None else h0), 'lifetime')
                    ob(E, s2, f'{w}: the operands are untouched', all(lts(s2).get(x) == y for x, y in g0.items()), 'frame')
                Run(E, 'nebula::' + ops[op][0]).go(st, 'vc_v_' + op, [o, p, q], post)
    return u
def unop(op, name, sp, extra=None):
    def u(E):
        for k in KINDS:
            st = base_state(E); p, v = new(E, st, k, 'a'); st.rw(p.obj).ro = True; a = (k, bconv(E, v)); o = obj(E, st, 'out', E.vsz); h0 = heap(st); g0 = lts(st); w = f'{op} {k}'
            if extra: extra(E, st, a)
            def post(s2, r):
                result(E, s2, o, sp(E, s2, a), w); kk, c = abstract(E, s2, o)
                rr = quiet(E, s2, 'vc_v_get_' + kk, o)[1] if kk in BOXED else None
                ob(E, s2, f'{w}: nothing else is left allocated', heap(s2) == (h0 | {rr.obj} if rr is not None else h0), 'lifetime')
                ob(E, s2, f'{w}: the operand is untouched', all(lts(s2).get(x) == y for x, y in g0.items()), 'frame')
            Run(E, 'nebula::' + name).go(st, 'vc_v_' + op, [o, p], post)
    return u
def u_const(E):
    st = base_state(E); E.curfn = 'static constants of Value'
    for i in range(-1, 8):
        p = quiet(E, st, 'vc_v_const', IV(32, i))[1]
        result(E, st, p, EMPTY if i < 0 else [num(i)], f'constant {i}')
    E.covers = 1
class PROP(Property):
    id = 'C21'; budget = 400
    assumptions = [LOGNOTE]
    def units(self):
        mk = engine()
        return [('constants', mk, u_const), ('not', mk, unop('not', 'operator!', spec_not))] + [(f'{OPS[op][0]} [{ks[0]}..]', mk, binop(op, ks)) for op in OPS for ks in (KINDS[:4], KINDS[4:])]
    search = search_prog(VSRC, 'value_ops_search', ['logic'])
