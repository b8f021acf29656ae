from valuecommon import *
NUM = ('Int', 'Float')
def dbl(E, st, c): return c[1][0].t if c[0] == 'Float' else i2d(E, st, c[1][0])
ABS = [lambda x, y: z3.fpAbs(z3.fpSub(R, x, y))]      # |x - y|; the laws use it as an uninterpreted symmetric function
def near(x, y): return z3.Or(z3.fpEQ(x, y), z3.fpLT(ABS[0](x, y), EPS))
def spec_eq(E, st, a, b):
    (k, x), (l, y) = a, b
    if k in NUM and l in NUM:
        if k == l == 'Int': return E.s(st, x[1][0]) == E.s(st, y[1][0])
        return near(dbl(E, st, x), dbl(E, st, y))
    if k != l: return False
    if k in ('Empty', 'Null'): return True
    if k == 'Bool': return z3.BoolVal(x[1][0]) == y[1][0] if isinstance(x[1][0], bool) else x[1][0] == y[1][0]
    return c_eq(E, st, x, y)
def spec_lt(E, st, a, b):
    (k, x), (l, y) = a, b
    if k in NUM and l in NUM:
        if k == l == 'Int': return E.s(st, x[1][0]) < E.s(st, y[1][0])
        return z3.fpLT(dbl(E, st, x), dbl(E, st, y))
    if k != l: return TAG[k] < TAG[l]
    if k in ('Empty', 'Null', 'Map', 'Set', 'DataSet'): return False
    if k == 'Bool': return z3.And(z3.Not(x[1][0]), y[1][0])
    return c_lt(E, st, x, y)
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def bconv(E, c): return ('Bool', (E.boolv(c[1][0]),)) if c and c[0] == 'Bool' else c
def engine():
    mk0 = value_engine()
    def mk():
        E = mk0(); setup_relations(E); float_hooks(E); return E
    return mk
ROOT = dict(lt='operator<', gt='operator>', le='operator<=', ge='operator>=', eq='operator==', ne='operator!=')
def spec(E, st, op, a, b):
    if op == 'lt': return zb(spec_lt(E, st, a, b))
    if op == 'gt': return zb(spec_lt(E, st, b, a))
    if op == 'le': return z3.Not(zb(spec_lt(E, st, b, a)))
    if op == 'ge': return z3.Not(zb(spec_lt(E, st, a, b)))
    e = zb(spec_eq(E, st, a, b)); return e if op == 'eq' else z3.Not(e)
def two(E, k, l):
    st = base_state(E); p, v = new(E, st, k, 'a'); q, w = new(E, st, l, 'b'); st.rw(p.obj).ro = True; st.rw(q.obj).ro = True
    return st, p, q, (k, bconv(E, v)), (l, bconv(E, w))
def rel(op, ks):
    def u(E):
        for k in ks:
            for l in KINDS:
                st, p, q, a, b = two(E, k, l); h0 = heap(st); w = f'{k} {ROOT[op][8:]} {l}'
                def post(s2, r):
                    ob(E, s2, f'{w}: the result is the specified relation', zb(E.boolv(r)) == spec(E, s2, op, a, b))
                    ob(E, s2, f'{w}: nothing is left allocated', heap(s2) == h0, 'lifetime')
                Run(E, 'nebula::' + ROOT[op] + '(Value const&, Value const&)').go(st, 'vc_v_' + op, [p, q], post)
    return u
def u_hash(E):
    for k in KINDS:
        st, p, q, a, b = two(E, k, k); h0 = heap(st)
        if k in ('Map', 'Set', 'DataSet'): continue      # documented: not implemented, ends the program
        outs = []
        def post(s2, r): outs.append((s2, r))
        Run(E, 'std::hash<Value>::operator()').go(st, 'vc_v_hash', [p], post)
        for s2, r in outs:
            def post2(s3, r2):
                e = zb(spec_eq(E, s3, a, b))
                if k == 'Float': e = z3.fpEQ(a[1][1][0].t, b[1][1][0].t)
                if k in CLS + ['Str']: s3.pc.append(z3.Implies(e, E.u(s3, hashof(E, s3, a[1])) == E.u(s3, hashof(E, s3, b[1]))))
                ob(E, s3, f'equal {k} values have equal hashes', z3.Implies(e, zb(E.eqt(s3, E.u(s3, r), E.u(s3, r2)) or E.u(s3, r) == E.u(s3, r2))))
                ob(E, s3, f'hash of {k}: nothing is left allocated', heap(s3) == h0, 'lifetime')
            Run(E, 'std::hash<Value>::operator()').go(s2, 'vc_v_hash', [q], post2)
def laws(E, st, vs):
    """laws of the contents' own relations, on the given values"""
    for x in vs:
        for y in vs:
            if x[0] in CLS + ['Str'] and x[0] == y[0]:
                l, g, e = c_lt(E, st, x[1], y[1]), c_lt(E, st, y[1], x[1]), c_eq(E, st, x[1], y[1])
                st.pc += [z3.Not(z3.And(l, g)), e == c_eq(E, st, y[1], x[1])]
                if x is y: st.pc += [z3.Not(l), e]
                for z in vs:
                    if z[0] == x[0]: st.pc += [z3.Implies(z3.And(l, c_lt(E, st, y[1], z[1])), c_lt(E, st, x[1], z[1])), z3.Implies(z3.And(e, c_eq(E, st, y[1], z[1])), c_eq(E, st, x[1], z[1]))]
            if x[0] in NUM and y[0] in NUM: d, e = dbl(E, st, x[1]), dbl(E, st, y[1]); st.pc.append(ABS[0](d, e) == ABS[0](e, d))
            if x[0] == y[0] == 'Int':
                i, j = E.s(st, x[1][1][0]), E.s(st, y[1][1][0]); st.pc.append(z3.Implies(i <= j, z3.fpLEQ(i2d(E, st, i), i2d(E, st, j))))
        if x[0] == 'Float': st.pc.append(z3.Not(z3.fpIsNaN(x[1][1][0].t)))
def sym(E, st, k, n):
    if k == 'Empty': return k, None
    if k in BOXED: return k, (k, n)
    if k == 'Float': return k, (k, (FPV(z3.FP(n + '.f', F64)),))
    if k == 'Bool': return k, (k, (z3.Bool(n + '.b'),))
    return k, (k, tuple(IV(64, z3.Int(f'{n}.{i}'), -(1 << 63), (1 << 63) - 1) for i in range(len(INL[k]))))
def u_laws(E):
    E.curfn = 'laws of the order and of equality'
    ABS[0] = lambda x, y: uf('absdiff', [x, y], F64)
    def lem(st, nm, c): ob(E, st, nm, c, 'lemma')
    for k in KINDS:
        st = State(); a = sym(E, st, k, 'a'); laws(E, st, [a])
        lem(st, f'{k}: nothing is less than itself', z3.Not(zb(spec_lt(E, st, a, a)))); lem(st, f'{k}: everything (but NaN) equals itself', zb(spec_eq(E, st, a, a)))
        for l in KINDS:
            st = State(); a, b = sym(E, st, k, 'a'), sym(E, st, l, 'b'); laws(E, st, [a, b])
            x, y = zb(spec_lt(E, st, a, b)), zb(spec_lt(E, st, b, a))
            lem(st, f'{k}, {l}: less in one direction only', z3.Not(z3.And(x, y)))
            lem(st, f'{k}, {l}: equality is symmetric', zb(spec_eq(E, st, a, b)) == zb(spec_eq(E, st, b, a)))
            if k != l and not (k in NUM and l in NUM):
                lem(st, f'{k}, {l}: values of different types are ordered by type', z3.Xor(x, y)); lem(st, f'{k}, {l}: values of different types are not equal', z3.Not(zb(spec_eq(E, st, a, b))))
            if k == l and k in ('Bool', 'Int'): lem(st, f'{k}: less, equal or greater', z3.Or(x, y, zb(spec_eq(E, st, a, b))))
            for m in KINDS:
                st = State(); a, b, c = sym(E, st, k, 'a'), sym(E, st, l, 'b'), sym(E, st, m, 'c')
                x, y, z = [zb(spec_lt(E, st, *t)) for t in ((a, b), (b, c), (a, c))]
                if z3.is_false(x) or z3.is_false(y) or z3.is_true(z): continue
                laws(E, st, [a, b, c]); lem(st, f'{k}, {l}, {m}: less is transitive', z3.Implies(z3.And(x, y), z))
    E.covers = 1
class PROP(Property):
    id = 'C20'; budget = 600
    assumptions = [LOGNOTE, 'the contained types have strict partial orders, equivalences and hashes that respect them (C05 and C23 for those of this repository)', 'rounding an int64 to double is monotone; |x - y| = |y - x| in IEEE arithmetic']
    def units(self):
        mk = engine()
        return [(f'{ROOT[op]} [{ks[0]}..]', mk, rel(op, ks)) for op in ROOT for ks in (KINDS[:3], KINDS[3:4], KINDS[4:])] + [('hash', mk, u_hash), ('laws', mk, u_laws)]
    search = search_prog(VSRC, 'value_ops_search', ['compare'])
