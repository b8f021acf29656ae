from exprcommon import *
AR = dict(Add='add', Minus='sub', Multiply='mul', Division='div', Mod='mod')
UN = ['UnaryPlus', 'UnaryNegate', 'UnaryNot', 'UnaryIncr', 'UnaryDecr', 'IsNull', 'IsNotNull', 'IsEmpty', 'IsNotEmpty']
RL = ['RelEQ', 'RelNE', 'RelLT', 'RelLE', 'RelGT', 'RelGE', 'RelREG', 'RelIn', 'RelNotIn', 'Contains', 'NotContains', 'StartsWith', 'NotStartsWith', 'EndsWith', 'NotEndsWith']
LG = ['LogicalAnd', 'LogicalOr', 'LogicalXor']
BODY = '#include "common/expression/ArithmeticExpression.h"\n#include "common/expression/UnaryExpression.h"\n#include "common/expression/RelationalExpression.h"\n#include "common/expression/LogicalExpression.h"\n'
BODY += ''.join(f'X void* vc_new_{k}(ObjectPool* p, Expression* l, Expression* r) {{ return ArithmeticExpression::makeKind(p, Expression::Kind::k{k}, l, r); }}\n' for k in AR)
BODY += ''.join(f'X void* vc_new_{k}(ObjectPool* p, Expression* l, Expression* r) {{ return RelationalExpression::makeKind(p, Expression::Kind::k{k}, l, r); }}\n' for k in RL)
BODY += ''.join(f'X void* vc_new_{k}(ObjectPool* p, Expression* l) {{ return UnaryExpression::make{k[5:] if k.startswith("Unary") else k}(p, l); }}\n' for k in UN)
BODY += ''.join(f'X void* vc_new_{k}(ObjectPool* p) {{ return LogicalExpression::make{k[7:]}(p); }}\n' for k in LG)
BODY += ''.join(f'X const Value* vc_eval_{c}({c}Expression* e, ExpressionContext* c) {{ return &e->eval(*c); }}\n' for c in ('Arithmetic', 'Unary', 'Relational', 'Logical'))
BODY += ''.join(f'X uint64_t vc_kind_{k}() {{ return (uint64_t)Expression::Kind::k{k}; }}\n' for k in ('Var', 'VersionedVar'))
STRP = dict(EdgeProperty=2, TagProperty=2, VariableProperty=2, SourceProperty=2, DestProperty=2, InputProperty=1, EdgeSrcId=1, EdgeType=1, EdgeRank=1, EdgeDstId=1, Variable=1)
BODY2 = ''.join(f'#include "common/expression/{k}Expression.h"\n' for k in ('Case', 'TypeCasting', 'Variable', 'Property', 'Constant', 'Vertex', 'Edge', 'Column'))
BODY2 += ''.join('X void* vc_new_%s(ObjectPool* p, %s) { return %sExpression::make(p, %s); }\n' % (k, ', '.join(f'const std::string* s{j}' for j in range(n)), k, ', '.join(f'*s{j}' for j in range(n))) for k, n in STRP.items())
BODY2 += '''X void* vc_new_VersionedVariable(ObjectPool* p, const std::string* s, Expression* v) { return VersionedVariableExpression::make(p, *s, v); }
X void* vc_new_VersionedVariable0(ObjectPool* p, const std::string* s) { return VersionedVariableExpression::make(p, *s, nullptr); }
X void* vc_new_TypeCasting(ObjectPool* p, uint64_t t, Expression* x) { return TypeCastingExpression::make(p, static_cast<Value::Type>(t), x); }
X void* vc_new_Vertex(ObjectPool* p) { return VertexExpression::make(p); }
X void* vc_new_Edge(ObjectPool* p) { return EdgeExpression::make(p); }
X void* vc_new_Column(ObjectPool* p, int32_t i) { return ColumnExpression::make(p, i); }
X void* vc_new_Constant(ObjectPool* p, const Value* v) { return ConstantExpression::make(p, *v); }
X void* vc_new_Case(ObjectPool* p) { return CaseExpression::make(p); }
X void vc_case_cond(CaseExpression* c, Expression* e) { c->setCondition(e); }
X void vc_case_default(CaseExpression* c, Expression* e) { c->setDefault(e); }
'''
BODY2 += ''.join(f'X const Value* vc_eval_{c}({c}Expression* e, ExpressionContext* c) {{ return &e->eval(*c); }}\n' for c in ['Case', 'TypeCasting', 'VersionedVariable', 'Vertex', 'Edge', 'Column', 'Constant'] + list(STRP))
def mods2(): return module_of('exprleaf', [k + 'Expression' for k in ('Case', 'TypeCasting', 'Variable', 'Property', 'Constant', 'Vertex', 'Edge', 'Column')], BODY2)
def mods(): return module_of('exprscalar', ['ArithmeticExpression', 'UnaryExpression', 'RelationalExpression', 'LogicalExpression', 'BinaryExpression'], BODY)
L, R, S0 = z3.Int('lhs'), z3.Int('rhs'), z3.Int('ctx')
def make(E, st, k, *terms):
    pool = obj(E, st, 'pool', 64); st2, p = quiet(E, st, 'vc_new_' + k, pool, *[E.subexpr(E, st, t) for t in terms]); result_of(E, st2, p); return st2, p
def check(E, st, cls, p, want, what, after=None):
    c = E.context(E, st)
    def post(s2, r):
        g = answer(E, s2, r); ob(E, s2, what, g is not None and g == want(s2)); after(s2, c) if after else ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
    Run(E, f'nebula::{cls}Expression::eval').go(st, f'vc_eval_{cls}', [p, c], post); return c
def vals(E, st): return norm(E, st, evalof(L, S0)), norm(E, st, evalof(R, S0))
def u_arith(E):
    for k, o in AR.items():
        st, p = make(E, State(), k, L, R); check(E, st, 'Arithmetic', p, lambda s2: arith(E, s2, o, *vals(E, s2)), f'{k}: the value of the left operand {o} that of the right')

def kind(E, nm): return E.u(State(), quiet(E, State(), 'vc_kind_' + nm)[1])
def u_unary(E):
    for k in UN:
        st, p = make(E, State(), k, L); v = norm(E, st, evalof(L, S0)); var = z3.Or([E.kindof(E, st, L) == kind(E, x) for x in ('Var', 'VersionedVar')]); one = mk(E, st, 'Int', z3.IntVal(1))
        step = {'UnaryIncr': 'add', 'UnaryDecr': 'sub'}.get(k); new = arith(E, st, step, v, one) if step else None
        def want(s2):
            if k == 'UnaryPlus': return v
            if k == 'UnaryNegate': return arith(E, s2, 'neg', v)
            if k == 'UnaryNot': return op_not(E, s2, v)
            if step: return z3.If(var, new, null(E, s2, 3))
            r = isk(v, 'Null') if 'Null' in k else isk(v, 'Empty'); return mkbool(E, s2, z3.Not(r) if 'Not' in k else r)
        def after(s2, c): ob(E, s2, f'{k}: ' + ('the variable takes the new value, nothing else of the context changes' if step else 'the context is untouched'), E.cx(s2, c) == (z3.If(var, setof(S0, uf('varname', [L], IN), new), S0) if step else S0))
        check(E, st, 'Unary', p, want, f'{k}: the value', after)
def u_rel(ks):
    def u(E):
        for k in ks:
            st, p = make(E, State(), k, L, R); l, r = vals(E, st)
            if k == 'RelREG': E.regex = True
            def want(s2): return relspec(E, s2, k, l, r)
            check(E, st, 'Relational', p, want, f'{k}: the value')
    return u
def relspec(E, st, k, l, r):
    N, B = lambda: null(E, st, 0), lambda: null(E, st, 3)
    if k.startswith('Rel') and k[3:] in ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE'):
        e, t = rel3(E, st, 'equal', l, r), rel3(E, st, 'lessThan', l, r); n = lambda x: op_not(E, st, x)
        return {'EQ': e, 'NE': n(e), 'LT': t, 'LE': op_or(E, st, t, e), 'GT': op_and(E, st, n(t), n(e)), 'GE': op_or(E, st, n(t), e)}[k[3:]]
    if k in ('RelIn', 'RelNotIn'):
        neg = k == 'RelNotIn'; res = z3.BoolVal(False); nul = null(E, st, 0); has = lambda x: z3.If(isk(r, 'List'), uf('inList', [cont('List', r), x], BO), z3.If(isk(r, 'Set'), uf('inSet', [cont('Set', r), x], BO), uf('inMap', [cont('Map', r), x], BO)))
        inside = z3.If(has(l), mkbool(E, st, not neg), z3.If(has(nul), nul, mkbool(E, st, neg)))
        container = z3.Or([isk(r, x) for x in ('List', 'Set', 'Map')])
        return z3.If(z3.And(isk(r, 'Null'), nk(r) == 0), nul, z3.If(container, z3.If(isk(l, 'Null'), nul, inside), B()))
    a, b = cont('Str', l), cont('Str', r); neg = k.startswith('Not'); both = z3.And(isk(l, 'Str'), isk(r, 'Str')); ok = lambda x: z3.Or(isk(x, 'Str'), z3.And(isk(x, 'Null'), nk(x) == 0))
    if k == 'RelREG': yes = z3.If(uf('regex.valid', [b], BO), mkbool(E, st, uf('regex.match', [a, b], BO)), B())
    else:
        h = {'Contains': lambda: firstocc(E, st, a, b) >= 0, 'StartsWith': lambda: occ(E, st, a, b, 0), 'EndsWith': lambda: occ(E, st, a, b, slen(E, st, a) - slen(E, st, b))}[k.replace('Not', '')](); yes = mkbool(E, st, z3.Not(h) if neg else h)
    return z3.If(both, yes, z3.If(z3.And(ok(l), ok(r)), N(), B()))
def regex_setup(E):
    def getregex(E, st, a, f, i):
        b = tid(E.g_get(st, a[1], 'Str', 'pattern')); v = uf('regex.valid', [b], BO); s2 = st.fork(); st.pc.append(v); s2.pc.append(z3.Not(v)); p = obj(E, st, 'regex', 32); st.rw(p.obj).g['regex'] = b; x = obj(E, s2, 'exception', 64); s2.rw(x.obj).g['onload'] = lambda E, st, o, off, sz, ty_: E.exc_vptr(E, st)
        return [(st, p), (s2, Exc('std::regex_error', x))]
    E.on_first(r'nebula::ExpressionContext::getRegex\(.*\)', getregex)
    def match(E, st, a, f, i):
        b = st.mem[a[1].obj].g.get('regex'); E.oblige(st, b is not None, 'precondition', 'the regular expression is one that was built'); return uf('regex.match', [tid(E.g_get(st, a[0], 'Str', 'text')), b], BO)
    E.on_first(r'(bool )?std::regex_match<.*>\(' + STRQ + r' const&, .*\)', match)
# ------------------------------------------------------------------ AND, OR, XOR over any number of operands
def u_logic(k):
    def u(E):
        st, p = make(E, State(), k); vec = [(o, off) for (o, off), (t, v) in lts(st).items() if o == p.obj and t == 'vector'][0]; n = z3.Int('operands.n'); st.pc += [n >= 2, n < 1 << 32]
        seq = base('operands', n); st.rw(vec[0]).g[('lt', vec[1])] = ('vector', seq); E.etys[vec] = 'Expression*'; st.rw(p.obj)
        val = lambda j: evalof(seq.get('', j), S0); TRUE, FALSE, EMP, N0, BT = mkbool(E, st, True), mkbool(E, st, False), empty(E, st), null(E, st, 0), null(E, st, 3)
        other = lambda x: z3.Not(z3.Or(isk(x, 'Bool'), isk(x, 'Null'), isk(x, 'Empty'))); plain = lambda x: z3.And(isk(x, 'Null'), nk(x) == 0); neutral = TRUE if k == 'LogicalAnd' else FALSE
        stop = (lambda x: z3.Or(isk(x, 'Null'), other(x))) if k == 'LogicalXor' else (lambda x: z3.Or(badnull(x), other(x), z3.And(isk(x, 'Bool'), boolof(x) == (k == 'LogicalOr'))))
        D, k1 = first(E, None, n, 'first deciding'); FN, k2 = first(E, None, n, 'first null'); FM, k3 = first(E, None, n, 'first empty'); par = lambda j: uf('parity', [zi(j)], BO)
        st.pc += [D >= 0, D <= n, FN >= 0, FN <= n, FM >= 0, FM <= n, z3.Not(par(0))]
        def on_eval(st2, x, v):
            if not (z3.is_app(x) and x.decl().name() == 'operands[]'): return
            j = x.arg(0); norm(E, st2, v); k1(st2, j, stop(v)); k2(st2, j, plain(v)); k3(st2, j, isk(v, 'Empty')); st2.pc.append(par(z3.simplify(j + 1)) == z3.If(j < FM, z3.Xor(par(j), boolof(v)), par(j)))
        E.on_eval = on_eval; E.bounds = [('operands', n), ('first deciding', D)]; i1 = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        sofar = (lambda v, q: z3.If(q == 0, v, z3.If(FM < q, EMP, mkbool(E, st, par(q))))) if k == 'LogicalXor' else (lambda v, q: z3.If(FN < q, N0, z3.If(FM < q, EMP, neutral)))
        E.plans = {'Value': [('the result so far', sofar)], 'i8': [('parity', lambda v, q: i1(par(q)))], 'i32': [('parity', lambda v, q: i1(par(q)))]}
        E.conds = [('once an empty value was seen', lambda q: FM < q), ('once a null was seen', lambda q: FN < q), ('once begun', lambda q: q > 0), ('once a truth value was seen', lambda q: z3.And(q > 0, FM > 0)), ('once a truth value was seen', lambda q: z3.And(q > FM))]
        def want(s2):
            v = norm(E, s2, val(D)); k1(s2, D, stop(v)); end = z3.If(FM < n, EMP, mkbool(E, s2, par(n))) if k == 'LogicalXor' else z3.If(FN < n, N0, z3.If(FM < n, EMP, neutral))
            return z3.If(D < n, z3.If(other(v), BT, v), end)
        check(E, st, 'Logical', p, want, f'{k}: the deciding operand, else a null, else an empty value, else the truth value')
    return u
# ------------------------------------------------------------------ CASE, casts, constants, what the context gives
def strs(E, st, n): return [value(E, st, 'Str', 32, T(z3.Int(f'name{j}')), ro=True) for j in range(n)], [z3.Int(f'name{j}') for j in range(n)]
def u_case(E):
    for cond in (True, False):
        for dflt in (True, False):
            st = State(); pool = obj(E, st, 'pool', 64); st, p = quiet(E, st, 'vc_new_Case', pool); C, DF = z3.Int('condition'), z3.Int('default')
            if cond: st, _ = quiet(E, st, 'vc_case_cond', p, E.subexpr(E, st, C))
            if dflt: st, _ = quiet(E, st, 'vc_case_default', p, E.subexpr(E, st, DF))
            result_of(E, st, p); vec = [(o, off) for (o, off), (t, v) in lts(st).items() if o == p.obj and t == 'vector'][0]; n = z3.Int('cases.n'); st.pc += [n >= 0, n < 1 << 32]
            seq = base('cases', n); st.rw(vec[0]).g[('lt', vec[1])] = ('vector', seq); E.etys[vec] = 'Item'; st.rw(p.obj)
            W = lambda j: evalof(seq.get('when', j), S0); TH = lambda j: evalof(seq.get('then', j), S0); cv = norm(E, st, evalof(C, S0)); D, k1 = first(E, None, n, 'first deciding'); st.pc += [D >= 0, D <= n]
            dec = (lambda E, st, v: E.veq(E, st, cv, v)) if cond else (lambda E, st, v: z3.Or(z3.Not(isk(v, 'Bool')), boolof(v)))
            def on_eval(st2, x, v):
                if z3.is_app(x) and x.decl().name() == 'cases[].when': k1(st2, x.arg(0), dec(E, st2, v))
            E.on_eval = on_eval; E.bounds = [('cases', n), ('first deciding', D)]
            def want(s2):
                v = norm(E, s2, W(D)); k1(s2, D, dec(E, s2, v)); t = norm(E, s2, TH(D)); hit = t if cond else z3.If(isk(v, 'Bool'), t, null(E, s2, 3))
                return z3.If(D < n, hit, norm(E, s2, evalof(DF, S0)) if dflt else null(E, s2, 0))
            check(E, st, 'Case', p, want, f"CASE {'with' if cond else 'without'} a condition, {'with' if dflt else 'without'} a default: the first case that applies")
def u_cast(E):
    st = State(); pool = obj(E, st, 'pool', 64); t = z3.Int('target type'); st.pc.append(z3.Or([t == v for v in KINDV.values()])); st, p = quiet(E, st, 'vc_new_TypeCasting', pool, IV(64, t, 0, (1 << 64) - 1), E.subexpr(E, st, L)); result_of(E, st, p); v = norm(E, st, evalof(L, S0))
    def want(s2):
        is_ = lambda k: t == KINDV[k]; f = lambda c: norm(E, s2, uf('v.' + c, [v], IN)); txt = z3.If(isk(v, 'Str'), v, mk(E, s2, 'Str', uf('v.text', [v], IN)))
        return z3.If(is_('Bool'), f('toBool'), z3.If(is_('Int'), f('toInt'), z3.If(is_('Float'), f('toFloat'), z3.If(is_('Str'), txt, null(E, s2, 0)))))
    check(E, st, 'TypeCasting', p, want, 'the conversion to the type named')
def u_leaf(E):
    def one(cls, mkname, nstr, want, what, *more, pre=None):
        st = State(); pool = obj(E, st, 'pool', 64); ps, ts = strs(E, st, nstr); st, p = quiet(E, st, 'vc_new_' + mkname, pool, *ps, *[m(E, st) if callable(m) else m for m in more])
        for x in st.mem.values(): pass
        result_of(E, st, p) if mkname != 'Constant' else None; check(E, st, cls, p, lambda s2: want(s2, ts), what)
    cv = lambda E, s2, nm, *a: norm(E, s2, uf('ctx.' + nm, [S0] + list(a), IN))
    for cls, fn in (('EdgeProperty', 'getEdgeProp'), ('TagProperty', 'getTagProp'), ('SourceProperty', 'getSrcProp'), ('DestProperty', 'getDstProp'), ('VariableProperty', 'getVarProp')): one(cls, cls, 2, lambda s2, t, fn=fn: cv(E, s2, fn, t[0], t[1]), f'{cls}: the property of the context, by the names it was made with')
    one('InputProperty', 'InputProperty', 1, lambda s2, t: cv(E, s2, 'getInputProp', t[0]), 'InputProperty: the property of the input row')
    for cls, l in (('EdgeSrcId', '_src'), ('EdgeType', '_type'), ('EdgeRank', '_rank'), ('EdgeDstId', '_dst')): one(cls, cls, 1, lambda s2, t, l=l: cv(E, s2, 'getEdgeProp', t[0], E.lit(E, s2, l)), f'{cls}: the property {l} of the edge')
    one('Variable', 'Variable', 1, lambda s2, t: cv(E, s2, 'getVar', t[0]), 'Variable: the latest value')
    one('VersionedVariable', 'VersionedVariable0', 1, lambda s2, t: cv(E, s2, 'getVar', t[0]), 'VersionedVariable: the latest value if no version is given')
    ver = lambda s2: norm(E, s2, evalof(L, S0))
    one('VersionedVariable', 'VersionedVariable', 1, lambda s2, t: z3.If(isk(ver(s2), 'Int'), cv(E, s2, 'getVersionedVar', t[0], intof(ver(s2))), null(E, s2, 3)), 'VersionedVariable: the version given', lambda E, st: E.subexpr(E, st, L))
    one('Vertex', 'Vertex', 0, lambda s2, t: cv(E, s2, 'getVertex'), 'Vertex: the vertex of the context'); one('Edge', 'Edge', 0, lambda s2, t: cv(E, s2, 'getEdge'), 'Edge: the edge of the context')
    col = z3.Int('column'); one('Column', 'Column', 0, lambda s2, t: cv(E, s2, 'getColumn', col), 'Column: the column of the context', lambda E, st: (st.pc.extend([col >= -(1 << 31), col < 1 << 31]), IV(32, col))[1])
    one('Constant', 'Constant', 0, lambda s2, t: norm(E, s2, z3.Int('constant')), 'Constant: the value it was made with', lambda E, st: value(E, st, 'Value', E.sizes['Value'], T(z3.Int('constant')), ro=True))
def pre(mk, *hooks):
    def m():
        E = mk()
        for h in hooks: h(E)
        return E
    return m
class PROP(Property):
    id = 'C27'; budget = 400
    assumptions = [LOGNOTE]
    def units(self):
        P = pre(exprengine(mods()), regex_setup)
        return [('Arithmetic', P, u_arith), ('Unary', P, u_unary), ('Relational: order', P, u_rel(RL[:6])), ('Relational: regular expressions', P, u_rel(['RelREG'])), ('Relational: IN', P, u_rel(['RelIn', 'RelNotIn'])), ('Relational: strings', P, u_rel(RL[9:]))] + [(k, P, u_logic(k)) for k in LG] + [('CASE', pre(exprengine(mods2())), u_case), ('Casts', pre(exprengine(mods2())), u_cast), ('Constants, variables and properties', pre(exprengine(mods2())), u_leaf)]
    search = expr_search('scalar', 20000, 100000)
