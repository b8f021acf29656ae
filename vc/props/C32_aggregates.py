from funccommon import *
from objcommon import fnames
from C27_expressions import L, S0, strs
import funccommon
MEMS = ['cnt', 'sum', 'avg', 'deviation', 'result']
def mods(): return funccommon._build()
def data(E, st):
    """aggregate data in an arbitrary state"""
    p = obj(E, st, 'aggregate data', E.u(st, quiet(E, st, 'vc_aggdatasize')[1])); st, _ = quiet(E, st, 'vc_aggdata', p); M = {}
    for m in MEMS:
        q = quiet(E, st, 'vc_agg_' + m, p)[1]; t = z3.Int(m); st.rw(q.obj).g[('lt', q.off)] = ('Value', T(norm(E, st, t))); M[m] = (q, t)
    return st, p, M
def addints(E):
    """adding numbers, as Value does it (C19)"""
    a0 = E.on_add = lambda st, x, y, t: fact(st, z3.And(z3.Implies(z3.And(isk(x, 'Int'), isk(y, 'Int')), t == z3.If(z3.And(intof(x) + intof(y) < 1 << 63, intof(x) + intof(y) >= -(1 << 63)), uf('v.mkInt', [intof(x) + intof(y)], IN), null(E, st, 4)))))
    E.on_first(r'nebula::operator\+\(nebula::Value const&, nebula::Value const&\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Value', T(add(E, st, E.vt(st, a[1]), E.vt(st, a[2]))), 'sum'), None)[1])
def add(E, st, x, y): t = arith(E, st, 'add', x, y); E.on_add(st, x, y, t); return t
VAL = z3.Int('value')
def u_agg(name, want):
    def u(E):
        fn = lambda_of(E, 'am', registry(E, 'am')[name]); st, p, M = data(E, State()); v = norm(E, st, VAL); vp = value(E, st, 'Value', E.sizes['Value'], T(v), ro=True); this = obj(E, st, 'function', 1); S = {m: t for m, (q, t) in M.items()}; uq = quiet(E, st, 'vc_agg_uniques', p)[1]; u0 = tid(E.g_get(st, E_at(E, st, uq), 'set', 'uniques'))
        def post(s2, r):
            if not name.startswith('COLLECT'): return judge(s2)
            k = 'List' if name == 'COLLECT' else 'Set'; q = S['result']
            for s3 in split(E, s2, [badnull(q), z3.And(isk(q, 'Null'), z3.Not(badnull(q))), isk(q, k)]):
                for s4 in split(E, s3, [ign(v)]): judge(s4)
        def judge(s2):
            w = want(E, s2, S, v); w.setdefault('result', S['result'])
            for m in MEMS:
                g = valueat(E, s2, M[m][0]); x = w.get(m, S[m])
                if isinstance(x, Seq): eqlist(E, s2, g, x, f'{name}: {m}')
                else: ob(E, s2, f'{name}: {m} after one more value', g == x)
            ob(E, s2, f'{name}: the distinct values are untouched', tid(E.g_get(s2, E_at(E, s2, uq), 'set', 'uniques')) == u0)
        Run(E, f'aggregate function {name or "(none)"}').go(st, fn, [this, p, vp], post)
    return u
def E_at(E, st, p): return at(E, st, 'Set', p, 'values')
def ign(v): return z3.Or(isk(v, 'Null'), isk(v, 'Empty'))
def num(v): return z3.Or(isk(v, 'Int'), isk(v, 'Float'))
def I(E, st, n): return mk(E, st, 'Int', zi(n))
def F(E, st, x): return mkfloat(E, st, fconst(x))
def first_or(st, S, x): return z3.If(isk(S['result'], 'Null'), x, S['result'])
def w_none(E, st, S, v): return dict(result=v)
def w_count(E, st, S, v):
    r = S['result']; b = first_or(st, S, I(E, st, 0)); return dict(result=z3.If(badnull(r), r, z3.If(ign(v), b, add(E, st, b, I(E, st, 1)))))
def w_sum(E, st, S, v):
    r = S['result']; b = first_or(st, S, I(E, st, 0)); return dict(result=z3.If(badnull(r), r, z3.If(ign(v), b, z3.If(num(v), add(E, st, b, v), null(E, st, 3)))))
def w_avg(E, st, S, v):
    r = S['result']; f = isk(r, 'Null'); Z = F(E, st, 0.0); s, c = (z3.If(f, Z, S[m]) for m in ('sum', 'cnt')); s1, c1 = add(E, st, s, v), add(E, st, c, I(E, st, 1)); go = z3.And(z3.Not(badnull(r)), num(v))
    return dict(result=z3.If(badnull(r), r, z3.If(ign(v), r, z3.If(num(v), arith(E, st, 'div', s1, c1), null(E, st, 3)))), sum=z3.If(go, s1, S['sum']), cnt=z3.If(go, c1, S['cnt']))
def w_best(better):
    def w(E, st, S, v):
        r = S['result']; return dict(result=z3.If(badnull(r), r, z3.If(ign(v), r, z3.If(isk(r, 'Null'), v, z3.If(better(E, st, v, r), v, r)))))
    return w
def w_bit(op):
    def w(E, st, S, v):
        r = S['result']; return dict(result=z3.If(badnull(r), r, z3.If(ign(v), r, z3.If(z3.Not(isk(v, 'Int')), null(E, st, 3), z3.If(isk(r, 'Null'), v, arith(E, st, op, r, v))))))
    return w
def w_std(E, st, S, v):
    r = S['result']; f = isk(r, 'Null'); Z = F(E, st, 0.0); one = I(E, st, 1); o = lambda n, x, y: add(E, st, x, y) if n == 'add' else arith(E, st, n, x, y); c0, a0, d0 = (z3.If(f, Z, S[m]) for m in ('cnt', 'avg', 'deviation'))
    n = o('add', c0, one); m1 = o('sub', n, one); dv = o('sub', v, a0); d = o('add', o('mul', o('div', m1, o('mul', n, n)), o('mul', dv, dv)), o('mul', o('div', m1, n), d0)); a = o('add', a0, o('div', dv, n)); go = z3.And(z3.Not(badnull(r)), num(v))
    return dict(result=z3.If(badnull(r), r, z3.If(ign(v), r, z3.If(z3.Not(num(v)), null(E, st, 3), z3.If(isk(d, 'Float'), mkfloat(E, st, mathf('sqrt', floatof(d))), null(E, st, 3))))), cnt=z3.If(go, n, S['cnt']), avg=z3.If(go, a, S['avg']), deviation=z3.If(go, d, S['deviation']))
def w_collect(k):
    def w(E, st, S, v):
        r = S['result']; BT, BD = null(E, st, 3), null(E, st, 2)
        if E.valid(st, badnull(r)): return {}
        if E.valid(st, z3.And(z3.Not(isk(r, 'Null')), z3.Not(isk(r, k)))): return dict(result=z3.If(ign(v), r, BD))
        new = E.valid(st, isk(r, 'Null'))
        if k == 'List':
            s = Seq(0, lambda f, j: z3.IntVal(0)) if new else listseq(E, st, cont('List', r))
            if E.valid(st, ign(v)): return dict(result=s) if new else {}
            return dict(result=app(s, {'': v}))
        c = z3.Int('id:empty') if new else mem('Set', 'values', cont('Set', r))
        if E.valid(st, ign(v)): return dict(result=mk(E, st, 'Set', recof(E, st, 'Set', [c]))) if new else {}
        return dict(result=mk(E, st, 'Set', recof(E, st, 'Set', [uf('set.add', [c, v], IN)])))
    return w
WANT = {'': w_none, 'COUNT': w_count, 'SUM': w_sum, 'AVG': w_avg, 'MAX': w_best(lambda E, st, v, r: E.vlt(st, r, v)), 'MIN': w_best(lambda E, st, v, r: E.vlt(st, v, r)), 'STD': w_std,
        'BIT_AND': w_bit('bitand'), 'BIT_OR': w_bit('bitor'), 'BIT_XOR': w_bit('bitxor'), 'COLLECT': w_collect('List'), 'COLLECT_SET': w_collect('Set')}
def u_table(E):
    r = registry(E, 'am'); ob(E, State(), 'the aggregate functions are those documented', sorted(r) == sorted(WANT)); E.verified = ['nebula::AggFunctionManager::AggFunctionManager']
def callsetup(E):
    fnames(E)
    def invoke(E, st, a, f, i):
        g = st.mem[a[0].obj].g.get(('lt', a[0].off)); dp, vp = E.load(st, a[1], 'ptr', 8) if E.byref else a[1], a[2]
        st.g['calls'] = st.g.get('calls', ()) + ((g, dp, tid(E.g_get(st, vp, 'Value', 'argument'))),); q = quiet(E, st, 'vc_agg_result', dp)[1]; E.g_put(st, q, 'Value', T(norm(E, st, z3.Int('result after')))); return None
    E.byref = False; on = E.on_first; on(r'std::function<void ?\(.*\)>::operator\(\)\(.*\) const', invoke); on(r'std::function<void ?\(.*\)>::operator bool\(\) const', lambda E, st, a, f, i: st.mem[a[0].obj].g[('lt', a[0].off)][1] != 'no function')
    def contains(E, st, a, f, i): q = at(E, st, 'Set', a[0], 'values'); return uf('has_set', [tid(E.g_get(st, q, 'set', 'contains')), E.vt(st, a[1])], BO)
    on(r'nebula::Set::contains\(nebula::Value const&\) const', contains)
def u_eval(distinct):
    def u(E):
        st = State(); (nm,), (nt,) = strs(E, st, 1); pool = obj(E, st, 'pool', 64); fn = uf('AggFunctionManager', [nt, z3.IntVal(0)], IN); st.pc.append(uf('found', [fn], BO)); st, e = quiet(E, st, 'vc_new_Aggregate', pool, nm, E.subexpr(E, st, L), IV(8, 1 if distinct else 0))
        st, p, M = data(E, st); st, _ = quiet(E, st, 'vc_set_aggdata', e, p); c = E.context(E, st); uq = quiet(E, st, 'vc_agg_uniques', p)[1]; q0 = E_at(E, st, uq); U = z3.Int('distinct values'); st.rw(q0.obj).g[('lt', q0.off)] = ('set', T(U)); x = norm(E, st, evalof(L, S0)); S = {m: t for m, (q, t) in M.items()}
        def post(s2, r):
            seen = uf('has_set', [U, x], BO) if distinct else z3.BoolVal(False); cl = s2.g.get('calls', ()); g = answer(E, s2, r); u1 = tid(E.g_get(s2, q0, 'set', 'distinct')); ob(E, s2, 'the answer is the result kept in the aggregate data', isinstance(r, Ptr) and (r.obj, r.off) == (M['result'][0].obj, M['result'][0].off))
            if E.valid(s2, seen): ob(E, s2, 'a value seen before is not counted again', not cl and g == S['result']); ob(E, s2, 'the values seen are the same', u1 == U)
            else:
                ob(E, s2, 'the value is new, or all values count', z3.Not(seen)); ob(E, s2, 'the aggregate function is called once', len(cl) == 1)
                if len(cl) == 1: ob(E, s2, 'with the function of this name, the data of this expression and the value of the argument', cl[0][0] is not None and cl[0][0][0] == 'Fn' and z3.And(tid(cl[0][0][1]) == fn, cl[0][2] == x, z3.BoolVal((cl[0][1].obj, cl[0][1].off) == (p.obj, p.off))))
                ob(E, s2, 'the value is remembered when only distinct values count', u1 == (uf('set.add', [U, x], IN) if distinct else U))
            for m in MEMS[:-1]: ob(E, s2, f'{m} is left to the function', valueat(E, s2, M[m][0]) == S[m])
            ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
        Run(E, 'nebula::AggregateExpression::eval').go(st, 'vc_eval_Aggregate', [e, c], post)
    return u
def u_apply(E):
    st = State(); (nm,), (nt,) = strs(E, st, 1); pool = obj(E, st, 'pool', 64); fn = uf('AggFunctionManager', [nt, z3.IntVal(0)], IN); st.pc.append(uf('found', [fn], BO)); st, e = quiet(E, st, 'vc_new_Aggregate', pool, nm, E.subexpr(E, st, L), IV(8, 0)); st, p, M = data(E, st); v = norm(E, st, VAL); vp = value(E, st, 'Value', E.sizes['Value'], T(v), ro=True)
    def post(s2, r):
        cl = s2.g.get('calls', ()); ob(E, s2, 'the aggregate function is called once', len(cl) == 1)
        if len(cl) == 1: ob(E, s2, 'with the function of this name, the data given and the value given', cl[0][0] is not None and cl[0][0][0] == 'Fn' and z3.And(tid(cl[0][0][1]) == fn, cl[0][2] == v, z3.BoolVal((cl[0][1].obj, cl[0][1].off) == (p.obj, p.off))))
    Run(E, 'nebula::AggregateExpression::apply').go(st, 'vc_agg_apply', [e, p, vp], post)
class PROP(Property):
    id = 'C32'; budget = 400
    assumptions = [LOGNOTE]
    def units(self):
        P = funcengine(mods(), extra=addints); Q = funcengine(mods(), extra=callsetup)
        return [('table', P, u_table)] + [('aggregate ' + n, P, u_agg(n, w)) for n, w in WANT.items()] + [(f'eval {d}', Q, u_eval(d)) for d in (False, True)] + [('apply', Q, u_apply)]
    search = expr_search('aggregate', 20000, 100000)
