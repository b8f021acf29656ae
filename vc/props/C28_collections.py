from collcommon import *
from C27_expressions import L, R, S0, check, strs
NAMES = ['Subscript', 'Attribute', 'Container', 'ListComprehension', 'Predicate', 'Reduce', 'FunctionCall']
BODY = '#undef X\n' + ''.join(f'#include "common/expression/{k}Expression.h"\n' for k in NAMES) + '''#define X extern "C"
X void* vc_new_Subscript(ObjectPool* p, Expression* l, Expression* r) { return SubscriptExpression::make(p, l, r); }
X void* vc_new_Attribute(ObjectPool* p, Expression* l, Expression* r) { return AttributeExpression::make(p, l, r); }
X void* vc_new_Range(ObjectPool* p, Expression* l, Expression* lo, Expression* hi) { return SubscriptRangeExpression::make(p, l, lo, hi); }
X void* vc_new_RangeLo(ObjectPool* p, Expression* l, Expression* lo) { return SubscriptRangeExpression::make(p, l, lo, nullptr); }
X void* vc_new_RangeHi(ObjectPool* p, Expression* l, Expression* hi) { return SubscriptRangeExpression::make(p, l, nullptr, hi); }
X void* vc_new_List(ObjectPool* p) { return ListExpression::make(p); }
X void* vc_new_Set(ObjectPool* p) { return SetExpression::make(p); }
X void* vc_new_Map(ObjectPool* p) { return MapExpression::make(p); }
X void* vc_new_Comp(ObjectPool* p, const std::string* v, Expression* l) { return ListComprehensionExpression::make(p, *v, l, nullptr, nullptr); }
X void* vc_new_CompF(ObjectPool* p, const std::string* v, Expression* l, Expression* f) { return ListComprehensionExpression::make(p, *v, l, f, nullptr); }
X void* vc_new_CompM(ObjectPool* p, const std::string* v, Expression* l, Expression* m) { return ListComprehensionExpression::make(p, *v, l, nullptr, m); }
X void* vc_new_CompFM(ObjectPool* p, const std::string* v, Expression* l, Expression* f, Expression* m) { return ListComprehensionExpression::make(p, *v, l, f, m); }
X void* vc_new_Predicate(ObjectPool* p, const std::string* n, const std::string* v, Expression* l, Expression* f) { return PredicateExpression::make(p, *n, *v, l, f); }
X void* vc_new_Reduce(ObjectPool* p, const std::string* a, Expression* i, const std::string* v, Expression* l, Expression* m) { return ReduceExpression::make(p, *a, i, *v, l, m); }
X uint64_t vc_kind_Attribute() { return (uint64_t)Expression::Kind::kAttribute; }
X uint64_t vc_kind_Subscript() { return (uint64_t)Expression::Kind::kSubscript; }
X void* vc_new_Call(ObjectPool* p) { return FunctionCallExpression::make(p); }
X void* vc_args_Call(FunctionCallExpression* e) { return &const_cast<std::vector<Expression*>&>(e->args()->args()); }
''' + ''.join(f'X const Value* vc_eval_{c}({c}Expression* e, ExpressionContext* c) {{ return &e->eval(*c); }}\n' for c in ('Subscript', 'Attribute', 'SubscriptRange', 'List', 'Set', 'Map', 'ListComprehension', 'Predicate', 'Reduce', 'FunctionCall'))
def mods(): return module_of('exprcoll', [k + 'Expression' for k in NAMES] + ['BinaryExpression', '../datatypes/Vertex', '../datatypes/Edge'], BODY)
def make(E, st, k, *args):
    pool = obj(E, st, 'pool', 64); st2, p = quiet(E, st, 'vc_new_' + k, pool, *[E.subexpr(E, st, t) if isinstance(t, z3.ExprRef) else t for t in args]); result_of(E, st2, p); return st2, p
def go(E, st, cls, p, c, post): Run(E, f'nebula::{cls}Expression::eval').go(st, f'vc_eval_{cls}', [p, c], post)
def val(E, st, x, s=S0): return norm(E, st, evalof(x, s))
# ------------------------------------------------------------------ one element
def tagfirst(E, st, vert, key):
    """the first tag of the vertex with the property: position, what is known of one position"""
    S = E.seqof(E, st, T(mem('Vertex', 'tags', vert))); D, know = first(E, None, S.n, 'first tag'); E.bounds.append(('tags', S.n)); E.bounds.append(('first tag', D)); st.pc += [D >= 0, D <= S.n]
    def on_has(E, st, T_, v, k2):
        t = tid(v)
        if not z3.is_app(t) or t.decl().name() != 'at_props': return
        E.oblige(st, tid(k2) == key, 'postcondition', 'the properties are searched for the name asked for', assume=False); know(st, t.arg(1), E.has('map', v, k2))
    E.on_has = on_has; return S, D
def entry(m, k): return tid(('entry', T(m), T(k)))
def props(E, s2, l, key, S, D, unknown):
    """the property of a vertex or of an edge"""
    v, e = cont('Vertex', l), cont('Edge', l); li = lambda t: E.lit(E, s2, t)
    vx = z3.If(key == li('_vid'), mem('Vertex', 'vid', v), z3.If(D < S.n, entry(S.get('props', D), key), unknown))
    ch = uf('str.at', [key, zi(0)], IN); m = lambda f: mem('Edge', f, e)
    ed = z3.If(ch == ord('_'), z3.If(key == li('_src'), m('src'), z3.If(key == li('_dst'), m('dst'), z3.If(key == li('_rank'), mk(E, s2, 'Int', m('ranking')), z3.If(key == li('_type'), mk(E, s2, 'Str', m('name')), unknown)))), z3.If(E.has('map', T(m('props')), T(key)), entry(m('props'), key), unknown))
    return vx, ed
def u_one(cls):
    def u(E):
        st, p = make(E, State(), cls, L, R); l, r = val(E, st, L), val(E, st, R); key = cont('Str', r); attr = cls == 'Attribute'; S, D = tagfirst(E, st, cont('Vertex', l), key); st.pc.append(z3.Implies(isk(l, 'Edge'), z3.Or(z3.Not(isk(r, 'Str')), slen(E, st, key) > 0)))
        if attr: st.pc.append(isk(r, 'Str'))
        def want(s2):
            N, BT, OUT, UN = (null(E, s2, x) for x in (0, 3, 7, 5)); vx, ed = props(E, s2, l, key, S, D, UN if attr else N); m = mem('Map', 'kvs', cont('Map', l)); at_ = z3.If(E.has('map', T(m), T(key)), entry(m, key), UN)
            if attr: return z3.If(isk(l, 'Map'), at_, z3.If(isk(l, 'Vertex'), vx, z3.If(isk(l, 'Edge'), ed, z3.If(isk(l, 'Date'), uf('attr.Date', [cont('Date', l), key], IN), z3.If(isk(l, 'Time'), uf('attr.Time', [cont('Time', l), key], IN), z3.If(isk(l, 'DateTime'), uf('attr.DateTime', [cont('DateTime', l), key], IN), BT))))))
            i = intof(r); LS = listseq(E, s2, cont('List', l)); RW = E.seqof(E, s2, T(mem('DataSet', 'rows', cont('DataSet', l)))); isI = isk(r, 'Int'); strk = lambda x: z3.If(isk(r, 'Str'), x, N)
            li = z3.If(isI, z3.If(z3.And(i >= -LS.n, i < LS.n), LS.get('', z3.If(i < 0, i + LS.n, i)), OUT), BT); rw = z3.If(isI, z3.If(z3.And(i >= 0, i < RW.n), mk(E, s2, 'List', recof(E, s2, 'List', [RW.get('values', i)])), OUT), BT)
            return z3.If(isk(l, 'List'), li, z3.If(isk(l, 'Map'), strk(at_), z3.If(isk(l, 'DataSet'), rw, z3.If(isk(l, 'Vertex'), strk(vx), z3.If(isk(l, 'Edge'), strk(ed), BT)))))
        check(E, st, cls, p, want, f'{cls}: the element, or the null that says why not')
    return u
# ------------------------------------------------------------------ a part of a list
def u_range(form):
    def u(E):
        LO, HI = z3.Int('low'), z3.Int('high'); st, p = make(E, State(), 'Range' + form, L, *([LO] if form != 'Hi' else []), *([HI] if form != 'Lo' else [])); l = val(E, st, L); lo = val(E, st, LO) if form != 'Hi' else None; hi = val(E, st, HI) if form != 'Lo' else None; c = E.context(E, st)
        def post(s2, r):
            g = answer(E, s2, r); N, BT = null(E, s2, 0), null(E, s2, 3); S = listseq(E, s2, cont('List', l)); n = S.n; bad = z3.Not(isk(l, 'List')); what = 'a part of a list'
            fail = BT; ok = isk(l, 'List'); conds = [(bad, BT)]
            for b in (lo, hi):
                if b is not None: conds += [(isk(b, 'Null'), N), (z3.Not(isk(b, 'Int')), BT)]
            none = z3.And([z3.Not(q) for q, _ in conds]); w = z3.IntVal(-99)
            for q, v in reversed(conds): w = z3.If(q, v, w)
            if E.valid(s2, none):
                b = intof(lo) if lo is not None else z3.IntVal(0); b = z3.If(b < 0, b + n, b); b = z3.If(b < 0, z3.IntVal(0), b); e = intof(hi) if hi is not None else n; e = z3.If(e < 0, e + n, e); e = z3.If(e > n, n, e); cnt = z3.If(b < e, e - b, z3.IntVal(0)); eqlist(E, s2, g, Seq(cnt, lambda f, j: S.get(f, zi(j) + b)), what)
            else: ob(E, s2, what + ': the null that says why not', g is not None and z3.And(z3.Not(none), g == w))
            ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
        go(E, st, 'SubscriptRange', p, c, post)
    return u
# ------------------------------------------------------------------ containers from elements
def vecin(E, st, p, nm, et, typ='vector'):
    vec = [(o, off) for (o, off), (t, v) in lts(st).items() if o == p.obj and t == typ][0]; n = z3.Int(nm + '.n'); st.pc += [n >= 0, n < 1 << 32]; s = base(nm, n); st.rw(vec[0]).g[('lt', vec[1])] = ('vector', s); E.etys[vec] = et; E.bounds.append((nm, n)); return s
def u_list(E):
    st, p = make(E, State(), 'List'); S = vecin(E, st, p, 'items', 'Expression*'); c = E.context(E, st)
    def post(s2, r): eqlist(E, s2, answer(E, s2, r), Seq(S.n, lambda f, j: evalof(S.get('', j), S0)), 'a list of the elements, in order'); ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
    go(E, st, 'List', p, c, post)
def u_fold(cls):
    def u(E):
        st, p = make(E, State(), cls); S = vecin(E, st, p, 'items', 'Expression*' if cls == 'Set' else 'Pair'); c = E.context(E, st); ty_ = 'set' if cls == 'Set' else 'map'; fold = lambda k: uf('after', [zi(k)], IN); st.pc.append(fold(0) == z3.Int('id:empty'))
        def on_round(st2, k):
            a = [fold(k), evalof(S.get('', k), S0)] if cls == 'Set' else [fold(k), S.get('key', k), evalof(S.get('ex', k), S0)]; st2.pc.append(fold(z3.simplify(k + 1)) == uf('set.add' if cls == 'Set' else 'map.emplace', a, IN))
        E.on_round = on_round; E.plans = {ty_: [('the elements so far', lambda v, k: z3.If(zi(k) == 0, v, fold(k)))]}
        def post(s2, r): g = answer(E, s2, r); ob(E, s2, f'{cls}: the elements are put in one after the other', g is not None and g == mk(E, s2, cls, recof(E, s2, cls, [fold(S.n)]))); ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
        go(E, st, cls, p, c, post)
    return u
# ------------------------------------------------------------------ lists filtered, mapped, tested and reduced
def inlist(E, st, cls, mkname, *args):
    """an expression over the list L with the inner variable name0; D: the first filter value that is neither nothing nor a truth value"""
    st, p = make(E, st, mkname, *args); l = val(E, st, L); S = listseq(E, st, cont('List', l)); E.bounds.append(('size', S.n)); return st, p, l, S
FI, MA, IN0 = z3.Int('filter'), z3.Int('mapping'), z3.Int('initial')
def ctxat(S, x, j, s=S0): return setof(s, x, S.get('', j))
def yes(v): return z3.And(isk(v, 'Bool'), boolof(v))
def badv(v): return z3.Not(z3.Or(isk(v, 'Bool'), isk(v, 'Null'), isk(v, 'Empty')))
def elem_of(S, x, s):
    """the position of the element the inner variable has in this context"""
    if z3.is_app(s) and s.decl().name() == 'ctx.set':
        e = s.arg(2)
        if z3.is_app(e) and e.decl().name() == 'at_vector': return e.arg(1)
    return None
def u_comp(hf, hm):
    def u(E):
        st = State(); (x,), (xt,) = strs(E, st, 1); st, p, l, S = inlist(E, st, 'ListComprehension', 'Comp' + ('F' if hf else '') + ('M' if hm else ''), x, L, *([FI] if hf else []), *([MA] if hm else [])); c = E.context(E, st); n = S.n
        fv = lambda j: evalof(FI, ctxat(S, xt, j)); D, know = first(E, None, n, 'first that is no truth value'); st.pc += [D >= 0, D <= n]; E.bounds.append(('first that is no truth value', D))
        cnt = (lambda k: uf("kept", [zi(k)], IN)) if hf else zi; sel = (lambda j: uf("position of", [zi(j)], IN)) if hf else zi; st.pc.append(cnt(0) == 0)
        if not hf: st.pc.append(D == n)
        out = lambda i: evalof(MA, ctxat(S, xt, i)) if hm else S.get('', i)
        def on_round(st2, k):
            ok = yes(fv(k)) if hf else z3.BoolVal(True); k1 = z3.simplify(k + 1); st2.pc += [cnt(k) >= 0, cnt(k) <= k, cnt(k1) == z3.If(ok, cnt(k) + 1, cnt(k)), z3.Implies(ok, sel(cnt(k)) == k)]
            if hf: norm(E, st2, fv(k)); know(st2, k, badv(fv(k)))
        def on_eval(st2, e, v): pass
        E.on_round = on_round; E.plans = {'vector': [('those that passed so far', lambda s, k: Seq(z3.simplify(zi(s.n) + cnt(k)), lambda f, j: z3.If(zi(j) < s.n, s.get(f, j), out(sel(zi(j) - s.n)))))]}
        def post(s2, r):
            g = answer(E, s2, r); what = 'list comprehension'; gone = z3.Or(isk(l, 'Null'), isk(l, 'Empty'))
            if E.valid(s2, gone): ob(E, s2, what + ': of null or nothing gives that', g is not None and g == l); return
            if E.valid(s2, z3.Not(isk(l, 'List'))): ob(E, s2, what + ': of something else than a list gives a null of bad type', g is not None and g == null(E, s2, 3)); return
            if not hf and not hm: ob(E, s2, what + ': gives the list', g is not None and g == l); return
            if g is not None and z3.is_app(g) and g.decl().name() == 'v.mkList': ob(E, s2, what + ': only truth values, null and nothing were seen', D == n); eqlist(E, s2, g, Seq(cnt(n), lambda f, j: out(sel(j))), what + ': the elements that pass, in order')
            else: ob(E, s2, what + ': a filter value that is no truth value gives a null of bad type', g is not None and z3.And(D < n, g == null(E, s2, 3)))
        go(E, st, 'ListComprehension', p, c, post)
    return u
# ------------------------------------------------------------------ ALL, ANY, SINGLE, NONE
def table_setup(E):
    """the table of quantifier names is what its initializer says"""
    on = E.on_first; TM = r'std::unordered_map<.*PredicateExpression::Type.*>::'; E.table = None
    def build(E, st, a, f, i):
        n = E.u(st, a[2]); out = []
        for j in range(n):
            q = E.gep(st, a[1], 40 * j, []); out.append((tid(E.g_get(st, q, 'Str', 'name')), E.s(st, E.load(st, E.gep(st, q, 32, []), 'i8', 1))))
        E.table = out; raise DropPath()
    on(TM + r'unordered_map\(std::initializer_list<.*\)', build)
    init = [n for n in E.mod.funcs if n.startswith('_GLOBAL__sub_I_PredicateExpression')]; E.quiet += 1
    try:
        if init: E.exec_fn(State(), init[0], [])
    except DropPath: pass
    finally: E.quiet -= 1
    if E.table is None: raise Unsupported('the table of quantifiers is not a map filled where it is defined')
    def find(E, st, a, f, i):
        k = tid(E.g_get(st, a[1], 'Str', 'find')); out = []
        for t, _ in E.table:
            for u, _ in E.table: E.lit(E, st, str(u)[4:])
        for j, (t, v) in enumerate(E.table):
            s2 = st.fork(); s2.pc += [k == t]; out.append((s2, E.pos(s2, 'table', j)))
        st.pc += [k != t for t, _ in E.table]; return out + [(st, E.pos(st, 'table', None))]
    on(TM + r'find\(.*\)( const)?', find); on(TM + r'c?end\(\)( const)?', lambda E, st, a, f, i: E.pos(st, 'table', None))
    def deref(E, st, a, f, i):
        _, j = E.where(st, a[0]); E.oblige(st, j is not None, 'precondition', 'the end iterator is not dereferenced')
        if j is None: raise DropPath()
        p = obj(E, st, 'entry', 40); st.rw(p.obj).g[('lt', 0)] = ('Str', T(E.table[j][0])); E.store(st, E.gep(st, p, 32, []), IV(8, zi(E.table[j][1]), -128, 127), 'i8', 1); st.rw(p.obj).ro = True; return p
    on(r'std::__detail::_Node_(const_)?iterator<.*PredicateExpression::Type.*>::operator(->|\*)\(\) const', deref)
QUANT = ['all', 'any', 'single', 'none']
def u_quant(q):
    def u(E):
        st = State(); (nm, x), (nt, xt) = strs(E, st, 2); st, p, l, S = inlist(E, st, 'Predicate', 'Predicate', nm, x, L, FI); c = E.context(E, st); n = S.n; fv = lambda j: evalof(FI, ctxat(S, xt, j))
        for o in QUANT + ['exists']: E.lit(E, st, o)
        lit = lambda o: z3.Int('str:' + o); st.pc.append(nt == lit(q) if q else z3.And([nt != lit(o) for o in QUANT + ['exists']]))
        met = lambda k: uf('met', [zi(k)], IN); st.pc.append(met(0) == 0); stop = (lambda k: z3.Not(yes(fv(k)))) if q == 'all' else (lambda k: z3.And(yes(fv(k)), met(k) == 1)) if q == 'single' else (lambda k: yes(fv(k)))
        D, know = first(E, None, n, 'first deciding'); st.pc += [D >= 0, D <= n]; E.bounds.append(('first deciding', D)); TRUE, FALSE = mkbool(E, st, True), mkbool(E, st, False)
        def on_round(st2, k):
            norm(E, st2, fv(k)); know(st2, k, z3.Or(badv(fv(k)), stop(k))); k1 = z3.simplify(k + 1); st2.pc += [met(k) >= 0, met(k1) == met(k) + z3.If(yes(fv(k)), z3.IntVal(1), z3.IntVal(0)), z3.Not(E.veq(E, st2, FALSE, TRUE))]
        E.on_round = on_round; E.veq(E, st, FALSE, FALSE)
        if q == 'single': E.facts = lambda k: [('at most one was met', met(zi(k)) <= 1)]
        if q == 'single': E.plans = {'Value': [('true once one was met', lambda v, k: z3.If(met(k) == 1, TRUE, FALSE))]}
        def post(s2, r):
            g = answer(E, s2, r); what = f'{q.upper() if q else "another name"}'; gone = z3.Or(isk(l, 'Null'), isk(l, 'Empty')); BT = null(E, s2, 3)
            if not q: ob(E, s2, 'a quantifier that does not exist gives a null of bad type', g is not None and g == BT); return
            on_round(s2, D); end = z3.If(met(n) == 1, TRUE, FALSE) if q == 'single' else TRUE if q in ('all', 'none') else FALSE; hit = TRUE if q == 'any' else FALSE
            w = z3.If(gone, l, z3.If(z3.Not(isk(l, 'List')), BT, z3.If(D == n, end, z3.If(badv(fv(D)), BT, hit)))); ob(E, s2, f'{what}: the truth value, or the null that says why not', g is not None and g == w)
        go(E, st, 'Predicate', p, c, post)
    return u
def side_setup(E):
    """the two sides of a sub-expression that is an attribute or a subscript"""
    for m in ('left', 'right'): E.on_first(r'nebula::BinaryExpression::' + m + r'\(\)( const)?', lambda E, st, a, f, i, m=m: E.subexpr(E, st, uf(m, [E.who(st, a[0])], IN)) if 'expr' in st.mem[a[0].obj].g else NotImplemented)
def u_exists(E):
    st = State(); (nm, x), (nt, xt) = strs(E, st, 2); st, p = make(E, st, 'Predicate', nm, x, L, FI); c = E.context(E, st); st.pc.append(nt == E.lit(E, st, 'exists')); kd = E.kindof(E, st, L); st.pc.append(z3.Or([kd == E.u(st, quiet(E, State(), 'vc_kind_' + k)[1]) for k in ('Attribute', 'Subscript')]))
    o, k = (val(E, st, uf(m, [L], IN)) for m in ('left', 'right')); key = cont('Str', k); S, D = tagfirst(E, st, cont('Vertex', o), key)
    def post(s2, r):
        g = answer(E, s2, r); BT, N = null(E, s2, 3), null(E, s2, 0); there = lambda m: z3.And(E.has('map', T(m), T(key)), z3.Not(isk(norm(E, s2, entry(m, key)), 'Null'))); b = lambda q: mkbool(E, s2, q)
        w = z3.If(z3.Not(isk(k, 'Str')), BT, z3.If(isk(o, 'Vertex'), b(z3.And(D < S.n, z3.Not(isk(norm(E, s2, entry(S.get('props', D), key)), 'Null')))), z3.If(isk(o, 'Edge'), b(there(mem('Edge', 'props', cont('Edge', o)))), z3.If(isk(o, 'Map'), b(there(mem('Map', 'kvs', cont('Map', o)))), z3.If(isk(o, 'Null'), N, BT)))))
        ob(E, s2, 'exists: whether the property is there and is not null', g is not None and g == w); ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
    go(E, st, 'Predicate', p, c, post)
def u_reduce(E):
    st = State(); (an, x), (at_, xt) = strs(E, st, 2); st, p, l, S = inlist(E, st, 'Reduce', 'Reduce', an, IN0, x, L, MA); c = E.context(E, st); n = S.n; i0 = val(E, st, IN0)
    A = lambda k: uf('accumulated', [zi(k)], IN); B = lambda k: uf('context before', [zi(k)], IN); C = lambda k: uf('ctx.set', [B(k), at_, A(k)], IN); st.pc += [A(0) == i0, B(0) == S0]
    def on_round(st2, k):
        k1 = z3.simplify(k + 1); b1 = uf('ctx.set', [C(k), xt, S.get('', k)], IN); st2.pc += [B(k1) == b1, A(k1) == evalof(MA, b1)]
    E.on_round = on_round; E.plans = {'Ctx': [('accumulated so far', lambda v, k: C(k))]}
    def post(s2, r):
        g = answer(E, s2, r); gone = z3.Or(isk(l, 'Null'), isk(l, 'Empty')); s2.pc.append(uf('ctx.getVar', [C(n), at_], IN) == A(n)); w = z3.If(gone, l, z3.If(z3.Not(isk(l, 'List')), null(E, s2, 3), A(n)))
        ob(E, s2, 'reduce: the accumulator after every element was put in, in order', g is not None and g == w)
    go(E, st, 'Reduce', p, c, post)
def call_setup(E):
    on = E.on_first; get, put = E.g_get, E.g_put; F = r'std::function<nebula::Value ?\(.*'; E.calls = []
    def pushref(E, st, a, f, i): s = E.seqof(E, st, get(st, a[0], 'vector', 'emplace_back')); put(st, a[0], 'vector', app(s, {'': E.vt(st, a[1])})); return None
    on(r'.*std::vector<std::reference_wrapper<nebula::Value const> ?, .*>::(emplace_back|push_back).*', pushref)
    def invoke(E, st, a, f, i):
        s = E.seqof(E, st, get(st, a[2], 'vector', 'arguments')); E.calls.append(s); t = norm(E, st, z3.Int('answer of the function')); E.g_start(E, st, a[0], 'Value', T(t), 'answer'); st.g['called'] = st.g.get('called', ()) + (s,); return None
    on(F + r'::operator\(\)\(.*\) const', invoke); on(F + r'::operator bool\(\) const', lambda E, st, a, f, i: True)
    on(r'(bool )?std::operator==<nebula::Value.*>\(std::function<.*nullptr_t\)', lambda E, st, a, f, i: False)
def u_call(E):
    st = State(); pool = obj(E, st, 'pool', 64); st, p = quiet(E, st, 'vc_new_Call', pool); result_of(E, st, p); st, v = quiet(E, st, 'vc_args_Call', p); n = z3.Int('args.n'); st.pc += [n >= 0, n < 1 << 32]; S = base('args', n); st.rw(v.obj).g[('lt', v.off)] = ('vector', S); E.etys[(v.obj, v.off)] = 'Expression*'; E.bounds.append(('args', n)); c = E.context(E, st)
    def post(s2, r):
        g = answer(E, s2, r); cl = s2.g.get('called', ()); ob(E, s2, 'the function is called once', len(cl) == 1)
        if len(cl) == 1: eqseq(E, s2, 'Value', cl[0], Seq(n, lambda f, j: evalof(S.get('', j), S0)), 'the function gets the values of the arguments, in order')
        ob(E, s2, 'the answer is that of the function', g is not None and g == z3.Int('answer of the function')); ob(E, s2, 'the context is untouched', E.cx(s2, c) == S0)
    go(E, st, 'FunctionCall', p, c, post)
class PROP(Property):
    id = 'C28'; budget = 400
    assumptions = [LOGNOTE]
    def units(self):
        P = collengine(mods())
        return [('Subscript', P, u_one('Subscript')), ('Attribute', P, u_one('Attribute'))] + [('Range ' + f, P, u_range(f)) for f in ('', 'Lo', 'Hi')] + [('List', P, u_list), ('Set', P, u_fold('Set')), ('Map', P, u_fold('Map'))] + [(f'Comprehension {f} {m}', P, u_comp(f, m)) for f in (False, True) for m in (False, True)] + [(f'Predicate {q}', collengine(mods(), extra=table_setup), u_quant(q)) for q in QUANT + [None]] + [('Exists', collengine(mods(), extra=side_setup), u_exists), ('Reduce', P, u_reduce), ('Call', collengine(mods(), extra=call_setup), u_call)]
    search = expr_search('collection', 20000, 100000)
