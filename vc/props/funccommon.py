"""Built-in functions under contract. The table of functions is read off by executing the constructor of its manager; each entry's own code is executed on
arbitrary arguments. Doubles are opaque: arithmetic and the mathematical library are functions of their arguments."""
from collcommon import *
BODY = '''#include "common/datatypes/Set.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Path.h"
#include "common/function/FunctionManager.h"
#include "common/function/AggFunctionManager.h"
#include "common/expression/AggregateExpression.h"
#undef X
#define X extern "C"
X void vc_fm(FunctionManager* m) { new (m) FunctionManager(); }
X void vc_am(AggFunctionManager* m) { new (m) AggFunctionManager(); }
X void vc_attr(FunctionManager::FunctionAttributes* a) { new (a) FunctionManager::FunctionAttributes(); }
X uint64_t vc_attrsize() { return sizeof(FunctionManager::FunctionAttributes); }
X void* vc_attr_body(FunctionManager::FunctionAttributes* a) { return &a->body_; }
X uint64_t vc_attr_min(FunctionManager::FunctionAttributes* a) { return a->minArity_; }
X uint64_t vc_attr_max(FunctionManager::FunctionAttributes* a) { return a->maxArity_; }
X bool vc_attr_pure(FunctionManager::FunctionAttributes* a) { return a->isPure_; }
X void vc_aggdata(AggData* d) { new (d) AggData(); }
X uint64_t vc_aggdatasize() { return sizeof(AggData); }
X void* vc_agg_cnt(AggData* d) { return &d->cnt(); }
X void* vc_agg_sum(AggData* d) { return &d->sum(); }
X void* vc_agg_avg(AggData* d) { return &d->avg(); }
X void* vc_agg_deviation(AggData* d) { return &d->deviation(); }
X void* vc_agg_result(AggData* d) { return &d->result(); }
X void* vc_agg_uniques(AggData* d) { return d->uniques(); }
X void vc_agg_apply(AggregateExpression* e, AggData* d, const Value* v) { e->apply(d, *v); }
X void* vc_new_Aggregate(ObjectPool* p, const std::string* n, Expression* a, bool d) { return AggregateExpression::make(p, *n, a, d); }
X void vc_set_aggdata(AggregateExpression* e, AggData* d) { e->setAggData(d); }
X const Value* vc_eval_Aggregate(AggregateExpression* e, ExpressionContext* c) { return &e->eval(*c); }
X void vc_fm_get(StatusOr<FunctionManager::Function>* r, const std::string* n, size_t k) { new (r) StatusOr<FunctionManager::Function>(FunctionManager::get(*n, k)); }
X void vc_fm_find(Status* r, const std::string* n, size_t k) { new (r) Status(FunctionManager::find(*n, k)); }
X void vc_fm_pure(StatusOr<bool>* r, const std::string* n, size_t k) { new (r) StatusOr<bool>(FunctionManager::getIsPure(*n, k)); }
X void vc_am_get(StatusOr<AggFunctionManager::AggFunction>* r, const std::string* n) { new (r) StatusOr<AggFunctionManager::AggFunction>(AggFunctionManager::get(*n)); }
'''
F64 = z3.Float64()
def fmods():
    return fmod_cache.setdefault('m', None) or fmod_cache.__setitem__('m', _build()) or fmod_cache['m']
fmod_cache = {}
def _build(): return module_of('exprfunc', ['AggregateExpression', '../function/FunctionManager', '../function/AggFunctionManager', '../datatypes/Vertex', '../datatypes/Edge', '../datatypes/Path'], BODY)
def fof(t): return uf('fp.of', [t], F64)
def fid(E, st, x):
    t = z3.Function('fp.id', F64, IN)(x); fact(st, fof(t) == x); return t
def mkfloat(E, st, x): return mk(E, st, 'Float', fid(E, st, x))
def floatof(x): return fof(cont('Float', x))
def i2d(x): return z3.Function('i2d', IN, F64)(zi(x))
def mathf(nm, *xs): return z3.Function('math.' + nm, *([F64] * len(xs)), F64)(*xs)
def fop(nm, *xs): return z3.Function(f'{nm}_double', *([F64] * (len(xs) + 1)))(*xs)
def fconst(x): return z3.FPVal(x, F64)
def funcsetup(E):
    on = E.on_first; get, put = E.g_get, E.g_put; V = r'nebula::Value::'; E.fp_uf = True
    E.on_itofp = lambda E, st, t, fs: FPV(i2d(t)) if fs == F64 else FPV(z3.Function('i2f', IN, fs)(t))
    def new(E, st, p, t, what='Value'): E.g_start(E, st, p, 'Value', T(t), what)
    for m in (' const&', '&&'):
        on(V + r'Value\(double' + m + r'\)', lambda E, st, a, f, i: (new(E, st, a[0], mkfloat(E, st, E.fp(E.load(st, a[1], 'double', 8)))), None)[1])
    def getfloat(E, st, a, f, i):
        x = E.vt(st, a[0], 'getFloat'); E.oblige(st, isk(x, 'Float'), 'precondition', 'getFloat() of a value that is a float'); p = obj(E, st, 'content', 8); E.store(st, p, FPV(floatof(x)), 'double', 8); st.rw(p.obj).ro = True; return p
    on(V + r'getFloat\(\) const', getfloat)
    for nm in ('sqrt', 'cbrt', 'pow', 'hypot', 'exp', 'exp2', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'floor', 'ceil', 'round'):
        on(r'(llvm\.)?' + nm + r'(\.f64)?', lambda E, st, a, f, i, nm=nm: FPV(mathf(nm, *[E.fp(x) for x in a if isinstance(x, FPV)])))
    # the container inside a value, to be changed in place
    def mutable(k):
        def h(E, st, a, f, i):
            x = E.vt(st, a[0], 'mutable' + k); E.oblige(st, isk(x, k), 'precondition', f'mutable{k}() of a value that is {k}'); c = x.arg(0) if z3.is_app(x) and x.decl().name() == 'v.mk' + k else cont(k, x); E.oblige(st, not st.mem[a[0].obj].ro, 'frame', 'the value may be changed')
            p = obj(E, st, f'{k} in a value', E.sizes[k])
            for j, (fl, t) in enumerate(REC[k]):
                q = at(E, st, k, p, fl); v = c.arg(j) if z3.is_app(c) and c.decl().name() == 'rec.' + k else mem(k, fl, c); st.rw(q.obj).g[('lt', q.off)] = (t, st.g.get(('seqof', str(v)), T(v)) if t == 'vector' else T(v))
            h = z3.Int(fresh_name('being changed')); st.g[('mut', str(h))] = (k, p); put(st, a[0], 'Value', T(h)); return p
        return h
    for k in ('List', 'Set'): on(V + 'mutable' + k + r'\(\)', mutable(k))
    for o, c in (('<', lambda E, st, x, y: E.vlt(st, x, y)), ('>', lambda E, st, x, y: E.vlt(st, y, x)), ('<=', lambda E, st, x, y: z3.Not(E.vlt(st, y, x))), ('>=', lambda E, st, x, y: z3.Not(E.vlt(st, x, y)))):
        on(r'(bool )?nebula::operator' + o + r'\(nebula::Value const&, nebula::Value const&\)', lambda E, st, a, f, i, c=c: c(E, st, E.vt(st, a[0]), E.vt(st, a[1])))
    def vlt(st, x, y):
        t = uf('v.before', [x, y], BO); fact(st, z3.Not(z3.And(t, uf('v.before', [y, x], BO)))); return t
    E.vlt = vlt
    # the table of functions
    E.reg = {}
    def slot(E, st, a, f, i):
        n = E.lits_of(tid(get(st, a[1], 'Str', 'name')))
        if n is None: raise Unsupported('the name of a built-in function is not a literal')
        g = st.g.get('table', ()); d = dict(g)
        if n in d: return Ptr(d[n], 0)
        agg = 'AggData' in f['dem']
        p = obj(E, st, f'function {n}', 32 if agg else E.attrsize)
        if not agg: st2, _ = quiet(E, st, 'vc_attr', p); st.__dict__.update(st2.__dict__) if st2 is not st else None
        st.g['table'] = tuple(d.items()) + ((n, p.obj),); return p
    E.lits_of = lambda t: str(t)[4:] if z3.is_const(t) and str(t).startswith('str:') else ('' if z3.is_const(t) and str(t) in ('id:empty', 'empty') else None)
    FUN = r'std::function<(nebula::Value|void) ?\(.*\)>'
    on(r'std::unordered_map<' + STRQ.replace('\\\\', '\\') + r', (nebula::FunctionManager::FunctionAttributes|' + FUN + r').*>::operator\[\]\(.*\)', slot)
    def setfn(E, st, a, f, i):
        import re as _re
        k = _re.findall(r'::(\$_\d+)', f['dem'])
        if not k: raise Unsupported('a function that is not a lambda')
        st.rw(a[0].obj).g[('fn', a[0].off)] = k[0]; return a[0]
    on(r'(.* )?' + FUN + r'::operator=<nebula::(Agg)?FunctionManager::(Agg)?FunctionManager\(\)::\$_\d+>\(.*\)', setfn)
    on(FUN + r'::function\(\)', lambda E, st, a, f, i: None); on(FUN + r'::~function\(\)', lambda E, st, a, f, i: None)
    def cpfn(E, st, a, f, i):
        g = st.mem[a[1].obj].g.get(('fn', a[1].off))
        if g is None: raise Unsupported('a function that is not in the table')
        st.rw(a[0].obj).g[('fn', a[0].off)] = g; return a[0]
    on(FUN + r'::operator=\(std::function<.* const&\)', cpfn); on(FUN + r'::operator=\(std::function<.*&&\)', cpfn)
    on(r'std::unordered_map<' + r'.*(FunctionAttributes|' + FUN + r').*>::unordered_map\(\)', lambda E, st, a, f, i: None)
def registry(E, which):
    """name -> (min, max, pure, lambda) or lambda"""
    if which in E.reg: return E.reg[which]
    st = State(); E.quiet += 1
    try:
        E.attrsize = E.u(st, quiet(E, st, 'vc_attrsize')[1])
        m = obj(E, st, 'manager', 64); st, _ = quiet(E, st, 'vc_' + which, m); out = {}
        for n, o in st.g.get('table', ()):
            p = Ptr(o, 0)
            if which == 'am': out[n] = st.mem[o].g.get(('fn', 0)); continue
            q = quiet(E, st, 'vc_attr_body', p)[1]
            out[n] = tuple(E.u(st, quiet(E, st, 'vc_attr_' + k, p)[1]) for k in ('min', 'max', 'pure')) + (st.mem[o].g.get(('fn', q.off)),)
    finally: E.quiet -= 1
    E.reg[which] = out; return out
def lambda_of(E, which, k):
    import re as _re
    c = {'am': '18AggFunctionManager', 'fm': '15FunctionManager'}[which]
    r = [n for n in E.mod.funcs if n.startswith(f'_ZZN6nebula{c}C1EvENK') and _re.match(r'\d+' + _re.escape(k) + 'cl', n[len(f'_ZZN6nebula{c}C1EvENK'):])]
    if len(r) != 1: raise Unsupported(f'no single body for {k}')
    return r[0]
def valueat(E, st, p):
    """the content of the value at p, the container changed in place included"""
    t = tid(E.g_get(st, p, 'Value', 'value')); m = st.g.get(('mut', str(t)))
    return mk(E, st, m[0], E.content(E, st, *m)) if m else t
def funcengine(js, own=('List', 'Map', 'Set', 'Vertex', 'Edge', 'DataSet', 'Tag', 'Path', 'Step'), extra=None):
    def both(E): funcsetup(E); extra(E) if extra else None
    return collengine(js, own, extra=both)
def split(E, st, cases):
    """the state once for each of the cases that is open in it, and once for none of them"""
    if not cases or any(E.valid(st, c) for c in cases) or E.valid(st, z3.Not(z3.Or(cases))): return [st]
    out = []
    for c in list(cases) + [z3.Not(z3.Or(cases))]:
        s = st.fork(); s.pc.append(c)
        if E.feasible(s, True): out.append(s)
    return out
