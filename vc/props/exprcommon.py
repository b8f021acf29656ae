"""Expressions under contract. The expression object is made by its own factory and its own code is executed; sub-expressions, the context and the
object pool are opaque: evaluating a sub-expression gives a value that is a function of the sub-expression and the state of the context. Values are
contents (terms) with a kind; the operators of Value are functions of the contents (proved in C18-C22), the logical ones are written out."""
from seqmodel import *
KINDV = dict(Empty=1, Bool=1 << 1, Int=1 << 2, Float=1 << 3, Str=1 << 4, Date=1 << 5, Time=1 << 6, DateTime=1 << 7, Vertex=1 << 8, Edge=1 << 9, Path=1 << 10, List=1 << 11, Map=1 << 12, Set=1 << 13, DataSet=1 << 14, Null=1 << 63)
NULLK = dict(null=0, nan=1, data=2, badtype=3, overflow=4, prop=5, div=6, range=7)
CONSTS = dict(kEmpty=None, kNullValue=0, kNullNaN=1, kNullBadData=2, kNullBadType=3, kNullOverflow=4, kNullUnknownProp=5, kNullDivByZero=6, kNullOutOfRange=7)
RECK = ('Vertex', 'Edge', 'Path', 'List', 'Map', 'Set', 'DataSet', 'Date', 'Time', 'DateTime')
EX = 'nebula::Expression'
def ty(x): return uf('v.type', [x], IN)
def isk(x, k): return ty(x) == KINDV[k]
def nk(x): return uf('v.nullkind', [x], IN)
def null(E, st, k):
    k = zi(k); t = uf('v.null', [k], IN); fact(st, z3.And(ty(t) == KINDV['Null'], nk(t) == k)); return t
def empty(E, st):
    t = z3.Int('v.EMPTY'); fact(st, ty(t) == 1); return t
def mkbool(E, st, b):
    b = zb2(b)
    if z3.is_true(b) or z3.is_false(b):
        t = z3.Int('v.TRUE' if z3.is_true(b) else 'v.FALSE'); fact(st, z3.And(ty(t) == 2, boolof(t) == b)); return t
    return z3.If(b, mkbool(E, st, z3.BoolVal(True)), mkbool(E, st, z3.BoolVal(False)))
def boolof(x): return uf('v.bool', [x], BO)
def intof(x): return uf('v.int', [x], IN)
def mk(E, st, k, c):
    """the Value of a kind with a content"""
    t = uf('v.mk' + k, [c], IN); fact(st, z3.And(isk(t, k), cont(k, t) == c)); return t
def cont(k, x): return intof(x) if k == 'Int' else uf('v.of' + k, [x], IN)
def fact(st, c):
    if not any(c.eq(x) for x in st.pc[-400:]): st.pc.append(c)
def norm(E, st, x):
    """a value is what its kind and its content say"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        norm(E, st, x.arg(1)); norm(E, st, x.arg(2)); return x
    k = ('norm', str(x))
    if st.g.get(k): return x
    st.g[k] = True; fact(st, z3.Or([ty(x) == v for v in KINDV.values()]))
    n = null(E, st, nk(x)); fact(st, z3.Implies(isk(x, 'Null'), z3.And(x == n, nk(x) >= 0, nk(x) <= 7))); fact(st, z3.Implies(isk(x, 'Empty'), x == empty(E, st)))
    fact(st, z3.Implies(isk(x, 'Bool'), x == mkbool(E, st, boolof(x)))); fact(st, z3.Implies(isk(x, 'Int'), z3.And(x == uf('v.mkInt', [intof(x)], IN), intof(x) >= -(1 << 63), intof(x) < 1 << 63)))
    for k in ('Str', 'List', 'Map', 'Set', 'Vertex', 'Edge', 'Path', 'DataSet'): fact(st, z3.Implies(isk(x, k), x == uf('v.mk' + k, [cont(k, x)], IN)))
    return x
def badnull(x): return z3.And(isk(x, 'Null'), nk(x) != 0)
def truthtable(E, st, x, y, f):
    """&& and || of Value"""
    return z3.If(isk(x, 'Null'), x, z3.If(isk(y, 'Null'), y, z3.If(z3.Or(isk(x, 'Empty'), isk(y, 'Empty')), empty(E, st), z3.If(z3.And(isk(x, 'Bool'), isk(y, 'Bool')), mkbool(E, st, f(boolof(x), boolof(y))), null(E, st, 3)))))
def op_not(E, st, x): return z3.If(z3.Or(isk(x, 'Null'), isk(x, 'Empty')), x, z3.If(isk(x, 'Bool'), mkbool(E, st, z3.Not(boolof(x))), null(E, st, 3)))
def op_and(E, st, x, y): return truthtable(E, st, x, y, z3.And)
def op_or(E, st, x, y): return truthtable(E, st, x, y, z3.Or)
def arith(E, st, nm, *xs): return norm(E, st, uf('op:' + nm, list(xs), IN))
def rel3(E, st, nm, x, y):
    """lessThan and equal give a null, nothing or a truth value"""
    t = norm(E, st, uf('v.' + nm, [x, y], IN)); fact(st, z3.Or(isk(t, 'Null'), isk(t, 'Empty'), isk(t, 'Bool'))); return t
# ------------------------------------------------------------------ strings: b occurs in a at p
def slen(E, st, x): return size(E, st, 'Str', T(x))
def occ(E, st, a, b, p):
    t = uf('occurs', [a, b, zi(p)], BO); fact(st, z3.Implies(t, z3.And(zi(p) >= 0, zi(p) + slen(E, st, b) <= slen(E, st, a)))); return t
def firstocc(E, st, a, b):
    r = uf('firstocc', [a, b], IN); fact(st, r >= -1); fact(st, z3.Implies(r >= 0, z3.And(occ(E, st, a, b, r), r + slen(E, st, b) <= slen(E, st, a))))
    for p in (z3.IntVal(0), slen(E, st, a) - slen(E, st, b)): fact(st, z3.Implies(occ(E, st, a, b, p), z3.And(r >= 0, r <= p)))
    return r
NPOS = (1 << 64) - 1
def driver_head():
    return '''#include "common/base/Base.h"
#include "common/expression/Expression.h"
using namespace nebula;
#define X extern "C"
X void vc_slot_eval(Expression* e, ExpressionContext* c) { e->eval(*c); }
X bool vc_slot_eq(const Expression* e, const Expression* f) { return *e == *f; }
X void vc_slot_clone(const Expression* e) { e->clone(); }
X void vc_slot_toString(const Expression* e) { auto s = e->toString(); }
X void vc_cslot_getVar(ExpressionContext* c, const std::string* a) { c->getVar(*a); }
X void vc_cslot_getVersionedVar(ExpressionContext* c, const std::string* a) { c->getVersionedVar(*a, 1); }
X void vc_cslot_getVarProp(ExpressionContext* c, const std::string* a) { c->getVarProp(*a, *a); }
X void vc_cslot_getEdgeProp(ExpressionContext* c, const std::string* a) { c->getEdgeProp(*a, *a); }
X void vc_cslot_getTagProp(ExpressionContext* c, const std::string* a) { c->getTagProp(*a, *a); }
X void vc_cslot_getSrcProp(ExpressionContext* c, const std::string* a) { c->getSrcProp(*a, *a); }
X void vc_cslot_getDstProp(ExpressionContext* c, const std::string* a) { c->getDstProp(*a, *a); }
X void vc_cslot_getInputProp(ExpressionContext* c, const std::string* a) { c->getInputProp(*a); }
X void vc_cslot_getVertex(ExpressionContext* c) { c->getVertex(); }
X void vc_cslot_getEdge(ExpressionContext* c) { c->getEdge(); }
X void vc_cslot_getColumn(ExpressionContext* c) { c->getColumn(1); }
X void vc_cslot_setVar(ExpressionContext* c, const std::string* a, const Value* v) { c->setVar(*a, *v); }
''' + ''.join(f'X const Value* vc_const_{k}() {{ return &Value::{k}; }}\n' for k in CONSTS)
ESLOTS = ['eval', 'eq', 'clone', 'toString']; CSLOTS = 'getVar getVersionedVar getVarProp getEdgeProp getTagProp getSrcProp getDstProp getInputProp getVertex getEdge getColumn setVar'.split()
_mods = {}
def module_of(name, srcs, body):
    if name not in _mods:
        a, b = scratch() + f'/{name}_graphrec.cpp', scratch() + f'/{name}.cpp'
        with open(a, 'w') as fh: fh.write(driver())
        with open(b, 'w') as fh: fh.write(driver_head() + body)
        _mods[name] = compile_ir([a, b] + [SRC + 'expression/' + s + '.cpp' for s in srcs], name)
    return _mods[name]
# ------------------------------------------------------------------ the contracts
def exprsetup(E, own):
    seqsetup(E, own); on = E.on_first; get, put = E.g_get, E.g_put; VS = E.sizes['Value']
    E.flatc['Expression*'] = [('', 0, 'ptr')]; E.flatc['Item'] = [('when', 0, 'ptr'), ('then', 8, 'ptr')]; E.sizes['Expression*'] = 8; E.sizes['Item'] = 16
    E.ptr_of = lambda E, st, path, x: subexpr(E, st, x)
    V = r'nebula::Value::'
    def vt(st, p, what='Value'):
        g = get(st, p, 'Value', what); t = g[2] if tup(g) else g
        return norm(E, st, tid(g))
    E.vt = vt
    def new(E, st, p, t, what='Value'): E.g_start(E, st, p, 'Value', T(t), what)
    on(V + r'Value\(\)', lambda E, st, a, f, i: (new(E, st, a[0], empty(E, st)), None)[1])
    for m in (' const&', '&&'):
        on(V + r'Value\(bool' + m + r'\)', lambda E, st, a, f, i: (new(E, st, a[0], mkbool(E, st, E.boolv(E.load(st, a[1], 'i8', 1)) if False else E.u(st, E.load(st, a[1], 'i8', 1)) != 0)), None)[1])
        on(V + r'Value\(nebula::NullType' + m + r'\)', lambda E, st, a, f, i: (new(E, st, a[0], null(E, st, E.s(st, E.load(st, a[1], 'i32', 4)))), None)[1])
        for w, tn in ((8, 'signed char'), (16, 'short'), (32, 'int'), (64, 'long')):
            on(V + r'Value\(' + tn + m + r'\)', lambda E, st, a, f, i, w=w: (new(E, st, a[0], mk(E, st, 'Int', zi(E.s(st, E.load(st, a[1], f'i{w}', w // 8))))), None)[1])
        on(V + r'Value\(' + STRQ + m + r'\)', lambda E, st, a, f, i: (new(E, st, a[0], mk(E, st, 'Str', tid(get(st, a[1], 'Str', 'string')))), None)[1])
        on(V + r'setStr\(' + STRQ + m + r'\)', lambda E, st, a, f, i: (get(st, a[0], 'Value', 'setStr'), put(st, a[0], 'Value', T(mk(E, st, 'Str', tid(get(st, a[1], 'Str', 'string'))))), None)[2])
        on(V + r'setBool\(bool' + m + r'\)', lambda E, st, a, f, i: (get(st, a[0], 'Value', 'setBool'), put(st, a[0], 'Value', T(mkbool(E, st, E.u(st, E.load(st, a[1], 'i8', 1)) != 0))), None)[2])
        on(V + r'setInt\(long' + m + r'\)', lambda E, st, a, f, i: (get(st, a[0], 'Value', 'setInt'), put(st, a[0], 'Value', T(mk(E, st, 'Int', zi(E.s(st, E.load(st, a[1], 'i64', 8)))))), None)[2])
        on(V + r'setNull\(nebula::NullType' + m + r'\)', lambda E, st, a, f, i: (get(st, a[0], 'Value', 'setNull'), put(st, a[0], 'Value', T(null(E, st, E.s(st, E.load(st, a[1], 'i32', 4))))), None)[2])
    def rd(g): return lambda E, st, a, f, i: g(E, st, vt(st, a[0], f['dem'].split('::')[-1]))
    on(V + r'type\(\) const', rd(lambda E, st, x: IV(64, ty(x), 0, (1 << 64) - 1)))
    on(V + r'empty\(\) const', rd(lambda E, st, x: isk(x, 'Empty'))); on(V + r'isBadNull\(\) const', rd(lambda E, st, x: badnull(x)))
    on(V + r'isNumeric\(\) const', rd(lambda E, st, x: z3.Or(isk(x, 'Int'), isk(x, 'Float'))))
    for k in KINDV:
        if k != 'Empty': on(V + f'is{k}' + r'\(\) const', rd(lambda E, st, x, k=k: isk(x, k)))
    def cell(bits, val, nm):
        def h(E, st, a, f, i):
            x = vt(st, a[0], 'get' + nm); E.oblige(st, isk(x, nm), 'precondition', f'get{nm}() of a value that is {nm}'); p = obj(E, st, 'content', bits // 8); E.store(st, p, val(E, st, x), f'i{bits}', bits // 8); st.rw(p.obj).ro = True; return p
        return h
    on(V + r'getBool\(\) const', cell(8, lambda E, st, x: IV(8, z3.If(boolof(x), z3.IntVal(1), z3.IntVal(0)), 0, 1), 'Bool'))
    on(V + r'getInt\(\) const', cell(64, lambda E, st, x: IV(64, intof(x)), 'Int')); on(V + r'getNull\(\) const', cell(32, lambda E, st, x: IV(32, nk(x), 0, 7), 'Null'))
    def content(k, ty_):
        def h(E, st, a, f, i):
            x = vt(st, a[0], 'get' + k); E.oblige(st, isk(x, k), 'precondition', f'get{k}() of a value that is {k}')
            if k in E.own2: return E.record_of(E, st, k, cont(k, x))
            p = value(E, st, ty_, E.sizes.get(ty_, 64), T(cont(k, x)), ro=True); return p
        return h
    on(V + r'getStr(\[abi:cxx11\])?\(\) const', content('Str', 'Str'))
    for k in RECK: on(V + f'get{k}' + r'\(\) const', content(k, k))
    def movestr(E, st, a, f, i):
        x = vt(st, a[1], 'moveStr'); E.oblige(st, isk(x, 'Str'), 'precondition', 'moveStr() of a string'); E.g_start(E, st, a[0], 'Str', T(cont('Str', x)), 'moveStr'); put(st, a[1], 'Value', T(mk(E, st, 'Str', z3.Int('husk')))); return None
    on(V + r'moveStr(\[abi:cxx11\])?\(\)', movestr)
    on(V + r'toString(\[abi:cxx11\])?\(\) const', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Str', T(uf('v.text', [vt(st, a[1])], IN)), 'toString'), None)[1])
    for c in ('toBool', 'toInt', 'toFloat'): on(V + c + r'\(\) const', lambda E, st, a, f, i, c=c: (new(E, st, a[0], norm(E, st, uf('v.' + c, [vt(st, a[1])], IN))), None)[1])
    for c in ('lessThan', 'equal'): on(V + c + r'\(nebula::Value const&\) const', lambda E, st, a, f, i, c=c: (new(E, st, a[0], rel3(E, st, c, vt(st, a[1]), vt(st, a[2]))), None)[1])
    for o, n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div'), ('%', 'mod'), ('&', 'bitand'), ('|', 'bitor'), ('^', 'bitxor')):
        on(r'nebula::operator' + re.escape(o) + r'\(nebula::Value const&, nebula::Value const&\)', lambda E, st, a, f, i, n=n: (new(E, st, a[0], arith(E, st, n, vt(st, a[1]), vt(st, a[2]))), None)[1])
    on(r'nebula::operator-\(nebula::Value const&\)', lambda E, st, a, f, i: (new(E, st, a[0], arith(E, st, 'neg', vt(st, a[1]))), None)[1])
    on(r'nebula::operator!\(nebula::Value const&\)', lambda E, st, a, f, i: (new(E, st, a[0], op_not(E, st, vt(st, a[1]))), None)[1])
    on(r'nebula::operator&&\(nebula::Value const&, nebula::Value const&\)', lambda E, st, a, f, i: (new(E, st, a[0], op_and(E, st, vt(st, a[1]), vt(st, a[2]))), None)[1])
    on(r'nebula::operator\|\|\(nebula::Value const&, nebula::Value const&\)', lambda E, st, a, f, i: (new(E, st, a[0], op_or(E, st, vt(st, a[1]), vt(st, a[2]))), None)[1])
    def veq(E, st, x, y):
        p, q = sorted((x, y), key=str); t = uf('v.same', [p, q], BO); fact(st, t == uf('v.same', [q, p], BO))
        if p.eq(q): fact(st, t)
        return t
    E.veq = veq
    for o, m in (('==', lambda b: b), ('!=', z3.Not)):
        on(r'(bool )?nebula::operator' + o + r'\(nebula::Value const&, nebula::Value const&\)', lambda E, st, a, f, i, m=m: m(veq(E, st, vt(st, a[0]), vt(st, a[1])))); on(V + 'operator' + o + r'\(nebula::Value const&\) const', lambda E, st, a, f, i, m=m: m(veq(E, st, vt(st, a[0]), vt(st, a[1]))))
    on(r'nebula::operator<<\(std::(basic_)?ostream.*\)', lambda E, st, a, f, i: a[0])
    for k in ('List', 'Map', 'Set'): on(f'nebula::{k}::contains' + r'\(nebula::Value const&\) const', lambda E, st, a, f, i, k=k: uf('in' + k, [tid(get(st, a[0], k, 'contains')), vt(st, a[1])], BO))
    # strings
    def gs(st, p): return tid(get(st, p, 'Str', 'string'))
    def find(E, st, a, f, i):
        x, y = gs(st, a[0]), gs(st, a[1])
        if len(a) > 2 and E.u(st, a[2]) != 0: raise Unsupported('find from a position')
        r = firstocc(E, st, x, y); return IV(64, z3.If(r < 0, z3.IntVal(NPOS), r), 0, NPOS)
    on(STRQ + r'::find\(' + STRQ + r' const&, unsigned long\) const', find)
    def rfind(E, st, a, f, i):
        x, y = gs(st, a[0]), gs(st, a[1])
        if E.u(st, a[2]) != 0: raise Unsupported('rfind from a position')
        return IV(64, z3.If(occ(E, st, x, y, 0), z3.IntVal(0), z3.IntVal(NPOS)), 0, NPOS)
    on(STRQ + r'::rfind\(' + STRQ + r' const&, unsigned long\) const', rfind)
    def compare(E, st, a, f, i):
        x, y = gs(st, a[0]), gs(st, a[3]); p, n = zi(E.u(st, a[1])), zi(E.u(st, a[2])); s2 = st.fork(); s2.pc.append(p > slen(E, s2, x)); out = []
        if E.feasible(s2, True): out.append((s2, Exc('std::out_of_range', NULL)))
        st.pc.append(p <= slen(E, st, x)); r = z3.Int(fresh_name('compare')); w = z3.If(n < slen(E, st, x) - p, n, slen(E, st, x) - p)
        st.pc += [r >= -(1 << 31), r < 1 << 31, (r == 0) == z3.And(occ(E, st, x, y, p), w == slen(E, st, y)), z3.Implies(z3.And(slen(E, st, y) == 0, p <= slen(E, st, x)), occ(E, st, x, y, p))]
        return out + [(st, IV(32, r, -(1 << 31), (1 << 31) - 1))]
    on(STRQ + r'::compare\(unsigned long, unsigned long, ' + STRQ + r' const&\) const', compare)
    # strings written in the code
    LITS = E.lits = {}
    def lit(E, st, text):
        t = z3.Int('str:' + text); fact(st, slen(E, st, t) == len(text)); LITS[text] = t
        for o, x in LITS.items():
            if o != text: fact(st, x != t)
        return t
    E.lit = lit
    import stdlib as SL
    def litat(E, st, p):
        r = SL.rope_literal(E, SL.cstr_rope(E, st, p))
        if r is None: raise Unsupported('a text that is not a literal')
        return lit(E, st, r.decode('latin1'))
    on(STRQ + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Str', T(litat(E, st, a[1])), 'string'), None)[1])
    on(r'(bool )?std::operator==<char, .*>\(' + STRQ + r' const&, char const\*\)', lambda E, st, a, f, i: gs(st, a[0]) == litat(E, st, a[1]))
    on(r'(bool )?std::operator!=<char, .*>\(' + STRQ + r' const&, char const\*\)', lambda E, st, a, f, i: gs(st, a[0]) != litat(E, st, a[1]))
    on(STRQ + r'::empty\(\) const', lambda E, st, a, f, i: slen(E, st, gs(st, a[0])) == 0)
    # virtual calls of sub-expressions and of the context
    E.probe = None
    E.slots = {}
    st0 = State(); VT = obj(E, st0, 'table of virtual functions', 8)
    def icall(E, st, a, f, i):
        c = f['callee']; s = st.mem[c.obj].g.get('slot') if isinstance(c, Ptr) and c.obj in st.mem else None
        if s is None: raise Unsupported(f'indirect call through {c}')
        if E.probe is not None: E.probe.append(s); raise DropPath()
        nm = E.slots.get(s)
        if nm is None: raise Unsupported(f'virtual call of {s}')
        return E.virt[nm](E, st, a)
    E.on_first('indirect-call', icall)
    def slotobj(who):
        def load_slot(E, st, o, off, sz, ty_):
            p = obj(E, st, 'virtual function', 8); st.rw(p.obj).g['slot'] = (who, off); return p
        return load_slot
    def vptr(E, st, who):
        p = obj(E, st, f'virtual functions of {who}', 1 << 12); st.rw(p.obj).g['onload'] = slotobj(who); return p
    def exload(E, st, o, off, sz, ty_):
        if off == 0 and ty_ == 'ptr': return vptr(E, st, 'expression')
        if off == E.kindoff and sz == 1: return IV(8, kindof(E, st, o.g['expr']), 0, 255)
        raise Unsupported(f'member {off} of a sub-expression')
    def cxload(E, st, o, off, sz, ty_):
        if off == 0 and ty_ == 'ptr': return vptr(E, st, 'context')
        raise Unsupported('member of the context')
    def subexpr(E, st, x):
        k = ('sub', str(x)); p = st.g.get(k)
        if p is None:
            o = E.new_obj(st, 'sub-expression', 1 << 10, 'heap'); o.g['expr'] = x; o.g['onload'] = exload; o.ro = True; st.g[k] = p = o.id
        return Ptr(p, 0)
    def kindof(E, st, x): t = uf('kind', [x], IN); fact(st, z3.And(t >= 0, t < 70)); return t
    E.subexpr = subexpr; E.kindof = kindof; E.kindoff = 16
    def context(E, st):
        p = obj(E, st, 'context', 1 << 7); o = st.rw(p.obj); o.g['onload'] = cxload; o.g[('lt', 0)] = ('Ctx', T(z3.Int('ctx'))); return p
    E.context = context
    def cx(st, p):
        g = st.mem[p.obj].g.get(('lt', 0))
        if g is None or g[0] != 'Ctx': raise Unsupported('the context is another object')
        return tid(g[1])
    E.cx = cx
    def given(E, st, key, t):
        """a reference to a value that is kept elsewhere"""
        k = ('val', key); o = st.g.get(k)
        if o is None: p = value(E, st, 'Value', VS, T(t)); st.g[k] = o = p.obj
        w = st.rw(o); w.g[('lt', 0)] = ('Value', T(norm(E, st, t))); w.ro = True; return Ptr(o, 0)
    E.given = given
    def who(st, p):
        x = st.mem[p.obj].g.get('expr') if isinstance(p, Ptr) and p.obj is not None else None
        if x is None: raise Unsupported('a virtual call of something else')
        return x
    E.who = who
    E.on_eval = None
    def v_eval(E, st, a):
        x = who(st, a[0])
        if E.on_eval: E.on_eval(st, x, norm(E, st, evalof(x, cx(st, a[1]))))
        return given(E, st, 'eval ' + str(x), evalof(x, cx(st, a[1])))
    E.exc_vptr = lambda E, st: vptr(E, st, 'exception'); E.slots[('exception', 16)] = 'what'
    E.virt = dict(eval=v_eval, what=lambda E, st, a: obj(E, st, 'message', 1))
    def ref(nm, n): return lambda E, st, a: given(E, st, nm + str([str(z) for z in argl(st, a[1:], n)]), uf('ctx.' + nm, [cx(st, a[0])] + argl(st, a[1:], n), IN))
    def argl(st, a, n): return [gs(st, a[j]) if c == 's' else zi(E.s(st, a[j])) for j, c in enumerate(n)]
    def val(nm, n): return lambda E, st, a: (new(E, st, a[0], norm(E, st, uf('ctx.' + nm, [cx(st, a[1])] + argl(st, a[2:], n), IN))), None)[1]
    for nm, n in (('getVar', 's'), ('getVersionedVar', 'si'), ('getVarProp', 'ss'), ('getDstProp', 'ss'), ('getInputProp', 's')): E.virt[nm] = ref(nm, n)
    for nm, n in (('getEdgeProp', 'ss'), ('getTagProp', 'ss'), ('getSrcProp', 'ss'), ('getVertex', ''), ('getEdge', ''), ('getColumn', 'i')): E.virt[nm] = val(nm, n)
    def setvar(E, st, a):
        s = cx(st, a[0]); st.rw(a[0].obj).g[('lt', 0)] = ('Ctx', T(setof(s, gs(st, a[1]), tid(get(st, a[2], 'Value', 'setVar'))))); return None
    E.virt['setVar'] = setvar
    on(r'nebula::VariableExpression::var(\[abi:cxx11\])?\(\) const', lambda E, st, a, f, i: value(E, st, 'Str', 32, T(uf('varname', [who(st, a[0])], IN)), ro=True) if 'expr' in st.mem[a[0].obj].g else NotImplemented)
    # pools, and what the factories do
    on(r'(.*\* )?nebula::ObjectPool::add<.*>\(.*\)', lambda E, st, a, f, i: a[1])
    for nm in ESLOTS + CSLOTS:
        st = State(); E.probe = []; pre = 'vc_slot_' if nm in ESLOTS else 'vc_cslot_'; fn = E.mod.find(pre + nm)
        if nm in ESLOTS: args = [subexpr(E, st, z3.Int('probe')), subexpr(E, st, z3.Int('probe2')) if nm == 'eq' else context(E, st)]
        else: args = [context(E, st), value(E, st, 'Str', 32, 'a'), value(E, st, 'Value', VS, T(z3.Int('a')))]
        n = 1 if nm in ('clone', 'toString', 'getVertex', 'getEdge', 'getColumn') else 3 if nm == 'setVar' else 2; E.quiet += 1
        try: E.exec_fn(st, fn, args[:n])
        except DropPath: pass
        finally: E.quiet -= 1
        if len(E.probe) != 1: raise Unsupported(f'no virtual slot for {nm}')
        E.slots[E.probe[0]] = nm; E.probe = None
    for k, v in CONSTS.items():
        st = State(); p = quiet(E, st, 'vc_const_' + k)[1]; nm = next(n for n, o in E.gobj.items() if o == p.obj)
        def init(E, st, o, v=v): o.g[('lt', 0)] = ('Value', T(empty(E, st) if v is None else null(E, st, v))); o.ro = True
        E.globals_init[nm] = init
    E.assumed = ['evaluating a sub-expression gives a value that depends on the sub-expression and the context only, and does not change the context or the values other sub-expressions gave', 'allocation does not throw']
def evalof(x, s): return uf('eval', [x, s], IN)
def setof(s, v, x):
    """the context with a variable set: the last value counts"""
    s = z3.simplify(s)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE: return z3.simplify(z3.If(s.arg(0), setof(s.arg(1), v, x), setof(s.arg(2), v, x)))
    if z3.is_app(s) and s.decl().name() == 'ctx.set':
        b, w, y = s.arg(0), s.arg(1), s.arg(2)
        if w.eq(v): return uf('ctx.set', [b, v, x], IN)
    return uf('ctx.set', [s, v, x], IN)
def exprengine(js, own=()):
    mk0 = std_engine(js)
    def mk():
        E = mk0(); E.root = None; exprsetup(E, list(own)); E.own = None; E.etys = {}; return E
    return mk
def result_of(E, st, p, nm='old result'):
    """the Value kept in the expression holds anything"""
    n = 0
    for (o, off), (t, v) in lts(st).items():
        if o == p.obj and t == 'Value': st.rw(o).g[('lt', off)] = ('Value', T(norm(E, st, z3.Int(f'{nm}.{n}')))); n += 1
def answer(E, st, r):
    """the content of the value a reference gives"""
    if not isinstance(r, Ptr) or r.obj is None: return None
    o = st.mem[r.obj]
    if not o.alive: ob(E, st, 'the value given is still alive', False, 'use-after-free'); return None
    g = o.g.get(('lt', r.off)); return tid(g[1]) if g is not None and g[0] == 'Value' else None

def expr_srcs():
    import glob
    r = sorted(x for d in ('expression', 'function', 'datatypes', 'time', 'time/detail') for x in glob.glob(SRC + d + '/*.cpp')) + [SRC + 'base/Base.cpp', SRC + 'base/Status.cpp']
    return [x[len(SRC):] for x in r]
BUILT = {}
def expr_prog():
    """the search program over all expressions and functions, built once in a run"""
    from framework import build_replay
    if 'p' not in BUILT: BUILT['p'] = build_replay([VERIF + '/harness/expr_search.cpp'] + [SRC + s for s in expr_srcs()] + [VERIF + '/shim/folly_shim.cpp', VERIF + '/shim/expr_wire.cpp'], 'expr_search', ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'))
    return BUILT['p']
def expr_search(mode, quick, thorough):
    def search(self, failed, tier):
        from framework import build_replay, run_search
        return run_search(expr_prog(), [mode, str(thorough if tier == 'thorough' else quick)], timeout=300)
    return search
