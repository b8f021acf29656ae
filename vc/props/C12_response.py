from ghost import *
STRT = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>'
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/response_driver.cpp', SRC + 'graph/Response.cpp'], 'response')
    return _js['m']
# record -> (C++ name, [(field, kind, pointee/element type)])
I4, I8, B1, S, P, C = 'i32', 'i64', 'i8', 'string', 'ptr', 'container'
REC = {
 'auth': ('AuthResponse', [('errorCode', I4, 0), ('sessionId', P, 'i64'), ('errorMsg', P, 'string'), ('timeZoneOffsetSeconds', P, 'i32'), ('timeZoneName', P, 'string')]),
 'prof': ('ProfilingStats', [('rows', I8, 0), ('execDurationInUs', I8, 0), ('totalDurationInUs', I8, 0), ('otherStats', P, 'map<string,string>')]),
 'branch': ('PlanNodeBranchInfo', [('isDoBranch', B1, 0), ('conditionNodeId', I8, 0)]),
 'pair': ('Pair', [('key', S, 0), ('value', S, 0)]),
 'node': ('PlanNodeDescription', [('name', S, 0), ('id', I8, 0), ('outputVar', S, 0), ('description', P, 'vector<Pair>'), ('profiles', P, 'vector<ProfilingStats>'), ('branchInfo', P, 'PlanNodeBranchInfo'), ('dependencies', P, 'vector<i64>')]),
 'plan': ('PlanDescription', [('planNodeDescs', C, 'vector<PlanNodeDescription>'), ('nodeIndexMap', C, 'map<i64,i64>'), ('format', S, 0), ('optimize_time_in_us', I4, 0)]),
 'exec': ('ExecutionResponse', [('errorCode', I4, 0), ('latencyInUs', I4, 0), ('data', P, 'DataSet'), ('spaceName', P, 'string'), ('errorMsg', P, 'string'), ('planDesc', P, 'PlanDescription'), ('comment', P, 'string')]),
}
def setup(E, rec):
    """pointees, strings and containers are abstract: equality of their contents is an uninterpreted relation, reflexive; a heap cell read through a pointer is a function of the address"""
    E.EQ = z3.Function('content_equal', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    def addr(st, p):
        if isinstance(p, OPtr): return p.t
        if isinstance(p, Ptr) and p.obj is None: return z3.IntVal(0)
        return z3.Int(f'addr.{st.mem[p.obj].name}.{p.off}')
    E.addr = addr
    def content_eq(st, x, y): return True if x is y or z3.is_true(z3.simplify(x == y)) else z3.Or(x == y, E.EQ(x, y), E.EQ(y, x))
    E.content_eq = content_eq
    def eq(E, st, a, f, i):
        for p in a[:2]: nonnull(E, st, p)
        return content_eq(st, addr(st, a[0]), addr(st, a[1]))
    def nonnull(E, st, p):
        if isinstance(p, OPtr): E.oblige(st, p.t != 0, 'null-deref', 'the compared object exists')
        elif p.obj is None: E.oblige(st, False, 'null-deref', 'the compared object exists'); raise DropPath()
    def ne(E, st, a, f, i): r = eq(E, st, a, f, i); return E.bnot(r)
    for n in REC:
        if n != rec: E.on_first(f'nebula::{REC[n][0]}::operator==\\(.*\\) const', eq)
    E.on_first(r'nebula::(DataSet|List|Value)::operator==\(.*\) const', eq)
    E.on_first(r'bool std::operator==<.*>\((' + STRT + r'|std::vector<.*>|std::unordered_map<.*>) const&, (' + STRT + r'|std::vector<.*>|std::unordered_map<.*>) const&\)', eq)
    E.on_first(r'bool std::operator!=<.*>\((' + STRT + r'|std::vector<.*>|std::unordered_map<.*>) const&, (' + STRT + r'|std::vector<.*>|std::unordered_map<.*>) const&\)', ne)
    def oload(st, p, ty, size):
        E.oblige(st, p.t != 0, 'null-deref', 'a read goes through a pointer that is not null')
        if not tw(ty): raise Unsupported('read of a %s through an opaque pointer' % ty)
        w = tw(ty); v = z3.Function(f'heap{w}', z3.IntSort(), z3.IntSort())(p.t)
        return E.rng(st, IV(w, v, -(1 << (w - 1)), (1 << (w - 1)) - 1))
    E.oload = oload
    def delete(E, st, a, f, i):
        ty = f['dem'].split('::operator()(')[0]
        if isinstance(a[1], Ptr) and a[1].obj is None: return None
        E.oblige(st, not any(z3.eq(a[1].t, t) for t, _ in st.g.get('deleted', ())), 'double-free', 'an object is deleted once')
        st.g['deleted'] = st.g.get('deleted', ()) + ((a[1].t, ty),)
    E.on_first(r'std::default_delete<.*>::operator\(\)\(.*\) const', delete)
    # inline containers: a ghost content, None when empty
    CT = r'std::(__cxx11::)?(vector|unordered_map)<.*>'
    def cput(v):
        def h(E, st, a, f, i):
            if not isinstance(a[0], Ptr): raise Unsupported('container at an opaque address')
            st.rw(a[0].obj).g[('lt', a[0].off)] = ('container', v)
        return h
    E.on_first(r'std::vector<.*>::(vector\(\)|clear\(\))', cput('empty')); E.on_first(r'std::unordered_map<.*>::(unordered_map\(\)|clear\(\))', cput('empty'))
def engine(rec):
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E, rec); return E
    return mk
def offs(E, rec):
    st = State(); q = lambda n: E.u(st, quiet(E, st, n)[1])
    return q(f'vc_{rec}_size'), {f: q(f'vc_{rec}_off_{f}') for f, _, _ in REC[rec][1]}
def inp(E, st, rec, nm, size, off):
    p = obj(E, st, nm, size); o = st.rw(p.obj); o.lazy = 'input'
    for f, k, x in REC[rec][1]:
        if k == C: o.g[('lt', off[f])] = ('container', nm + '.' + f)
    return p
SZ = {I4: 4, I8: 8, B1: 1, P: 8}
def field(E, st, p, f, k, off): return E.load(st, Ptr(p.obj, off[f]), 'ptr' if k == P else k, SZ[k])
def u_eq(rec):
    def u(E):
        size, off = offs(E, rec); st = State(); a = inp(E, st, rec, 'a', size, off); b = inp(E, st, rec, 'b', size, off)
        for p in (a, b): st.rw(p.obj).ro = True
        cs = []
        for f, k, x in REC[rec][1]:
            if k in (S, C): cs.append((f, E.content_eq(st, E.addr(st, Ptr(a.obj, off[f])), E.addr(st, Ptr(b.obj, off[f]))))); continue
            va, vb = field(E, st, a, f, k, off), field(E, st, b, f, k, off)
            if k == B1:
                for v in (va, vb): st.pc.append(z3.Or(E.u(st, v) == 0, E.u(st, v) == 1))
            if k != P: cs.append((f, E.u(st, va) == E.u(st, vb))); continue
            pa, pb = E.addr(st, va), E.addr(st, vb)
            if x in ('i32', 'i64'):
                w = int(x[1:]); h = z3.Function(f'heap{w}', z3.IntSort(), z3.IntSort()); same = h(pa) == h(pb)
            else: same = E.content_eq(st, pa, pb)
            cs.append((f, z3.Or(pa == pb, z3.And(pa != 0, pb != 0, same))))
        lbl = f'nebula::{REC[rec][0]}::operator=='; want = z3.And([c for _, c in cs]); E.curfn = lbl; n = 0
        for s2, r in E.exec_fn(st, E.mod.find(f'vc_{rec}_eq'), [a, b]):
            E.curfn = lbl; n += 1
            if isinstance(r, Exc): ob(E, s2, 'the comparison does not throw', False); continue
            rv = E.boolv(r); rv = z3.BoolVal(rv) if isinstance(rv, bool) else rv
            for f, c in cs: ob(E, s2, f'{REC[rec][0]}: records that differ in {f} are not equal', z3.Implies(rv, c))
            ob(E, s2, f'{REC[rec][0]}: records that agree in every field are equal', z3.Implies(want, rv))
        ob(E, st, 'the comparison returns', n > 0); E.covers = 1; E.verified = [lbl]
    return u
def u_clear(rec):
    def u(E):
        size, off = offs(E, rec); E.curfn = lbl = f'nebula::{REC[rec][0]}::clear'
        s0 = State(); d = obj(E, s0, 'default', size); (s0, _), = [(s, r) for s, r in E.exec_fn(s0, E.mod.find(f'vc_{rec}_ctor'), [d])]
        for root in ('clear', '_clear'):
            st = State(); p = inp(E, st, rec, 'r', size, off); n = 0; old = {}
            for f, k, x in REC[rec][1]:
                if k == P: old[f] = E.addr(st, field(E, st, p, f, k, off))
            if len(old) > 1: st.pc.append(z3.Distinct(*[z3.If(t == 0, z3.IntVal(-1 - j), t) for j, t in enumerate(old.values())]))
            for s2, r in E.exec_fn(st, E.mod.find(f'vc_{rec}_{root}'), [p]):
                E.curfn = lbl; n += 1
                if isinstance(r, Exc): ob(E, s2, 'clear does not throw', False); continue
                for f, k, x in REC[rec][1]:
                    nm = f'{REC[rec][0]}::clear resets {f} to its default'
                    if k == S: E.oblige(s2, E.rope_len(stdlib.str_get(E, s2, Ptr(p.obj, off[f]))) == 0, 'postcondition', nm, assume=False); ob(E, s2, f'the default of {f} is empty', E.rope_len(stdlib.str_get(E, s0, Ptr(d.obj, off[f]))) == 0)
                    elif k == C: ob(E, s2, nm, s2.mem[p.obj].g.get(('lt', off[f])) == s0.mem[d.obj].g.get(('lt', off[f])) == ('container', 'empty'))
                    elif k == P:
                        v = field(E, s2, p, f, k, off); w = field(E, s0, d, f, k, off)
                        ob(E, s2, nm, E.addr(s2, v) == 0); ob(E, s2, f'the default of {f} is absent', isinstance(w, Ptr) and w.obj is None)
                        dl = s2.g.get('deleted', ()); gone = z3.Or([t == old[f] for t, _ in dl]) if dl else z3.BoolVal(False)
                        ob(E, s2, f'{REC[rec][0]}::clear releases {f}', z3.Or(old[f] == 0, gone), 'lifetime')
                    else:
                        w = field(E, s0, d, f, k, off); v = field(E, s2, p, f, k, off)
                        ob(E, s2, nm, False if isinstance(w, Undef) or isinstance(v, Undef) else E.u(s2, v) == E.u(s0, w))
            ob(E, st, 'clear returns', n > 0)
        E.covers = 1; E.verified = [lbl, lbl.replace('clear', '__clear')]
    return u
class PROP(Property):
    id = 'C12'
    budget = 200
    assumptions = ['equality of strings, vectors, maps and data sets (libstdc++ and DataSet::operator==) is a reflexive and symmetric relation on their contents', 'the optional members of one record do not share an object (they are unique_ptr)']
    def units(self):
        return [(f'{REC[r][0]} {n}', engine(r), u(r)) for r in REC for n, u in (('==', u_eq), ('clear', u_clear))]
    search = search_prog(['graph/Response.cpp', 'time/TimeConversion.cpp'] + ['datatypes/%s.cpp' % s for s in ('Value', 'Date', 'List', 'Map', 'Set', 'Edge', 'Vertex', 'Path')], 'response_search')
