"""The graph records (Tag, Vertex, Edge, Step, Path, List, Map, Set, DataSet, HostAddr, KeyValue) under contract: strings, Values, containers and
the other records are opaque (ghost lifetimes and contents); the record under proof is executed."""
from ghost import *
STRQ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
REC = dict(Tag=[('name', 'Str'), ('props', 'map')], Vertex=[('vid', 'Value'), ('tags', 'vector')],
           Edge=[('src', 'Value'), ('dst', 'Value'), ('type', 32), ('name', 'Str'), ('ranking', 64), ('props', 'map')],
           Step=[('dst', 'Vertex'), ('type', 32), ('name', 'Str'), ('ranking', 64), ('props', 'map')],
           Path=[('src', 'Vertex'), ('steps', 'vector')], List=[('values', 'vector')], Map=[('kvs', 'map')], Set=[('values', 'set')],
           DataSet=[('colNames', 'vector'), ('rows', 'vector')], HostAddr=[('host', 'Str'), ('port', 32)], KeyValue=[('key', 'Str'), ('value', 'Str')])
LT = dict(Vertex=['vid', '#tags'], Edge=['src', 'dst', 'type', 'ranking', '#props'], Step=['dst', 'type', 'ranking', '#props'], Path=['src', 'steps'], List=['values'], HostAddr=['host', 'port'], KeyValue=['key', 'value'])
NE = ['HostAddr']
HASH = ['Tag', 'Vertex', 'Edge', 'Step', 'Path', 'List', 'HostAddr']
CTOR = dict(Tag='name, props', Vertex='vid, tags', Edge='src, dst, type, name, ranking, props', Step='dst, type, name, ranking, props', Path='src, steps', HostAddr='host, port', List='values', Map='kvs', Set='values')
CT = dict(vector='std::vector<.*>', map='std::unordered_map<.*>', set='std::unordered_set<.*>')
SZ = dict(vector=24, map=56, set=56, Str=32, Value=16)
def driver():
    s = '#include "common/base/Base.h"\n' + ''.join(f'#include "common/datatypes/{x}.h"\n' for x in ('Value', 'Vertex', 'Edge', 'Path', 'List', 'Map', 'Set', 'DataSet', 'HostAddr', 'KeyValue')) + '''#include <new>
using namespace nebula;
#define X extern "C"
X uint64_t vc_size_Value() { return sizeof(Value); }
template <class T> void asg(T* a, const T* b) { if constexpr (std::is_copy_assignable_v<T>) *a = *b; } template <class T> void masg(T* a, T* b) { if constexpr (std::is_move_assignable_v<T>) *a = std::move(*b); }
'''
    for c, fs in REC.items():
        s += f'X uint64_t vc_size_{c}() {{ return sizeof({c}); }} X void vc_ctor0_{c}(void* p) {{ new (p) {c}; }} X void vc_copy_{c}(void* p, const {c}* q) {{ new (p) {c}(*q); }} X void vc_move_{c}(void* p, {c}* q) {{ new (p) {c}(std::move(*q)); }} X void vc_dtor_{c}({c}* p) {{ p->~{c}(); }}\n'
        s += f'X bool vc_assignable_{c}() {{ return std::is_copy_assignable_v<{c}>; }} X bool vc_massignable_{c}() {{ return std::is_move_assignable_v<{c}>; }} X void vc_asg_{c}({c}* p, const {c}* q) {{ asg(p, q); }} X void vc_masg_{c}({c}* p, {c}* q) {{ masg(p, q); }} X void vc_clear_{c}({c}* p) {{ p->clear(); }} X void vc_clear2_{c}({c}* p) {{ p->__clear(); }}\n'
        s += f'X bool vc_eq_{c}(const {c}* a, const {c}* b) {{ return *a == *b; }}\n'
        if c in NE: s += f'X bool vc_ne_{c}(const {c}* a, const {c}* b) {{ return *a != *b; }}\n'
        if c in LT: s += f'X bool vc_lt_{c}(const {c}* a, const {c}* b) {{ return *a < *b; }}\n'
        if c in HASH: s += f'X uint64_t vc_hash_{c}(const {c}* a) {{ return std::hash<{c}>()(*a); }}\n'
        if c in CTOR: s += f'X void vc_mk_{c}(void* p, ' + ', '.join(f'decltype({c}::{f})* {f}_' for f, _ in fs) + f') {{ new (p) {c}(' + ', '.join(f'std::move(*{f.strip()}_)' for f in CTOR[c].split(',')) + '); }\n'
        for f, t in fs: s += f'X void* vc_at_{c}_{f}({c}* p) {{ return std::addressof(p->{f}); }} X uint64_t vc_fsize_{c}_{f}() {{ return sizeof(decltype({c}::{f})); }}\n'
    s += '''X void vc_rev_Edge(Edge* e) { e->reverse(); } X void vc_format_Edge(Edge* e) { e->format(); } X bool vc_contains_Edge(const Edge* e, const Value* k) { return e->contains(*k); } X const Value* vc_value_Edge(const Edge* e, const std::string* k) { return &e->value(*k); }
X bool vc_contains_Vertex(const Vertex* e, const Value* k) { return e->contains(*k); } X const Value* vc_value_Vertex(const Vertex* e, const std::string* k) { return &e->value(*k); } X void vc_swap_Vertex(Vertex* a, Vertex* b) { swap(*a, *b); } X void vc_swap_Step(Step* a, Step* b) { swap(*a, *b); }
X bool vc_contains_Map(const Map* e, const Value* k) { return e->contains(*k); } X const Value* vc_value_Map(const Map* e, const std::string* k) { return &e->at(*k); } X uint64_t vc_count_Map(const Map* m) { return m->size(); }
X bool vc_contains_Set(const Set* e, const Value* k) { return e->contains(*k); } X uint64_t vc_count_Set(const Set* m) { return m->size(); }
X bool vc_contains_List(const List* e, const Value* k) { return e->contains(*k); } X uint64_t vc_count_List(const List* m) { return m->size(); } X bool vc_empty_List(const List* m) { return m->empty(); }
X bool vc_append_Path(Path* p, Path* q) { return p->append(std::move(*q)); } X void vc_reverse_Path(Path* p) { p->reverse(); } X void vc_addStep_Path(Path* p, Step* s) { p->addStep(std::move(*s)); } X bool vc_dupv_Path(const Path* p) { return p->hasDuplicateVertices(); } X bool vc_dupe_Path(const Path* p) { return p->hasDuplicateEdges(); }
X bool vc_append_DataSet(DataSet* p, DataSet* q) { return p->append(std::move(*q)); } X bool vc_merge_DataSet(DataSet* p, DataSet* q) { return p->merge(std::move(*q)); } X bool vc_emplace_DataSet(DataSet* p, Row* r) { return p->emplace_back(std::move(*r)); } X void vc_col_DataSet(void* o, const DataSet* p, const std::string* n) { new (o) std::vector<Value>(p->colValues(*n)); }
X const void* vc_row_DataSet(const DataSet* p, uint64_t i) { return &p->rowValues(i); } X uint64_t vc_rows_DataSet(const DataSet* p) { return p->rowSize(); } X uint64_t vc_cols_DataSet(const DataSet* p) { return p->colSize(); } X uint64_t vc_sizeof_DataSet(const DataSet* p) { return p->size(); }
X const Value* vc_null() { return &Value::kNullValue; } X const Value* vc_unknown() { return &Value::kNullUnknownProp; }
'''
    return s
_js = {}
def module():
    if 'm' not in _js:
        p = scratch() + '/graphrec.cpp'
        with open(p, 'w') as fh: fh.write(driver())
        _js['m'] = compile_ir([p] + [SRC + f'datatypes/{x}.cpp' for x in ('Vertex', 'Edge', 'Path', 'List', 'HostAddr')], 'graphrec')
    return _js['m']
# ------------------------------------------------------------------ contents and relations
def hashed(E, v):
    if getattr(E, 'fold', False): v.src = 'opaque'     # arithmetic on it is some function of its operands
    return v
class T:
    """a content given by a term"""
    def __init__(s, t): s.t = z3.simplify(t)
    def __eq__(s, o): return isinstance(o, T) and s.t.eq(o.t)
    def __hash__(s): return s.t.hash()
    def __str__(s): return 'T[%s]' % s.t
    __repr__ = __str__
Term = T
def deep(x): return isinstance(x, T) or hasattr(x, 'tid') or isinstance(x, tuple) and any(deep(y) for y in x)
def tid(x):
    if isinstance(x, T): return x.t
    if hasattr(x, 'tid'): return x.tid()
    if isinstance(x, z3.ExprRef): return x
    if isinstance(x, tuple) and deep(x): return uf('mk_' + str(x[0]), [tid(y) for y in x[1:]], IN)
    return z3.Int('id:' + str(x))
def uf(name, args, res): return z3.Function(name, *[a.sort() for a in args], res)(*args)
BO, IN = z3.BoolSort(), z3.IntSort()
def note(E, st, T, x):
    """remember a content of type T of this state: the laws are instantiated for all of them"""
    k = ('ids', T); s = st.g.get(k, ())
    if x not in s: st.g[k] = s + (x,)
def tup(v): return isinstance(v, tuple) and v[0] == 'of'
def eq(E, st, T, x, y):
    if x == y: return True
    if T == 'Value' and tup(x) and tup(y):
        if x[1] != y[1]: return False
        if x[1] in ('Int', 'Bool'): return E.s(st, x[2]) == E.s(st, y[2])
        if x[1].endswith('*'): return z3.And([(lambda r: z3.BoolVal(r) if isinstance(r, bool) else r)(eq(E, st, t, Term(tid(v)), Term(tid(w)))) for (t, v), (_, w) in zip(x[2], y[2])])     # a record whose members are visible: memberwise (C25)
        return eq(E, st, x[1], x[2], y[2])
    note(E, st, T, x); note(E, st, T, y); return uf('eq_' + T, [tid(x), tid(y)], BO)
def lt(E, st, T, x, y):
    if T == 'Value' and tup(x) and tup(y) and x[1] == y[1]:
        if x[1] in ('Int', 'Bool'): return E.s(st, x[2]) < E.s(st, y[2])
        return lt(E, st, x[1], x[2], y[2])
    note(E, st, T, x); note(E, st, T, y); return uf('lt_' + T, [tid(x), tid(y)], BO)
def size(E, st, T, x):
    note(E, st, T, x)
    if x == 'empty': return z3.IntVal(0)
    n = uf('size_' + T, [tid(x)], IN); st.pc.append(z3.And(n >= 0, n < 1 << 40)); return n
def laws(E, st, Ts):
    """the members' own relations are lawful, instantiated for the contents in use"""
    out = []
    for T in Ts:
        ids = [tid(x) for x in st.g.get(('ids', T), ())]; q = lambda a, b: uf('eq_' + T, [a, b], BO); l = lambda a, b: uf('lt_' + T, [a, b], BO); n = lambda a: uf('size_' + T, [a], IN)
        for a in ids:
            out += [q(a, a), z3.Not(l(a, a))]
            for b in ids:
                if a is b: continue
                out += [q(a, b) == q(b, a), z3.Not(z3.And(l(a, b), l(b, a))), z3.Implies(q(a, b), z3.Not(l(a, b))), z3.Implies(q(a, b), n(a) == n(b))]
                if T == 'Str': out += [z3.Or(q(a, b), l(a, b), l(b, a)), q(a, b) == (a == b)]
                for c in ids:
                    if c is a or c is b: continue
                    out += [z3.Implies(z3.And(q(a, b), q(b, c)), q(a, c)), z3.Implies(z3.And(l(a, b), l(b, c)), l(a, c)), z3.Implies(z3.And(q(a, b), l(b, c)), l(a, c)), z3.Implies(z3.And(l(a, b), q(b, c)), l(a, c))]
    return out
def setup(E, own, seq=False):
    """contracts of everything but the record `own`"""
    q0 = lambda n: E.u(State(), quiet(E, State(), n)[1])
    sizes = {c: q0('vc_size_' + c) for c in REC}; sizes.update(SZ); sizes['Value'] = q0('vc_size_Value'); E.sizes = sizes
    own = {own} if isinstance(own, str) else set(own)
    tys = {t: sizes[t] for t in list(CT) + ['Str', 'Value'] + [c for c in REC if c not in own]}
    q = dict(CT); q['Str'] = STRQ
    for t in tys: q.setdefault(t, 'nebula::' + t)
    setup_types(E, tys, [], q, {'Str': 'basic_string', 'map': 'unordered_map', 'set': 'unordered_set'})
    cn = lambda t: {'Str': 'basic_string', 'map': 'unordered_map', 'set': 'unordered_set'}.get(t, t)
    on = E.on_first; live = E.g_live
    def get(st, p, T, what): return live(E, st, p, T, what)[1]
    def put(st, p, T, v):
        E.oblige(st, not st.mem[p.obj].ro, 'frame', f'the {T} may be written')
        if E.elem is not None and 'own' in st.mem[p.obj].g: E.elem[1](E, st, p, T, v)
        else: st.rw(p.obj).g[('lt', p.off)] = (T, v)
        if E.elem is not None: E.elem[2](E, st, p, T)
    E.g_get, E.g_put = get, put
    for t in tys:
        on(q[t] + rf'::{cn(t)}\(\)', lambda E, st, a, f, i, t=t: (E.g_start(E, st, a[0], t, 'empty', f'construction of {t}'), None)[1])
        on(q[t] + r'::(__)?clear\(\)', lambda E, st, a, f, i, t=t: (get(st, a[0], t, 'clear'), put(st, a[0], t, 'empty'), None)[2])
        def rel2(g, t=t):
            return lambda E, st, a, f, i: g(E, st, t, get(st, a[0], t, f'comparison of {t}'), get(st, a[1], t, f'comparison of {t}'))
        neg = lambda E, st, T, x, y: (lambda r: (not r) if isinstance(r, bool) else z3.Not(r))(eq(E, st, T, x, y))
        gt = lambda E, st, T, x, y: lt(E, st, T, y, x)
        for op, g in (('==', eq), ('!=', neg), ('<', lt), ('>', gt)):
            if t in CT or t == 'Str':
                arg = STRQ if t == 'Str' else q[t]
                on(r'(bool|.*__enable_if<.*bool>::__type) std::operator' + op + r' ?<.*>\(' + arg + r' const&, ' + arg + r' const&\)', rel2(g))
            elif t == 'Value': on(rf'nebula::operator{op}\(nebula::Value const&, nebula::Value const&\)', rel2(g))
            else: on(rf'nebula::{t}::operator{op}\(nebula::{t} const&\) const', rel2(g))
        if t in CT or t == 'Str':
            on(q[t] + r'::(size|length)\(\) const', lambda E, st, a, f, i, t=t: IV(64, size(E, st, t, get(st, a[0], t, 'size')), 0, (1 << 64) - 1))
            on(q[t] + r'::empty\(\) const', lambda E, st, a, f, i, t=t: size(E, st, t, get(st, a[0], t, 'empty')) == 0)
            on(q[t] + r'::reserve\(unsigned long\)', lambda E, st, a, f, i, t=t: (get(st, a[0], t, 'reserve'), None)[1])
    def cmp(E, st, a, f, i):
        x, y = get(st, a[0], 'Str', 'compare'), get(st, a[1], 'Str', 'compare'); t = uf('cmp_Str', [tid(x), tid(y)], IN); l, e = lt(E, st, 'Str', x, y), eq(E, st, 'Str', x, y)
        st.pc += [t >= -(1 << 31), t < 1 << 31, (t < 0) == l, (t == 0) == e]; return IV(32, t, -(1 << 31), (1 << 31) - 1)
    on(STRQ + r'::compare\(' + STRQ + r' const&\) const', cmp)
    # a Value made of something
    def vof(K, ld):
        def h(E, st, a, f, i): E.g_start(E, st, a[0], 'Value', ('of', K, ld(E, st, a[1])), f'construction of Value from {K}'); return None
        return h
    for c in ('Vertex', 'Edge', 'Path', 'List', 'Map', 'Set', 'DataSet'):
        if c in own: continue
        on(rf'nebula::Value::Value\(nebula::{c} const&\)', vof(c, lambda E, st, p, c=c: get(st, p, c, 'Value of it')))
    for w, ty in ((8, 'signed char'), (16, 'short'), (32, 'int'), (64, 'long')):
        for m in (' const&', '&&'): on(rf'nebula::Value::Value\({ty}{m}\)', vof('Int', lambda E, st, p, w=w: IV(64, E.s(st, E.load(st, p, f'i{w}', w // 8)))))
    on(r'nebula::Value::isStr\(\) const', lambda E, st, a, f, i: uf('is_str', [tid(get(st, a[0], 'Value', 'isStr'))], BO))
    def getstr(E, st, a, f, i):
        v = get(st, a[0], 'Value', 'getStr'); E.oblige(st, uf('is_str', [tid(v)], BO), 'precondition', 'getStr() of a Value that is a string')
        p = value(E, st, 'Str', 32, ('strof', v), ro=True); return p
    on(r'nebula::Value::getStr\[?.*\(\) const', getstr)
    def text(T):
        def h(E, st, a, f, i): E.g_start(E, st, a[0], 'Str', ('text', get(st, a[1], T, 'toString')), 'text'); return None
        return h
    on(r'nebula::Value::toString(\[abi:cxx11\])?\(\) const', text('Value'))
    # hashing
    def fnv(E, st, a, f, i):
        x = get(st, a[0], 'Str', 'hash'); h = uf('fnv64', [tid(x), zi(E.u(st, a[1]))], IN); st.pc.append(z3.And(h >= 0, h < 1 << 64)); return hashed(E, IV(64, h, 0, (1 << 64) - 1))
    on(r'folly::hash::fnv64\(' + STRQ + r' const&, unsigned long\)', fnv)
    def fbuf(w):
        def h(E, st, a, f, i):
            n = E.u(st, a[1]); p = a[0]
            if isinstance(p, Ptr) and p.obj is not None and st.mem[p.obj].g.get('data') is not None:
                x = st.mem[p.obj].g['data']; E.oblige(st, zi(n) == size(E, st, 'Str', x), 'postcondition', 'the whole text is hashed', assume=False); x = tid(x)
            else:
                if n not in (4, 8): raise Unsupported('hash of a buffer')
                x = zi(E.u(st, E.load(st, p, f'i{8 * n}', n)))
            r = uf(f'fnv{w}_buf', [x, zi(n), zi(E.u(st, a[2]))], IN); st.pc.append(z3.And(r >= 0, r < 1 << w)); return hashed(E, IV(w, r, 0, (1 << w) - 1))
        return h
    on(r'folly::hash::fnv64_buf\(.*', fbuf(64)); on(r'folly::hash::fnv32_buf\(.*', fbuf(32))
    def data(E, st, a, f, i):
        x = get(st, a[0], 'Str', 'data'); p = obj(E, st, 'bytes', 1); st.rw(p.obj).g['data'] = x; return p
    on(STRQ + r'::(data|c_str)\(\) const', data)
    def hs(T):
        def h(E, st, a, f, i): r = uf('hash_' + T, [tid(get(st, a[1], T, 'hash'))], IN); st.pc.append(z3.And(r >= 0, r < 1 << 64)); return hashed(E, IV(64, r, 0, (1 << 64) - 1))
        return h
    for c in HASH + ['Value']:
        if c not in own: on(rf'std::hash<nebula::{c} ?>::operator\(\)\(nebula::{c} const&\) const', hs(c))
    # lookups in maps and sets
    M = CT['map'] + '::'; NI = r'std::__detail::_Node_(const_)?iterator(_base)?<.*>::'
    def pos(st, v, k):
        p = obj(E, st, 'iterator', 8); st.rw(p.obj).g['pos'] = (v, k); return p
    def key(E, st, T, p): return get(st, p, 'Str' if T == 'map' else 'Value', 'key')
    def has(T, v, k): return uf('has_' + T, [tid(v), tid(k)], BO)
    def find(T):
        def h(E, st, a, f, i):
            v, k = get(st, a[0], T, 'find'), key(E, st, T, a[1])
            if E.on_has: E.on_has(E, st, T, v, k)
            s2 = st.fork(); st.pc.append(has(T, v, k)); s2.pc.append(z3.Not(has(T, v, k)))
            return [(st, pos(st, v, k)), (s2, pos(s2, v, None))]
        return h
    def count(T):
        def h(E, st, a, f, i):
            v, k = get(st, a[0], T, 'count'), key(E, st, T, a[1])
            if E.on_has: E.on_has(E, st, T, v, k)
            return IV(64, z3.If(has(T, v, k), z3.IntVal(1), z3.IntVal(0)), 0, 1)
        return h
    for T in ('map', 'set'):
        on(CT[T] + r'::find\(.*\)( const)?', find(T))
        on(CT[T] + r'::c?end\(\)( const)?', lambda E, st, a, f, i, T=T: pos(st, get(st, a[0], T, 'end'), None))
        on(CT[T] + r'::count\(.*\) const', count(T))
    def where(st, p):
        """an iterator argument: by value, or the address of an iterator variable"""
        if isinstance(p, Ptr) and p.obj is not None and 'pos' not in st.mem[p.obj].g: p = E.load(st, p, 'ptr', 8)
        g = st.mem[p.obj].g.get('pos') if isinstance(p, Ptr) and p.obj is not None else None
        if g is None: raise Unsupported('iterator')
        return g
    def ieq(neg):
        def h(E, st, a, f, i):
            x, y = where(st, a[0]), where(st, a[1]); E.oblige(st, x[0] == y[0], 'precondition', 'iterators of one container are compared'); r = x[1] == y[1]; return r != neg
        return h
    on(r'(bool )?std::__detail::operator==.*_Node_iterator_base.*', ieq(False)); on(r'(bool )?std::__detail::operator!=.*_Node_iterator_base.*', ieq(True))
    def deref(E, st, a, f, i):
        v, k = where(st, a[0]); E.oblige(st, k is not None, 'precondition', 'the end iterator is not dereferenced')
        if k is None: raise DropPath()
        p = obj(E, st, 'entry', 32 + sizes['Value']); o = st.rw(p.obj); o.g[('lt', 0)] = ('Str', k); o.g[('lt', 32)] = ('Value', ('entry', v, k)); o.ro = True; o.g['entry'] = (v, k); return p
    on(r'std::__detail::_Node_(const_)?iterator<.*>::operator(->|\*)\(\) const', deref)
    on(r'(.*)std::find<.*nebula::Value.*', lambda E, st, a, f, i: vfind(E, st, a))
    # positions in vectors: begin and end only
    V = CT['vector'] + '::'
    on(V + r'c?begin\(\)( const)?', lambda E, st, a, f, i: pos(st, get(st, a[0], 'vector', 'begin'), 0)); on(V + r'c?end\(\)( const)?', lambda E, st, a, f, i: pos(st, get(st, a[0], 'vector', 'end'), 'end'))
    def vfind(E, st, a):
        (v, b), (w, e) = where(st, a[0]), where(st, a[1]); k = get(st, a[2], 'Value', 'find'); E.oblige(st, v == w and b == 0 and e == 'end', 'precondition', 'the whole vector is searched')
        h = uf('has_vector', [tid(v), tid(k)], BO); s2 = st.fork(); st.pc.append(h); s2.pc.append(z3.Not(h)); return [(st, pos(st, v, ('at', k))), (s2, pos(s2, v, 'end'))]
    if not seq: on(r'(bool )?__gnu_cxx::operator==.*__normal_iterator.*', ieq(False)); on(r'(bool )?__gnu_cxx::operator!=.*__normal_iterator.*', ieq(True))
    E.on_has = None; E.has = has; E.where = where; E.pos = pos
    E.assumed = ['constructors of the contained types and memory allocation do not throw', 'comparison, size and hash of the contained types are functions of their contents']
    abort_handler(E)
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def engine(own):
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E, own); E.own = own; return E
    return mk
def at(E, st, c, p, f): return quiet(E, st, f'vc_at_{c}_{f}', p)[1]
def fill(E, st, c, p, nm, start=True):
    """arbitrary members -> {field: content}"""
    out = {}
    for f, t in REC[c]:
        q = at(E, st, c, p, f)
        if isinstance(t, int):
            x = z3.Int(f'{nm}.{f}'); st.pc.append(z3.And(x >= -(1 << (t - 1)), x < 1 << (t - 1))); E.store(st, q, IV(t, x, -(1 << (t - 1)), (1 << (t - 1)) - 1), f'i{t}', t // 8); out[f] = x
        else: st.rw(q.obj).g[('lt', q.off)] = (t, f'{nm}.{f}'); out[f] = f'{nm}.{f}'
    return out
def rec(E, st, c, nm, ro=False):
    p = obj(E, st, nm, E.sizes[c]); v = fill(E, st, c, p, nm); st.rw(p.obj).ro = ro; return p, v
def read(E, st, c, p):
    out = {}
    for f, t in REC[c]:
        q = at(E, st, c, p, f)
        if isinstance(t, int):
            v = E.load(st, q, f'i{t}', t // 8); out[f] = None if isinstance(v, Undef) else E.s(st, v)
        else: g = st.mem[q.obj].g.get(('lt', q.off)); out[f] = g[1] if g else 'nothing'
    return out
def expect(E, st, c, p, want, what):
    got = read(E, st, c, p)
    for f, t in REC[c]:
        w, g = want[f], got[f]
        if isinstance(w, str) and w == 'any': continue
        ob(E, st, f'{what}: {f} is {str(w)[:60]}', (g is not None and (E.eqt(st, g, w) or g == w)) if isinstance(t, int) else g == w)
def only(E, st, c, ptrs, what):
    """nothing but the members of the listed records is alive"""
    ok = set()
    for p in ptrs:
        for f, t in REC[c]:
            if not isinstance(t, int): q = at(E, st, c, p, f); ok.add((q.obj, q.off))
    left = [k for k in lts(st) if k not in ok and not str(st.mem[k[0]].name).startswith(('arg', 'entry')) and not st.mem[k[0]].ro]
    ob(E, st, f'{what}: no temporary is left alive', not left, 'lifetime')
def moved(x): return x if isinstance(x, tuple) and x[0] == 'moved' else ('moved', x)
GSRC = ['datatypes/%s.cpp' % x for x in ('Value', 'Date', 'List', 'Map', 'Set', 'Edge', 'Vertex', 'Path', 'HostAddr')] + ['time/TimeConversion.cpp']
