"""NebulaSchemaProvider: every member function from any state that satisfies the class invariant: n fields with arbitrary members, a map that takes
some names to positions below n. Vectors and hash maps are sequences and partial functions by contract; fields are made by the real constructor of
SchemaField and read through its real accessors, also through the virtual interface."""
from ghost import *
import framework, schemagen
LBL = 'nebula::meta::NebulaSchemaProvider::'; STRQ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
_js = {}; MAXU = (1 << 64) - 1; BIG = 1 << 60
MEM = ['name', 'type', 'nullable', 'has', 'default', 'size', 'offset', 'pos']
def gen():
    if 'inc' not in _js:
        inc, _js['types'] = schemagen.generate(REPO, scratch()); _js['inc'] = inc; framework.CXXDEFS.append('-I' + inc)
def module():
    if 'm' not in _js:
        gen(); d = f'{scratch()}/schema_driver.cpp'; shutil.copy(VERIF + '/harness/schema_driver.cpp', d); _js['m'] = compile_ir([d, SRC + 'meta/NebulaSchemaProvider.cpp'], 'schema')
    return _js['m']
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def ident(v): return v if isinstance(v, z3.ExprRef) else z3.Int('text:' + str(v))
class Vec:
    def __init__(s, n, get): s.n = n; s.get = get
def uf(n, *a): return z3.Function(n, *([z3.IntSort()] * (len(a) + 1)))(*[zi(x) for x in a])
def fld(j): return {m: uf('field.' + m, j) for m in MEM}
def facts(st, r):
    """types of the members of a field"""
    st.pc += [r['type'] >= -(1 << 31), r['type'] < 1 << 31, r['nullable'] >= 0, r['nullable'] <= 1, r['has'] >= 0, r['has'] <= 1] + [c for m in ('size', 'offset', 'pos') for c in (r[m] >= 0, r[m] < BIG)]
def setup(E):
    setup_types(E, {'Str': 32, 'Status': 8}, [], qual={'Str': STRQ, 'Status': 'nebula::Status'}, cname={'Str': 'basic_string'}); on = E.on_first; live = E.g_live
    on(STRQ + r'::basic_string\(\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Str', z3.Int('text:'), 'string'), None)[1])
    on(r'nebula::Status::Status\(\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Status', 'ok', 'status'), None)[1])
    on(r'nebula::Status::(Error|OK)\(.*\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Status', 'error' if 'Error' in f['dem'] else 'ok', 'status'), None)[1])
    on(r'folly::StringPiece::(toString|str)(\[abi:cxx11\])?\(\) const', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Str', z3.Int('text:given'), 'text'), None)[1])
    on(STRQ + r'::c_str\(\) const', lambda E, st, a, f, i: OPtr(uf('cstr', ident(live(E, st, a[0], 'Str', 'c_str')[1]))))
    on(STRQ + r'::empty\(\) const', lambda E, st, a, f, i: uf('length', ident(live(E, st, a[0], 'Str', 'empty')[1])) == 0)
    on(STRQ + r'::(size|length)\(\) const', lambda E, st, a, f, i: (lambda t: (st.pc.append(z3.And(t >= 0, t < BIG)), IV(64, t, 0, BIG))[1])(uf('length', ident(live(E, st, a[0], 'Str', 'size')[1]))))
    on(r'std::__cxx11::basic_string<.*>\* google::MakeCheckOpString<.*', lambda E, st, a, f, i: obj(E, st, 'arg text', 32))
    on(r'google::InitVLOG3__\(.*\)', lambda E, st, a, f, i: z3.Bool(fresh_name('vlog')))
    on(r'std::(basic_)?ostream(<.*>)?::operator<<\(.*\)|std::basic_ostream<.*>& std::operator<<.*', lambda E, st, a, f, i: a[0])
    V = r'std::vector<nebula::meta::NebulaSchemaProvider::SchemaField, .*>::'
    def vec(st, p): return st.mem[p.obj].g[('vec', p.off)]
    E.vec = vec
    on(V + r'vector\(\)', lambda E, st, a, f, i: (st.rw(a[0].obj).g.__setitem__(('vec', a[0].off), Vec(z3.IntVal(0), lambda j: fld(j))), None)[1])
    on(V + r'~vector\(\)', lambda E, st, a, f, i: None)
    on(V + r'size\(\) const', lambda E, st, a, f, i: IV(64, zi(vec(st, a[0]).n), 0, MAXU)); on(V + r'empty\(\) const', lambda E, st, a, f, i: zi(vec(st, a[0]).n) == 0)
    on(V + r'reserve\(unsigned long\)', lambda E, st, a, f, i: None)
    def view(E, st, v, k):
        """the field at a position, made by the real constructor from its members"""
        key = str(z3.simplify(zi(k)))
        for (q, kk, o) in st.g.get('views', ()):
            if q is v and (kk == key or E.eqt(st, z3.IntVal(0) + zi(st.g['viewk'][o]), zi(k))): return Ptr(o, 0)
        r = v.get(z3.simplify(zi(k))); facts(st, r); p = field(E, st, r, f'the field at {key}'); st.g['views'] = st.g.get('views', ()) + ((v, key, p.obj),); st.g['viewk'] = {**st.g.get('viewk', {}), p.obj: k}; st.rw(p.obj).ro = True; return p
    E.view = view
    def nth(E, st, a, f, i):
        v = vec(st, a[0]); k = zi(E.u(st, a[1])); E.oblige(st, k < zi(v.n), 'bounds', 'the field exists')
        return view(E, st, v, k)
    on(V + r'(operator\[\]|at)\(unsigned long\)( const)?', nth)
    def back(E, st, a, f, i): v = vec(st, a[0]); E.oblige(st, zi(v.n) > 0, 'bounds', 'there is a last field'); return view(E, st, v, zi(v.n) - 1)
    on(V + r'back\(\)( const)?', back)
    def front(E, st, a, f, i): v = vec(st, a[0]); E.oblige(st, zi(v.n) > 0, 'bounds', 'there is a first field'); return view(E, st, v, z3.IntVal(0))
    on(V + r'front\(\)( const)?', front)
    def append(E, st, p, fp):
        v = vec(st, p); r = members(E, st, fp); n = zi(v.n)
        st.rw(p.obj).g[('vec', p.off)] = Vec(n + 1, lambda j, v=v: (lambda o: {m: z3.If(zi(j) == n, r[m], o[m]) for m in MEM})(v.get(j))); return fp
    def emplace(E, st, a, f, i):
        # the arguments of the real constructor, in the order of the call
        p = obj(E, st, 'the field added', E.fsz); args = [E.load(st, x, *LT[k]) if LT[k] else x for k, x in enumerate(a[1:])]
        st2, _ = quiet(E, st, 'vc_field_ctor', p, *args); return [(st2, append(E, st2, a[0], p))]
    on(r'.*' + V + r'emplace_back<.*>\(.*\)', emplace)
    on(V + r'push_back\(.*\)', lambda E, st, a, f, i: (append(E, st, a[0], a[1]), None)[1])
    # the map from names to positions
    M = r'std::unordered_map<' + STRQ + r', long, .*>::'
    def mp(st, p): return st.mem[p.obj].g[('map', p.off)]
    E.mp = mp
    on(M + r'unordered_map\(\)', lambda E, st, a, f, i: (st.rw(a[0].obj).g.__setitem__(('map', a[0].off), (lambda n: z3.BoolVal(False), lambda n: z3.IntVal(0))), None)[1])
    on(M + r'~unordered_map\(\)', lambda E, st, a, f, i: None)
    def node(E, st, p, n, m):
        q = obj(E, st, 'entry of the map', 56); st.rw(q.obj).g[('lt', 8)] = ('Str', n); ix = zi(m[1](n)); st.pc.append(z3.And(ix >= 0, ix < BIG)); E.store(st, Ptr(q.obj, 40), IV(64, ix, -(1 << 63), (1 << 63) - 1), 'i64', 8)
        st.g['entries'] = st.g.get('entries', ()) + ((q.obj, p, n),); return q
    def find(E, st, a, f, i):
        m = mp(st, a[0]); n = ident(live(E, st, a[1], 'Str', 'find')[1]); s2 = st.fork(); st.pc.append(zb(m[0](n))); s2.pc.append(z3.Not(zb(m[0](n)))); inv(E, st, n, m)
        return [(st, node(E, st, a[0], n, m)), (s2, NULL)]
    on(M + r'find\(.*\)( const)?', find)
    on(M + r'(c?end)\(\)( const)?', lambda E, st, a, f, i: NULL)
    on(M + r'count\(.*\) const', lambda E, st, a, f, i: (lambda n: (inv(E, st, n, mp(st, a[0])), z3.If(zb(mp(st, a[0])[0](n)), z3.IntVal(1), z3.IntVal(0)))[1])(ident(live(E, st, a[1], 'Str', 'count')[1])) and IV(64, z3.If(zb(mp(st, a[0])[0](ident(live(E, st, a[1], 'Str', 'count')[1]))), z3.IntVal(1), z3.IntVal(0)), 0, 1))
    def ins(E, st, a, f, i):
        m = mp(st, a[0]); n = ident(live(E, st, a[1], 'Str', 'emplace')[1]); x = zi(E.s(st, E.load(st, a[2], 'i64', 8))); over = 'insert_or_assign' in f['dem']
        h = zb(m[0](n)); put = z3.BoolVal(True) if over else z3.Not(h)
        if '&&' in f['dem'] or f['dem'].count(STRQ) : pass
        st.rw(a[0].obj).g[('map', a[0].off)] = (lambda y: z3.Or(zb(m[0](y)), zi(y) == n), lambda y: z3.If(z3.And(zi(y) == n, put), x, zi(m[1](y)))); return Agg([obj(E, st, 'arg entry', 56), z3.Not(h)])
    on(r'.*' + M + r'(emplace|try_emplace|insert_or_assign)(<.*>)?\(.*\)', ins)
    def ins1(E, st, a, f, i):       # insert(pair): a name and a position, side by side
        m = mp(st, a[0]); n = ident(live(E, st, a[1], 'Str', 'insert')[1]); x = zi(E.s(st, E.load(st, Ptr(a[1].obj, a[1].off + 32), 'i64', 8))); h = zb(m[0](n))
        st.rw(a[0].obj).g[('map', a[0].off)] = (lambda y: z3.Or(zb(m[0](y)), zi(y) == n), lambda y: z3.If(z3.And(zi(y) == n, z3.Not(h)), x, zi(m[1](y)))); return Agg([obj(E, st, 'arg entry', 56), z3.Not(h)])
    on(r'.*' + M + r'insert(<.*>)?\((std::pair<.*)&&?\)', ins1)
    def sub(E, st, a, f, i):
        m = mp(st, a[0]); n = ident(live(E, st, a[1], 'Str', 'operator[]')[1]); h = zb(m[0](n)); m2 = (lambda y: z3.Or(zb(m[0](y)), zi(y) == n), lambda y: z3.If(z3.And(zi(y) == n, z3.Not(h)), z3.IntVal(0), zi(m[1](y))))
        q = obj(E, st, 'mapped', 8); E.store(st, q, IV(64, z3.If(h, zi(m[1](n)), z3.IntVal(0)), -(1 << 63), (1 << 63) - 1), 'i64', 8); st.rw(a[0].obj).g[('map', a[0].off)] = m2; st.g['mapped'] = st.g.get('mapped', ()) + ((a[0], n, q.obj),); return q
    on(M + r'operator\[\]\(.*\)', sub)
    def mat(E, st, a, f, i):
        m = mp(st, a[0]); n = ident(live(E, st, a[1], 'Str', 'at')[1]); E.oblige(st, zb(m[0](n)), 'bounds', 'the name is in the map'); inv(E, st, n, m); return Ptr(node(E, st, a[0], n, m).obj, 40)
    on(M + r'at\(.*\)( const)?', mat)
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def inv(E, st, n, m): st.pc.append(z3.Implies(zb(m[0](n)), z3.And(zi(m[1](n)) >= 0, zi(m[1](n)) < z3.Int('fields'))))
def mapnow(E, st, p):
    """the map with what was written through references to mapped values"""
    m = E.mp(st, p)
    for (q, n, o) in st.g.get('mapped', ()):
        x = zi(E.s(st, E.load(st, Ptr(o, 0), 'i64', 8))); m = (m[0], lambda y, m=m, n=n, x=x: z3.If(zi(y) == n, x, zi(m[1](y))))
    return m
LT = [None, ('i32', 4), ('i8', 1), ('i8', 1), ('ptr', 8), ('i64', 8), ('i64', 8), ('i64', 8)]
def at(E, st, m, p): return quiet(E, st, 'vc_f_' + m, p)[1]
def field(E, st, r, nm):
    p = obj(E, st, nm, E.fsz); s = obj(E, st, 'its name', 32); st.rw(s.obj).g[('lt', 0)] = ('Str', r['name'])
    args = [IV(32, r['type'], -(1 << 31), (1 << 31) - 1), IV(1, 0), IV(1, 0), OPtr(r['default'])] + [IV(64, r[m], 0, BIG) for m in ('size', 'offset', 'pos')]
    s2, _ = quiet(E, st, 'vc_field_ctor', p, s, *args); assert s2 is st or True
    if s2 is not st: st.__dict__.update(s2.__dict__) if hasattr(st, '__dict__') else [setattr(st, k, getattr(s2, k)) for k in type(st).__slots__]
    for m in ('nullable', 'has'): E.store(st, at(E, st, m, p), IV(8, r[m], 0, 1), 'i8', 1)
    return p
def members(E, st, p):
    r = {}
    for m, t in zip(MEM, LT):
        q = at(E, st, m, p)
        if t is None: r[m] = ident(E.g_live(E, st, q, 'Str', 'name of a field')[1]); continue
        x = E.load(st, q, *t)
        if isinstance(x, (Ptr, OPtr)) or m == 'default': r[m] = x.t if isinstance(x, OPtr) else z3.IntVal(0) if x.obj is None else z3.Int(f'object {x.obj}')
        elif isinstance(x, IV): r[m] = zi(E.s(st, x) if m == 'type' else E.u(st, x))
        else: r[m] = z3.If(zb(x), z3.IntVal(1), z3.IntVal(0)) if not isinstance(x, (int,)) or isinstance(x, bool) else z3.IntVal(x)
    return r
def oload(E):
    def h(st, p, ty, size):       # only glog's verbosity flag is read through a pointer the code does not own
        E.oblige(st, p.t != 0, 'null-deref', 'a read goes through a pointer that is not null')
        return E.rng(st, E.fresh_int(tw(ty), 'vlevel'))
    return h
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E); abort_handler(E); E.oload = oload(E); st = State(); E.types_ = _js['types']
        for k in ('p', 'f', 'i', 's'): setattr(E, k + 'sz', E.u(st, quiet(E, st, f'vc_{k}size')[1]))
        return E
    return mk
def provider(E, st):
    """any provider that satisfies the invariant"""
    p = obj(E, st, 'provider', E.psz); v = E.sym(st, 64, 'version'); st, _ = quiet(E, st, 'vc_ctor', p, v); q = parts(E, st, p); n = z3.Int('fields'); st.pc += [n >= 0, n < BIG]
    st.rw(q['vec'].obj).g[('vec', q['vec'].off)] = Vec(n, fld); st.rw(q['map'].obj).g[('map', q['map'].off)] = (lambda y: uf('map.has', y) == 1, lambda y: uf('map.at', y))
    k = z3.Int('nullable fields'); st.pc += [k >= 0, k < BIG]; E.store(st, q['nn'], IV(64, k, 0, BIG), 'i64', 8); return st, p, q, n, v, k
def parts(E, st, p): return {n: quiet(E, st, 'vc_' + n, p)[1] for n in ('vec', 'map', 'nn', 'prop')}
def unchanged(E, s1, q, n, k, what):
    v = E.vec(s1, q['vec']); m = mapnow(E, s1, q['map']); j, y = z3.Ints('j y'); r, o = v.get(j), fld(j)
    ob(E, s1, f'{what}: the fields do not change', z3.And([zi(v.n) == n] + [z3.Implies(z3.And(j >= 0, j < n), r[x] == o[x]) for x in MEM]), 'frame')
    ob(E, s1, f'{what}: the names do not change', z3.And(zb(m[0](y)) == (uf('map.has', y) == 1), zi(m[1](y)) == uf('map.at', y)), 'frame'); ob(E, s1, f'{what}: the number of nullable fields does not change', u64(E, s1, q['nn']) == k, 'frame')
def u64(E, st, p): return zi(E.u(st, E.load(st, p, 'i64', 8)))
def text(E, st, t, nm): p = obj(E, st, nm, 32); st.rw(p.obj).g[('lt', 0)] = ('Str', t); st.rw(p.obj).ro = True; return p
def isfield(E, s2, r, j):
    """the pointer is the field at position j"""
    if isinstance(r, Ptr) and r.obj is not None and r.obj in s2.g.get('viewk', {}) and r.off == 0: return zi(s2.g['viewk'][r.obj]) == zi(j)
    return z3.BoolVal(False)
def isnull(r): return isinstance(r, Ptr) and r.obj is None
def ref(E, name, want, args=lambda E, st: []):
    """a function that reads: want(E, s2, r, n, v, k, *args) -> [(what, condition)]"""
    def u(E):
        st, p, q, n, v, k = provider(E, State()); xs = args(E, st); L = LBL + name.rstrip('N')
        def post(s2, r):
            for w, c in want(E, s2, r, n, v, k, *xs): ob(E, s2, f'{name}: {w}', c)
            unchanged(E, s2, q, n, k, name)
        Run(E, L).go(st, 'vc_' + name, [p] + xs, post)
    return u
idx = lambda E, st: [E.sym(st, 64, 'index')]
nam = lambda E, st: [text(E, st, z3.Int('text:asked'), 'the name asked for')]
def S(E, st, x): return zi(E.s(st, x))
def U(E, st, x): return zi(E.u(st, x))
HAS = lambda: uf('map.has', z3.Int('text:asked')) == 1
AT = lambda: uf('map.at', z3.Int('text:asked'))
def w_size(E, s, r, n, v, k): r0 = fld(n - 1); return [('the end of the last field, or 0', U(E, s, r) == z3.If(n > 0, r0['offset'] + r0['size'], 0))]
def w_index(E, s, r, n, v, k, a): return [('the position of the name, or -1', S(E, s, r) == z3.If(HAS(), AT(), -1))]
def inside(E, s, a, n): i = S(E, s, a); return z3.And(i >= 0, i < n)
def w_name(E, s, r, n, v, k, a):
    i = S(E, s, a); t = z3.IntVal(0) if isnull(r) else r.t if isinstance(r, OPtr) else None
    if t is None: return [('the name', False)]
    return [('the name of the field at the position, or nothing when there is none', z3.If(inside(E, s, a, n), (t == uf('cstr', uf('field.name', i))) if not isnull(r) else z3.BoolVal(False), z3.BoolVal(isnull(r))))]
def w_type(E, s, r, n, v, k, a): return [('the type of the field at the position, or UNKNOWN', S(E, s, r) == z3.If(inside(E, s, a, n), uf('field.type', S(E, s, a)), E.types_['UNKNOWN']))]
def w_typen(E, s, r, n, v, k, a): return [('the type of the field of the name, or UNKNOWN', S(E, s, r) == z3.If(HAS(), uf('field.type', AT()), E.types_['UNKNOWN']))]
def w_field(E, s, r, n, v, k, a): return [('the field at the position, or nothing', z3.If(inside(E, s, a, n), isfield(E, s, r, S(E, s, a)), z3.BoolVal(isnull(r))))]
def w_fieldn(E, s, r, n, v, k, a): return [('the field of the name, or nothing', z3.If(HAS(), isfield(E, s, r, AT()), z3.BoolVal(isnull(r))))]
SIZES = dict(BOOL=1, INT8=1, INT16=2, INT32=4, FLOAT=4, INT64=8, VID=8, DOUBLE=8, TIMESTAMP=8, STRING=8, DATE=4, TIME=7, DATETIME=11)
def width(E, t, ln):
    r = zi(ln)
    for n, w in SIZES.items(): r = z3.If(t == E.types_[n], z3.IntVal(w), r)
    return r
def legal(E, t, ln): return z3.And(z3.Or([t == E.types_[n] for n in list(SIZES) + ['FIXED_STRING']]), z3.Implies(t == E.types_['FIXED_STRING'], ln > 0))
def u_fieldsize(E):
    st = State(); t = E.sym(st, 32, 'type'); ln = E.sym(st, 64, 'length', signed=False); T, L = S(E, st, t), U(E, st, ln); bad = st.fork(); st.pc.append(legal(E, T, L)); bad.pc.append(z3.Not(legal(E, T, L)))
    Run(E, LBL + 'fieldSize').go(st, 'vc_fieldSize', [t, ln], lambda s2, r: ob(E, s2, 'a field takes the bytes of its type, a fixed string its length', U(E, s2, r) == width(E, T, L)))
    ob(E, st, 'a legal type does not end the program', E.aborts == 0)
    Run(E, LBL + 'fieldSize').go(bad, 'vc_fieldSize', [t, ln], lambda s2, r: None, abort=True)
def u_add(E):
    st, p, q, n, v, k = provider(E, State()); name = raw(E, st, 'name', 16); t = E.sym(st, 32, 'type'); ln = E.sym(st, 64, 'length', signed=False); T, L = S(E, st, t), U(E, st, ln); nu = z3.Bool('nullable'); d = OPtr(z3.Int('default'))
    st.pc += [legal(E, T, L), L < BIG, z3.Int('default') >= 0]; la = fld(n - 1); facts(st, la); x = z3.Int('text:given'); j, y = z3.Ints('j y'); pos = z3.If(n > 0, la['offset'] + la['size'], 0)
    def post(s2, r):
        w = E.vec(s2, q['vec']); m = mapnow(E, s2, q['map']); f = w.get(n); o, e = w.get(j), fld(j); h = uf('map.has', x) == 1
        ob(E, s2, 'one field is added', zi(w.n) == n + 1); ob(E, s2, 'the fields before it do not change', z3.Implies(z3.And(j >= 0, j < n), z3.And([o[c] == e[c] for c in MEM])), 'frame')
        want = dict(name=x, type=T, nullable=z3.If(nu, 1, 0), has=z3.If(z3.Int('default') != 0, 1, 0), default=z3.Int('default'), size=width(E, T, L), offset=pos)
        for c in want: ob(E, s2, f'the field has the {dict(has="flag of a default").get(c, c)} ' + dict(size='of its type', offset='at which the field before it ends').get(c, 'given'), f[c] == want[c])
        ob(E, s2, 'a nullable field takes the next null flag', z3.Implies(nu, f['pos'] == k)); ob(E, s2, 'the nullable fields are counted', u64(E, s2, q['nn']) == k + z3.If(nu, 1, 0))
        ob(E, s2, 'the name is found', zb(m[0](x))); ob(E, s2, 'a new name is at the new position, a name that was there stays where it was', zi(m[1](x)) == z3.If(h, uf('map.at', x), n))
        ob(E, s2, 'other names do not change', z3.Implies(y != x, z3.And(zb(m[0](y)) == (uf('map.has', y) == 1), zi(m[1](y)) == uf('map.at', y))), 'frame')
        s2.pc.append(z3.Implies(uf('map.has', y) == 1, z3.And(uf('map.at', y) >= 0, uf('map.at', y) < n)))
        ob(E, s2, 'every name has a position among the fields', z3.Implies(zb(m[0](y)), z3.And(zi(m[1](y)) >= 0, zi(m[1](y)) < zi(w.n))), 'invariant')
    Run(E, LBL + 'addField').go(st, 'vc_addField', [p, name, t, ln, nu, d], post)
    ob(E, st, 'a legal field does not end the program', E.aborts == 0)
def u_ctor(E):
    st = State(); p = obj(E, st, 'provider', E.psz); v = E.sym(st, 64, 'version')
    def post(s2, r):
        q = parts(E, s2, p); y = z3.Int('y'); ob(E, s2, 'a new provider has no fields', z3.And(zi(E.vec(s2, q['vec']).n) == 0, z3.Not(zb(E.mp(s2, q['map'])[0](y))), u64(E, s2, q['nn']) == 0))
        s3, r3 = quiet(E, s2, 'vc_getVersion', p); ob(E, s3, 'a new provider has the version given', S(E, s3, r3) == S(E, s3, v))
    Run(E, LBL + 'NebulaSchemaProvider').go(st, 'vc_ctor', [p, v], post)
def u_access(E):
    for m, t in zip(MEM, LT):
        st = State(); r = fld(z3.IntVal(0)); facts(st, r); p = field(E, st, r, 'field')
        if m == 'pos': st.pc.append(r['nullable'] == 1)
        def post(s2, x, m=m):
            if m == 'name': c = isinstance(x, OPtr) and x.t == uf('cstr', r['name'])
            elif m == 'default': c = isinstance(x, OPtr) and x.t == r['default']
            elif m in ('nullable', 'has'): c = zb(E.boolv(x) if not isinstance(x, z3.ExprRef) else x) == (r[m] == 1)
            else: c = (S if m == 'type' else U)(E, s2, x) == r[m]
            ob(E, s2, f'the {m} of a field', c)
        Run(E, LBL + 'SchemaField::' + dict(has='hasDefault', default='defaultValue', pos='nullFlagPos').get(m, m)).go(st, 'vc_m_' + m, [p], post)
# ------------------------------------------------------------------ the iterator
def it(E, st, nm): return obj(E, st, nm, E.isz)
def same(E, s2, i, n, j, what):
    """the iterator shows field j, or nothing from n on"""
    s3, b = quiet2(E, s2, 'vc_bool', i)
    for s, x in s3: ob(E, s, f'{what}: the iterator holds exactly while there is a field', zb(tob(E, x)) == z3.And(zi(j) >= 0, zi(j) < n))
    for root in ('vc_star', 'vc_arrow'):
        s4 = s2.fork(); s4.pc.append(z3.And(zi(j) >= 0, zi(j) < n))
        for s, x in quiet2(E, s4, root, i)[0]:
            ob(E, s, f'{what}: it shows the field', isfield(E, s, x, j))
def tob(E, x): return x if isinstance(x, (z3.ExprRef, bool)) else E.boolv(x)
def quiet2(E, st, name, *a):
    E.quiet += 1
    try: return E.exec_fn(st.fork(), E.mod.find(name), list(a)), None
    finally: E.quiet -= 1
def u_iter(E):
    L = 'nebula::meta::SchemaProviderIf::'
    st, p, q, n, v, k = provider(E, State()); i = it(E, st, 'begin')
    Run(E, L + 'begin').go(st, 'vc_begin', [p, i], lambda s2, r: same(E, s2, i, n, 0, 'begin'))
    st, p, q, n, v, k = provider(E, State()); i2 = it(E, st, 'end')
    Run(E, L + 'end').go(st, 'vc_end', [p, i2], lambda s2, r: same(E, s2, i2, n, n, 'end'))
    for root, nm, step in (('vc_inc', 'operator++', 1), ('vc_plus', 'operator+', None)):
        st, p, q, n, v, k = provider(E, State()); i3 = it(E, st, 'iterator'); c = E.sym(st, 64, 'at'); j = S(E, st, c); st.pc += [j >= 0, j <= n]; by = [] if step else [E.sym(st, 16, 'steps', signed=False)]; d = step or U(E, st, by[0])
        for s1, _ in quiet2(E, st, 'vc_at', p, i3, c)[0]:
            def post(s2, r, d=d, nm=nm, i3=i3, j=j, n=n):
                ob(E, s2, f'{nm}: gives the iterator itself', isinstance(r, Ptr) and r.obj == i3.obj); same(E, s2, i3, n, z3.If(j < n, j + d, j), nm)
            Run(E, L + 'Iterator::' + nm).go(s1, root, [i3] + by, post)
    st, p, q, n, v, k = provider(E, State()); a, b = it(E, st, 'a'), it(E, st, 'b'); x, y = E.sym(st, 64, 'x'), E.sym(st, 64, 'y'); st.pc += [S(E, st, z) >= 0 for z in (x, y)] + [S(E, st, z) < BIG for z in (x, y)]
    for s1, _ in quiet2(E, st, 'vc_at', p, a, x)[0]:
        for s2, _ in quiet2(E, s1, 'vc_at', p, b, y)[0]:
            X, Y = S(E, s2, x), S(E, s2, y)
            Run(E, L + 'Iterator::operator==').go(s2, 'vc_eq', [a, b], lambda s3, r: ob(E, s3, 'iterators are equal when they stand on the same field or both past the end', zb(tob(E, r)) == z3.Or(X == Y, z3.And(X >= n, Y >= n))))
# ------------------------------------------------------------------ time to live
def u_ttl(E):
    st, p, q, n, v, k = provider(E, State()); o = obj(E, st, 'result', E.ssz); pr = q['prop']; P_ = {x: quiet(E, st, 'vc_p_' + x, pr)[1] for x in ('hascol', 'col', 'hasdur', 'dur')}
    hc, hd, du, col = z3.Int('has ttl_col'), z3.Int('has ttl_duration'), z3.Int('ttl_duration'), z3.Int('text:ttl_col'); st.pc += [hc >= 0, hc <= 1, hd >= 0, hd <= 1, du >= -(1 << 63), du < 1 << 63]
    E.store(st, P_['hascol'], IV(8, hc, 0, 1), 'i8', 1); E.store(st, P_['hasdur'], IV(8, hd, 0, 1), 'i8', 1); E.store(st, P_['dur'], IV(64, du, -(1 << 63), (1 << 63) - 1), 'i64', 8); st.rw(pr.obj).g[('lt', P_['col'].off)] = ('Str', col); ln = uf('length', col); st.pc += [ln >= 0]
    good = z3.And(hc == 1, ln > 0, hd == 1, du > 0)
    def post(s2, r):
        s3, b = quiet(E, s2, 'vc_ok', o); okk = zb(tob(E, b)); ob(E, s3, 'there is a time to live exactly when a column is named and the duration is positive', okk == good)
        s4 = s3.fork(); s4.pc.append(good)
        if E.valid(s3, good):
            s5, w = quiet(E, s4, 'vc_val', o); ob(E, s5, 'it is the column', ident(E.g_live(E, s5, w, 'Str', 'column')[1]) == col); ob(E, s5, 'and the duration', zi(E.s(s5, E.load(s5, Ptr(w.obj, w.off + 32), 'i64', 8))) == du)
        unchanged(E, s2, q, n, k, 'getTTLInfo')
    Run(E, LBL + 'getTTLInfo').go(st, 'vc_getTTLInfo', [p, o], post)
class PROP(Property):
    id = 'C33'; budget = 200
    assumptions = ['std::vector and std::unordered_map by contract; the type texts, Expression objects and Status are opaque', 'sizes, offsets and numbers of fields stay below 2^60', 'the code generated from meta.thrift: the enumeration PropertyType is taken from the file, SchemaProp has the optional fields listed there', LOGNOTE]
    def units(self):
        P = engine(); R = lambda nm, w, a=lambda E, st: []: (nm, P, ref(None, nm, w, a))
        return [('constructor', P, u_ctor), ('addField', P, u_add), ('fieldSize', P, u_fieldsize), ('members of a field', P, u_access), ('iterator', P, u_iter), ('getTTLInfo', P, u_ttl),
                R('getVersion', lambda E, s, r, n, v, k: [('the version given', S(E, s, r) == S(E, s, v))]), R('getNumFields', lambda E, s, r, n, v, k: [('the number of fields', U(E, s, r) == n)]),
                R('getNumNullableFields', lambda E, s, r, n, v, k: [('the number of nullable fields', U(E, s, r) == k)]), R('size', w_size), R('getFieldIndex', w_index, nam), R('getFieldName', w_name, idx), R('getFieldType', w_type, idx),
                R('getFieldTypeN', w_typen, nam), R('field', w_field, idx), R('fieldN', w_fieldn, nam)]
    def search(self, failed, tier):
        gen(); prog = build_replay([VERIF + '/harness/schema_search.cpp', SRC + 'meta/NebulaSchemaProvider.cpp', SRC + 'base/Status.cpp', VERIF + '/shim/folly_shim.cpp'], 'schema_search', ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), ('-lglog', '-lgflags', '-lpthread'))
        return run_search(prog, ['200000' if tier == 'thorough' else '20000'], timeout=300)
