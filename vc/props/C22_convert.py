from C21_logic import *
from C19_arith import exact, flt, I64, D, MIN, MAX
def key(r): return '|'.join(str(x) for x in r)
def ctext(E, st, r): return stdlib.cut_nul(E, st, r)
def p_int(E, st, t):
    """what strtoll(base 10) reads from the text t: (value, out of range, next character after what was read)"""
    k = key(t); v, ov, nx = z3.Int(f'strtoll({k})'), z3.Bool(f'strtoll.erange({k})'), z3.Int(f'strtoll.next({k})')
    for c in (v >= MIN, v <= MAX, z3.Implies(ov, z3.Or(v == MIN, v == MAX)), nx >= 0, nx <= 255):
        if not any(c.eq(x) for x in st.pc): st.pc.append(c)
    return v, ov, nx
def p_dbl(E, st, t):
    k = key(t); v, nx = z3.FP(f'strtod({k})', F64), z3.Int(f'strtod.next({k})')
    for c in (nx >= 0, nx <= 255):
        if not any(c.eq(x) for x in st.pc): st.pc.append(c)
    return v, nx
def lower(r):
    return r and [stdlib.Sl(('str', f'lower({key(r)})'), 0, z3.Int('len_lower(' + key(r) + ')'))]
def is_text(E, st, r, lit): return zb(E.boolv(stdlib.str_eq(E, st, r, stdlib.lit_rope(lit))))
def has_dot(r): return z3.Bool(f'contains-dot({key(r)})')
def trunc(E, st, d):
    """the integer a double in range is cut to"""
    t = uf('d2i', [d], I); st.pc.append(z3.Implies(z3.And(z3.fpGEQ(d, z3.fpNeg(P63)), z3.fpLT(d, P63)), z3.And(t >= MIN, t <= MAX))); st.pc.append(z3.Implies(z3.fpEQ(d, z3.fpNeg(P63)), t == MIN)); return t
def spec_bool(E, st, a):
    if a[0] in ('Null', 'Empty'): return [num(0)]
    if a[0] == 'Bool': return [(True, *a)]
    if a[0] != 'Str': return [num(3)]
    l = lower(a[1][1]); t, f = is_text(E, st, l, b'true'), is_text(E, st, l, b'false'); st.pc.append(z3.Not(z3.And(t, f)))
    return [(t, *boolval(True)), (f, *boolval(False)), (z3.Not(z3.Or(t, f)), *null(0))]
def spec_float(E, st, a):
    if a[0] in ('Null', 'Empty'): return [num(0)]
    if a[0] == 'Float': return [(True, *a)]
    if a[0] == 'Int': return flt(D(E, st, a))
    if a[0] != 'Str': return [num(3)]
    v, nx = p_dbl(E, st, ctext(E, st, a[1][1])); return [(nx == 0, 'Float', ('Float', (FPV(v),))), (nx != 0, *null(0))]
def cut(E, st, d, hi, lo, nan):
    """double to integer: nan / below / above / inside"""
    n, l, h = z3.fpIsNaN(d), z3.fpLT(d, z3.fpNeg(P63)), z3.fpGEQ(d, P63)
    return [(n, *nan), (l, *lo), (h, *hi), (z3.Not(z3.Or(n, l, h)), 'Int', ('Int', (IV(64, trunc(E, st, d), MIN, MAX),)))]
def ival(x): return 'Int', ('Int', (IV(64, x, MIN, MAX),))
def spec_int(E, st, a):
    if a[0] in ('Null', 'Empty'): return [num(0)]
    if a[0] == 'Int': return [(True, *a)]
    if a[0] == 'Float': return cut(E, st, D(E, st, a), ival(MAX), ival(MIN), null(1))
    if a[0] != 'Str': return [num(3)]
    t = ctext(E, st, a[1][1]); dot = has_dot(a[1][1]); v, ov, nx = p_int(E, st, t); d, nd = p_dbl(E, st, t); out = []
    out += [(z3.And(dot, nd != 0), *null(0)), (z3.And(z3.Not(dot), nx != 0), *null(0)), (z3.And(z3.Not(dot), nx == 0, ov), *null(4)), (z3.And(z3.Not(dot), nx == 0, z3.Not(ov)), *ival(v))]
    return out + [(z3.And(dot, nd == 0, g), k, c) for g, k, c in cut(E, st, d, null(4), null(4), null(4))]
def setup(E):
    S = STR; it = E.alloc
    def pos(w):
        def h(E, st, a, f, i):
            stdlib.str_get(E, st, a[0]); q = E.alloc(st, 'char iterator', 8, 'stack'); st.rw(q.obj).g['pos'] = (a[0].obj, a[0].off, w); return q
        return h
    def where(st, p):
        g = st.mem[p.obj].g.get('pos') if isinstance(p, Ptr) and p.obj else None
        if g is None: raise Unsupported('iterator into a string')
        return Ptr(g[0], g[1]), g[2]
    E.on_first(S + r'::(c?begin)\(\)( const)?', pos('begin')); E.on_first(S + r'::(c?end)\(\)( const)?', pos('end'))
    def rng(E, st, b, e):
        (x, u), (y, v) = where(st, b), where(st, e)
        E.oblige(st, (x.obj, x.off, u, v) == (y.obj, y.off, 'begin', 'end'), 'precondition', 'the range is the whole string'); return x
    def transform(E, st, a, f, i):
        x = rng(E, st, a[0], a[1]); (y, w) = where(st, a[2])
        E.oblige(st, (y.obj, y.off, w) == (x.obj, x.off, 'begin'), 'precondition', 'the result overwrites the string')
        if not (isinstance(a[3], Fn) and a[3].name == 'tolower'): raise Unsupported(f'std::transform with {a[3]}')
        r = stdlib.str_get(E, st, x); n = lower(r)
        if n: st.pc.append(n[0].hi == E.rope_len(r))
        stdlib.str_set(E, st, x, n); return a[2]
    E.on_first(r'.* std::transform<__gnu_cxx::__normal_iterator<char\*, .*', transform)
    def find(E, st, a, f, i):
        x = rng(E, st, a[0], a[1]); c = E.load(st, a[2], 'i8', 1)
        if E.u(st, c) != 46: raise Unsupported('std::find of another character')
        q = E.alloc(st, 'char iterator', 8, 'stack'); st.rw(q.obj).g['pos'] = (x.obj, x.off, ('find', has_dot(stdlib.str_get(E, st, x)))); return q
    E.on_first(r'.* std::find<__gnu_cxx::__normal_iterator<char (const)?\*, .*', find)
    def iteq(neg):
        def h(E, st, a, f, i):
            def it(p):
                if 'pos' in st.mem[p.obj].g: return where(st, p)
                return where(st, E.load(st, p, 'ptr', 8))
            (x, u), (y, v) = it(a[0]), it(a[1])
            if (x.obj, x.off) != (y.obj, y.off): raise Unsupported('iterators of different strings')
            if isinstance(v, tuple): u, v = v, u
            r = z3.Not(u[1]) if isinstance(u, tuple) and v == 'end' else z3.BoolVal(u == v) if isinstance(u, str) else None
            if r is None: raise Unsupported('iterator comparison')
            return z3.Not(r) if neg else r
        return h
    E.on_first(r'bool __gnu_cxx::operator==<char (const)?\*, .*', iteq(False)); E.on_first(r'bool __gnu_cxx::operator!=<char (const)?\*, .*', iteq(True))
    def errno(E, st):
        if 'errno' not in st.g: p = obj(E, st, 'errno', 4); st.rw(p.obj).lazy = 'input'; st.g['errno'] = p
        return st.g['errno']
    E.on_first(r'__errno_location', lambda E, st, a, f, i: errno(E, st))
    def tail(E, st, endp, nx):
        if isinstance(endp, Ptr) and endp.obj is None: return
        q = obj(E, st, 'rest of the text', 1); E.store(st, q, IV(8, nx, 0, 255), 'i8', 1); st.rw(q.obj).ro = True; E.store(st, endp, q, 'ptr', 8)
    def erange(E, st, ov):
        p = errno(E, st); old = E.s(st, E.load(st, p, 'i32', 4)); E.store(st, p, IV(32, z3.If(ov, z3.IntVal(34), old)), 'i32', 4)
    def strtoll(E, st, a, f, i):
        if E.u(st, a[2]) != 10: raise Unsupported('strtoll base')
        v, ov, nx = p_int(E, st, stdlib.cstr_rope(E, st, a[0])); erange(E, st, ov); tail(E, st, a[1], nx); return IV(64, v, MIN, MAX)
    def strtod(E, st, a, f, i):
        t = stdlib.cstr_rope(E, st, a[0]); v, nx = p_dbl(E, st, t); erange(E, st, z3.Bool(f'strtod.erange({key(t)})')); tail(E, st, a[1], nx); return FPV(v)
    E.on_first(r'(__isoc23_)?strto(ll|l)', strtoll); E.on_first(r'strtod', strtod)
    E.on_first(S + r'::compare\(char const\*\) const', lambda E, st, a, f, i: stdlib.str_cmp(E, st, stdlib.str_get(E, st, a[0]), stdlib.cstr_rope(E, st, a[1])))
    def fptosi(E, st, x, bits, op):
        if bits != 64 or op != 'fptosi': raise Unsupported('float to another integer')
        E.oblige(st, z3.And(z3.fpGEQ(x, z3.fpNeg(P63)), z3.fpLT(x, P63)), 'ub', 'the double fits the integer it is cast to')
        return IV(64, trunc(E, st, x), MIN, MAX)
    E.on_fptosi = fptosi
    E.assumed += ['strtoll and strtod read a number from the C text, tell where they stop, and clamp and set errno out of range; tolower and std::find are functions of the text', 'a double in the range of int64 is cut by the cast']
def cengine():
    mk0 = value_engine(rope=True)
    def mk():
        E = mk0(); float_hooks(E); setup(E); return E
    return mk
OPS22 = dict(toBool=spec_bool, toFloat=spec_float, toInt=spec_int)

KNAME = dict(zip(KINDS, '__EMPTY__ __NULL__ bool int float string date time datetime vertex edge path list map set dataset'.split()))
SHOWN = dict(zip(KINDS, '__EMPTY__ NULL BOOL INT FLOAT STRING DATE TIME DATETIME VERTEX EDGE PATH LIST MAP SET DATASET'.split()))
NNAME = ['__NULL__', 'NaN', 'BAD_DATA', 'BAD_TYPE', 'ERR_OVERFLOW', 'UNKNOWN_PROP', 'DIV_BY_ZERO', 'OUT_OF_RANGE']
NTEXT = ['NULL', '__NULL_NaN__', '__NULL_BAD_DATA__', '__NULL_BAD_TYPE__', '__NULL_OVERFLOW__', '__NULL_UNKNOWN_PROP__', '__NULL_DIV_BY_ZERO__', '__NULL_OUT_OF_RANGE__']
def setup_names(E):
    """contract of std::unordered_map<enumeration, string> built from a list and looked up; static locals"""
    UM = r'std::unordered_map<nebula::(Value::Type|NullType), .*?>>*::'
    def ctor(E, st, a, f, i):
        w = 8 if '<nebula::Value::Type' in f['dem'].split(',')[0] else 4; n = E.u(st, a[2])
        if not isinstance(n, int): raise Unsupported('map from a list of unknown length')
        m = []
        for k in range(n):
            q = Ptr(a[1].obj, a[1].off + 40 * k); key = E.s(st, E.load(st, q, 'i64' if w == 8 else 'i32', w))
            if any(isinstance(key, int) and key == x for x, _ in m): continue
            nd = E.alloc(st, 'map node', 48, 'static'); E.store(st, Ptr(nd.obj, 8), E.load(st, q, f'i{8 * w}', w), f'i{8 * w}', w)
            stdlib.str_set(E, st, Ptr(nd.obj, 16), stdlib.str_get(E, st, Ptr(q.obj, q.off + 8))); m.append((key, nd))
        o = st.rw(a[0].obj); o.g[('map', a[0].off)] = m; return None
    def look(E, st, a, f, i):
        m = st.mem[a[0].obj].g.get(('map', a[0].off)); E.oblige(st, m is not None, 'lifetime', 'the map is constructed')
        w = 8 if '<nebula::Value::Type' in f['dem'] else 4; key = E.s(st, E.load(st, a[1], f'i{8 * w}', w))
        for x, nd in m:
            if E.valid(st, zb(key == x)): return nd
            if not E.valid(st, z3.Not(zb(key == x))): raise Unsupported('look-up of an unknown key')
        return Ptr(None, 0)
    E.on_first(r'std::unordered_map<nebula::(Value::Type|NullType), .*::unordered_map\(std::initializer_list<.*', ctor)
    E.on_first(r'std::unordered_map<nebula::(Value::Type|NullType), .*::find\(nebula::(Value::Type|NullType) const&\)( const)?', look)
    E.on_first(r'std::unordered_map<nebula::(Value::Type|NullType), .*::end\(\)( const)?', lambda E, st, a, f, i: Ptr(None, 0))
    E.on_first(r'__cxa_guard_acquire', lambda E, st, a, f, i: IV(32, 1))
    E.on_first(r'__cxa_guard_release', lambda E, st, a, f, i: E.store(st, a[0], IV(8, 1), 'i8', 1))
    def gfind(name): return [g for g in E.mod.globals if name in g]
    E.guards = gfind('_ZGVZNK6nebula5Value8typeName')
    E.assumed += ['std::unordered_map built from a list finds each key of the list with its string and no other']
def text_at(E, st, p):
    r = stdlib.rope_literal(E, stdlib.str_get(E, st, p)); return None if r is None else r.decode('latin1')
def u_typename(E):
    setup_names(E); E.curfn = 'nebula::Value::typeName'
    st0 = base_state(E)
    for g in E.guards: p = E.global_ptr(st0, g); st0.rw(p.obj).lazy = 'zero'
    def case(st, k, n, want, w):
        if k == 'Null':
            p = obj(E, st, 'v', E.vsz); c = obj(E, st, 'n', 4); x = IV(32, n) if isinstance(n, int) else E.sym(st, 32, 'code')
            if n is None: t = E.s(st, x); st.pc.append(z3.Or(t < 0, t > 7))
            E.store(st, c, x, 'i32', 4); quiet(E, st, 'vc_v_ctor_Null', p, c)
        else: p, v = new(E, st, k, 'a')
        st.rw(p.obj).ro = True
        def post(s2, r):
            ob(E, s2, f'typeName of {w} is {want}', isinstance(r, Ptr) and r.obj is not None and text_at(E, s2, r) == want)
            def again(s3, r3): ob(E, s3, f'typeName of {w}, asked again, is {want}', isinstance(r3, Ptr) and r3.obj is not None and text_at(E, s3, r3) == want)
            Run(E, 'nebula::Value::typeName').go(s2, 'vc_v_typeName', [p], again)
        Run(E, 'nebula::Value::typeName').go(st, 'vc_v_typeName', [p], post)
    for k in KINDS:
        if k != 'Null': case(st0.fork(), k, None, KNAME[k], k)
    for n in range(8): case(st0.fork(), 'Null', n, NNAME[n], 'null ' + NNAME[n])
    case(st0.fork(), 'Null', None, '__UNKNOWN__', 'a null that does not exist')
def cout(E):
    def put(E, st, a, f, i):
        o = st.rw(a[0].obj); o.g['out'] = o.g.get('out', []) + [stdlib.cstr_rope(E, st, a[1]) if 'char const*' in f['dem'].split('(')[-1] else stdlib.str_get(E, st, a[1])]; return a[0]
    E.on_first(r'std::basic_ostream<char.*& std::operator<< ?<std::char_traits<char> ?>\(std::basic_ostream<.*, char const\*\)', put)
    E.on_first(r'std::basic_ostream<char.*& std::operator<< ?<char, std::char_traits<char>, std::allocator<char> ?>\(.*', put)
def u_typeout(E):
    cout(E); E.curfn = 'operator<<(std::ostream&, Value::Type)'
    st = State(); os = raw(E, st, 'stream', 8); t = E.sym(st, 64, 'type'); x = E.u(st, t)
    def post(s2, r):
        out = s2.mem[os.obj].g.get('out', []); s = ''.join(stdlib.rope_literal(E, y).decode() for y in out)
        for k in KINDS: ob(E, s2, f'kind {k} is shown as {SHOWN[k]}', z3.Implies(x == TAG[k], z3.BoolVal(s == SHOWN[k])))
        ob(E, s2, 'anything else is shown as __UNKNOWN__', z3.Implies(z3.And(*[x != v for v in TAG.values()]), z3.BoolVal(s == '__UNKNOWN__')))
        ob(E, s2, 'the stream is returned', True if r is None else isinstance(r, Ptr) and r.obj == os.obj)
    Run(E, 'operator<<(std::ostream&, Value::Type)').go(st, 'vc_type_out', [os, t], post)
def spec_text(E, st, a):
    if a[0] == 'Empty': return [(True, stdlib.lit_rope(b'__EMPTY__'))]
    if a[0] == 'Null':
        n = E.s(st, a[1][1][0]); return [(n == i, stdlib.lit_rope(t.encode())) for i, t in enumerate(NTEXT)]
    if a[0] == 'Bool': b = b_of(a); return [(b, stdlib.lit_rope(b'true')), (z3.Not(b), stdlib.lit_rope(b'false'))]
    if a[0] == 'Str': return [(True, stdlib.lit_rope(b'"') + list(a[1][1]) + stdlib.lit_rope(b'"'))]
    if a[0] in BOXES: return [(True, text_rope(E, st, f'{a[0]}-text({a[1][1]})'))]
    return [(True, textof(E, st, a[1]))]
def u_text(E):
    setup_text(E)
    for k in BOXES:
        def h(E, st, a, f, i, k=k): g = E.g_live(E, st, a[1], k, 'text of a ' + k); stdlib.str_set(E, st, a[0], text_rope(E, st, f'{k}-text({g[1]})'))
        E.on_first(rf'nebula::{k}::toString(\[abi:cxx11\])?\(\) const', h)
    E.assumed.append('toString of the contained types is a function of the content')
    for k in KINDS:
        st = base_state(E); p, v = new(E, st, k, 'a'); st.rw(p.obj).ro = True; a = (k, bconv(E, v)); o = obj(E, st, 'out', 32); h0 = heap(st)
        if k == 'Null': n = E.s(st, v[1][0]); st.pc.append(z3.And(n >= 0, n <= 7))
        def post(s2, r):
            got = E.rope_norm(s2, stdlib.str_get(E, s2, o))
            for g, want in spec_text(E, s2, a):
                e = E.rope_eq_cond(s2, got, E.rope_norm(s2, list(want))); lit = stdlib.rope_literal(E, want)
                ob(E, s2, f'text of a {k}' + (f' is {lit.decode()}' if lit else ''), z3.Implies(zb(g), z3.BoolVal(e)))
            ob(E, s2, f'text of a {k}: nothing is left allocated', heap(s2) == h0, 'lifetime')
        Run(E, 'nebula::Value::toString').go(st, 'vc_v_toString', [o, p], post)
class PROP(Property):
    id = 'C22'; budget = 300
    assumptions = [LOGNOTE, 'the locale is "C"']
    def units(self):
        mk = cengine()
        return [('Value::' + o, mk, unop(o, 'Value::' + o, OPS22[o])) for o in OPS22] + [('Value::typeName', mk, u_typename), ('operator<<(Type)', mk, u_typeout), ('Value::toString', mk, u_text)]
    search = search_prog(VSRC, 'value_ops_search', ['convert'])
