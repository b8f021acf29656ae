"""nebula::Value under contract: the contained class types are opaque (ghost lifetimes), Value and unique_ptr are executed."""
from ghost import *
NS = 'nebula::'
BOXES = ['Vertex', 'Edge', 'Path', 'List', 'Map', 'Set', 'DataSet']
KINDS = ['Empty', 'Null', 'Bool', 'Int', 'Float', 'Str', 'Date', 'Time', 'DateTime'] + BOXES
TAG = dict(zip(['Empty', 'Bool', 'Int', 'Float', 'Str', 'Date', 'Time', 'DateTime', 'Vertex', 'Edge', 'Path', 'List', 'Map', 'Set', 'DataSet'], [1 << k for k in range(15)])); TAG['Null'] = 1 << 63
BOXED = ['Str'] + BOXES
INL = dict(Null=['Null0'], Bool=['Bool0'], Int=['Int0'], Float=['Float0'], Date=['Date0', 'Date1', 'Date2'], Time=['Time0', 'Time1', 'Time2', 'Time3'], DateTime=['DateTime0'])
RNG = dict(Date=[(-32768, 32767), (-128, 127), (-128, 127)], Time=[(-128, 127)] * 3 + [(-(1 << 31), (1 << 31) - 1)], DateTime=[(-(1 << 63), (1 << 63) - 1)])
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
_js = {}
def module(srcs=('datatypes/Value.cpp',)):
    if srcs not in _js: _js[srcs] = compile_ir([VERIF + '/harness/value_driver.cpp'] + [SRC + s for s in srcs], 'value%d' % len(_js))
    return _js[srcs]
def value_engine(mod=None, rope=False, **k):
    mk0 = std_engine(mod or module(), **k)
    def mk():
        E = mk0(); st = State()
        E.ksz = {t: E.u(st, quiet(E, st, 'vc_size_' + t)[1]) for t in KINDS[1:]}; E.vsz = E.u(st, quiet(E, st, 'vc_v_size')[1])
        E.rope = rope
        setup_types(E, {t: E.ksz[t] for t in BOXED}, [], {t: 'nebula::' + t for t in BOXES})
        live, start = E.g_live, E.g_start
        def sdt(E, st, a, f, i):
            live(E, st, a[0], 'Str', 'destructor of string'); st.rw(a[0].obj).g[('lt', a[0].off)] = None; return None
        def sct(move):
            def h(E, st, a, f, i):
                g = live(E, st, a[1], 'Str', 'copy of a string'); start(E, st, a[0], 'Str', g[1], 'construction of string')
                if move:
                    E.oblige(st, not st.mem[a[1].obj].ro, 'frame', 'a const string is not moved from')
                    st.rw(a[1].obj).g[('lt', a[1].off)] = ('Str', ('moved', g[1]))
                return None
            return h
        def cct(E, st, a, f, i):
            g = st.mem[a[1].obj].g[('raw', a[1].off)]; start(E, st, a[0], 'Str', ('conv', 'Str', 'cstr', g[1]), 'construction of string'); return None
        if not rope:
            E.on_first(STR + r'::~basic_string\(\)', sdt)
            E.on_first(STR + r'::basic_string\(' + STR + r' const&\)', sct(False)); E.on_first(STR + r'::basic_string\(' + STR + r'&&\)', sct(True))
            E.on_first(STR + r'::basic_string<.*>\(char const\*, .*\)', cct)
        E.on_first(r'std::allocator<char>::~?allocator\(\)', lambda E, st, a, f, i: None)
        def cks(E, st, a, f, i): return E.alloc(st, 'check message', 8, 'stack')
        E.on_first(r'std::__cxx11::basic_string<.*>\* google::MakeCheckOpString<.*', cks)
        E.assumed = ['constructors of the contained types and memory allocation do not throw']
        abort_handler(E); return E
    return mk
def content(E, st, k, nm, ro=True):
    """an arbitrary content of kind k -> (ptr, abstract content)"""
    if k == 'Str' and E.rope:
        p = obj(E, st, nm + '.c', 32); st.rw(p.obj).lazy = 'input'; r = stdlib.str_get(E, st, p); st.rw(p.obj).ro = ro
        return p, ('Str', list(r))
    if k in BOXED: return value(E, st, k, E.ksz[k], nm + '.c', ro=ro), (k, nm + '.c')
    p = obj(E, st, nm + '.c', E.ksz[k])
    if k in RNG:
        xs = [z3.Int(f'{nm}.{k}{i}') for i in range(len(RNG[k]))]
        st.pc += [z3.And(x >= lo, x <= hi) for x, (lo, hi) in zip(xs, RNG[k])]
        quiet(E, st, 'vc_mk_' + k, p, *[IV({255: 8, 65535: 16, (1 << 32) - 1: 32}.get(hi - lo, 64), x) for x, (lo, hi) in zip(xs, RNG[k])])
    else:
        st.rw(p.obj).lazy = 'input'
        if k == 'Bool': st.pc.append(z3.And(z3.Int(nm + '.c.0') >= 0, z3.Int(nm + '.c.0') <= 1))
    if ro: st.rw(p.obj).ro = True
    return p, observe(E, st, k, p)
def observe(E, st, k, p):
    return (k, tuple(quiet(E, st, 'vc_ob_' + o, p)[1] for o in INL[k]))
def eqc(E, st, a, b):
    """formula: two abstract contents are the same"""
    if a is None or b is None: return a is None and b is None
    if a[0] != b[0]: return False
    if a[0] == 'Str' and isinstance(a[1], list): return bool(E.rope_eq_cond(st, E.rope_norm(st, list(a[1])), E.rope_norm(st, list(b[1]))))
    if a[0] == 'List': return eqlist(E, st, a[1], b[1])
    if not isinstance(a[1], tuple) or a[0] in BOXED: return a[1] == b[1]
    cs = []
    for x, y in zip(a[1], b[1]):
        if a[0] == 'Bool': x, y = E.boolv(x), E.boolv(y)
        if isinstance(x, FPV): cs.append(x.t == y.t)       # same bits: identity of the datum, NaN included
        elif isinstance(x, (bool, z3.BoolRef)): cs.append(z3.simplify((z3.BoolVal(x) if isinstance(x, bool) else x) == (z3.BoolVal(y) if isinstance(y, bool) else y)))
        else: cs.append(E.eqt(st, E.s(st, x), E.s(st, y)) or E.s(st, x) == E.s(st, y))
    cs = [c for c in cs if c is not True]
    return True if not cs else False if any(c is False for c in cs) else z3.And(*cs)
def seq(c): return c[1] if isinstance(c, tuple) and c[0] == 'seq' else (('all', c),)
def eqlist(E, st, a, b):
    a, b = seq(a), seq(b)
    if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)): return False
    cs = []
    for x, y in zip(a, b):
        if x[0] == 'all': c = x[1] == y[1]
        else: c = x[1] == y[1] and eqc(E, st, x[2], y[2])
        if c is False: return False
        if c is not True: cs.append(c)
    return z3.And(*cs) if cs else True
def new(E, st, k, nm):
    """a Value of kind k as the constructors leave it -> (ptr, content)"""
    p = obj(E, st, nm, E.vsz)
    if k == 'Empty': quiet(E, st, 'vc_v_ctor0', p); return p, None
    c, v = content(E, st, k, nm)
    s2, _ = quiet(E, st, 'vc_v_ctor_' + k, p, c)
    assert s2 is st or True
    st.rw(c.obj).ro = False
    if k in BOXED: st.rw(c.obj).g[('lt', 0)] = None      # the source goes away
    st.rw(c.obj).alive = False
    return p, v
def heap(st): return {o.id for o in st.mem.values() if o.kind == 'heap' and o.alive and 'strbufof' not in o.g}
def holds(E, st, p, k, v, what):
    """obligations: the Value at p is of kind k with content v; -> (ghost objects it owns, heap blocks it owns)"""
    t = quiet(E, st, 'vc_v_type', p)[1]
    ob(E, st, f'{what}: type() is {k}', E.u(st, t) == TAG[k])
    if k == 'Empty' or not (isinstance(E.u(st, t), int) and E.u(st, t) == TAG[k]): return {}, set()
    r = quiet(E, st, 'vc_v_get_' + k, p)[1]
    if k == 'Str' and E.rope:
        ob(E, st, f'{what}: the text held is the expected one', eqc(E, st, ('Str', list(stdlib.str_get(E, st, r))), v))
        ob(E, st, f'{what}: the {k} held is a heap object of its own', isinstance(r, Ptr) and r.obj is not None and st.mem[r.obj].kind == 'heap' and st.mem[r.obj].alive and r.off == 0)
        return {}, {r.obj}
    if k in BOXED:
        g = st.mem[r.obj].g.get(('lt', r.off)) if isinstance(r, Ptr) and r.obj else None
        ob(E, st, f'{what}: the {k} held is {v[1]}', g == v)
        ob(E, st, f'{what}: the {k} held is a heap object of its own', isinstance(r, Ptr) and r.obj is not None and st.mem[r.obj].kind == 'heap' and st.mem[r.obj].alive and r.off == 0)
        return {(r.obj, r.off): v}, {r.obj}
    ob(E, st, f'{what}: the {k} held is unchanged', eqc(E, st, observe(E, st, k, r), v))
    ob(E, st, f'{what}: the {k} lives inside the Value', r.obj == p.obj)
    return {}, set()
def all_of(E, st, parts, others, what):
    """exactly the listed objects are alive; every heap block has an owner"""
    w = {}; hs = set(); n = 0
    for g, h in parts: w.update(g); hs |= h; n += len(h)
    ob(E, st, f'{what}: no content is shared', len(hs) == n, 'lifetime')
    w.update(others); expect_objs(E, st, w, what)
    ob(E, st, f'{what}: every allocation has an owner', heap(st) == hs, 'lifetime')
VSRC = ['datatypes/%s.cpp' % x for x in ('Value', 'Date', 'List', 'Map', 'Set', 'Edge', 'Vertex', 'Path')] + ['time/TimeConversion.cpp']
# ------------------------------------------------------------------ relations on the contents
def cid(E, st, c):
    """a content as a list of solver terms"""
    if c[0] in BOXED: return [z3.Int('id:' + str(c[1]))]
    return [x.t if isinstance(x, FPV) else (z3.If(x, 1, 0) if isinstance(x, z3.BoolRef) else int(x)) if isinstance(x, (bool, z3.BoolRef)) else E.s(st, x) for x in c[1]]
def uf(name, args, res):
    args = [z3.IntVal(a) if isinstance(a, int) else a for a in args]
    return z3.Function(name, *[a.sort() for a in args], res)(*args)
B, I = z3.BoolSort(), z3.IntSort()
def c_lt(E, st, a, b): return uf('lt_' + a[0], cid(E, st, a) + cid(E, st, b), B)
def c_eq(E, st, a, b): return uf('eq_' + a[0], cid(E, st, a) + cid(E, st, b), B)
CLS = BOXES + ['Date', 'Time', 'DateTime']
def content_at(E, st, k, p):
    if k in BOXED: return E.g_live(E, st, p, k, f'{k} operand')
    return observe(E, st, k, p)
def setup_relations(E):
    """contract of the contents' own comparison and hash: deterministic relations of the contents (their laws: C05, C23)"""
    E.on_first('std::(__cxx11::)?basic_string.*', None) if False else None
    for k in CLS:
        for op, fn in (('<', c_lt), ('==', c_eq)):
            E.on_first(rf'nebula::{k}::operator{op}\(nebula::{k} const&\) const', lambda E, st, a, f, i, k=k, fn=fn: fn(E, st, content_at(E, st, k, a[0]), content_at(E, st, k, a[1])))
    S = STR
    def sop(g): return lambda E, st, a, f, i: g(E, st, content_at(E, st, 'Str', a[0]), content_at(E, st, 'Str', a[1]))
    E.on_first(r'.*\bbool>::__type std::operator==<char>\(.*', sop(c_eq)); E.on_first(r'bool std::operator==<char.*', sop(c_eq)); E.on_first(r'bool std::operator< ?<char.*', sop(c_lt))
    E.on_first(r'bool std::operator!=<char.*', sop(lambda *x: z3.Not(c_eq(*x)))); E.on_first(r'bool std::operator> ?<char.*', sop(lambda E, st, a, b: c_lt(E, st, b, a)))
    def cmp(E, st, a, f, i):
        x, y = content_at(E, st, 'Str', a[0]), content_at(E, st, 'Str', a[1]); t = uf('cmp_Str', cid(E, st, x) + cid(E, st, y), I)
        st.pc += [t >= -(1 << 31), t < 1 << 31, (t < 0) == c_lt(E, st, x, y), (t == 0) == c_eq(E, st, x, y)]; return IV(32, t, -(1 << 31), (1 << 31) - 1)
    E.on_first(STR + r'::compare\(' + STR + r' const&\) const', cmp)
    def hs(k): return lambda E, st, a, f, i: hashof(E, st, content_at(E, st, k, a[1]))
    for k in CLS: E.on_first(rf'std::hash<nebula::{k} ?>::operator\(\)\(nebula::{k} const&\) const', hs(k))
    E.on_first(r'std::(hash<' + STR + r'>|__str_hash_base<.*>)::operator\(\)\(.*', hs('Str'))
    E.on_first(r'std::hash<bool>::operator\(\)\(bool\) const', lambda E, st, a, f, i: hashof(E, st, ('Bool', (a[1],))))
    E.on_first(r'std::hash<(int|long)>::operator\(\)\(.*', lambda E, st, a, f, i: hashof(E, st, ('Int', (a[1],))))
    E.on_first(r'std::hash<double>::operator\(\)\(.*', lambda E, st, a, f, i: hashof(E, st, ('Float', (a[1],))))
    E.assumed.append('comparison and hash of the contained types are functions of the contents; std::hash of equal keys is equal')
def hashof(E, st, c):
    xs = cid(E, st, c)
    if c[0] == 'Float': xs = [z3.If(z3.fpIsZero(xs[0]), z3.FPVal(0, z3.Float64()), xs[0])]
    t = uf('hash_' + c[0], xs, I); st.pc.append(z3.And(t >= 0, t < 1 << 64)); return IV(64, t, 0, (1 << 64) - 1)
def base_state(E):
    """the state after the static constants of Value.cpp are constructed"""
    if getattr(E, 'base', None) is None:
        st = State(); E.quiet += 1; E.base_fail = len(E.obligs)
        outs = E.exec_fn(st, E.mod.find('_GLOBAL__sub_I_Value.cpp'), [])
        E.quiet -= 1
        if len(outs) != 1 or isinstance(outs[0][1], Exc): raise Unsupported('initialisation of Value.cpp')
        E.base = outs[0][0]
    return E.base.fork()
def tagof(E, st, p):
    t = E.u(st, quiet(E, st, 'vc_v_type', p)[1])
    for k, v in TAG.items():
        if isinstance(t, int) and t == v: return k
    raise Unsupported(f'type tag {t}')
def abstract(E, st, p):
    """(kind, content) of the Value at p"""
    k = tagof(E, st, p)
    if k == 'Empty': return k, None
    r = quiet(E, st, 'vc_v_get_' + k, p)[1]
    if k == 'Str' and E.rope: return k, ('Str', list(stdlib.str_get(E, st, r)))
    if k in BOXED:
        g = st.mem[r.obj].g.get(('lt', r.off)); return k, g
    return k, observe(E, st, k, r)
def null(n): return ('Null', ('Null', (IV(32, n),)))
def boolval(b): return ('Bool', ('Bool', (b,)))
def result(E, st, p, alts, what):
    """alts [(guard, kind, content)]: exhaustive; the Value at p is the one whose guard holds"""
    k, c = abstract(E, st, p)
    for g, k2, c2 in alts:
        if g is False: continue
        nm = f'{what}: result is {k2}' + ('' if c2 is None else f' {str(c2[1])[:60]}')
        if k2 != k: ob(E, st, nm + f' (got {k})', z3.Not(g) if isinstance(g, z3.ExprRef) else False); continue
        e = eqc(E, st, c, c2)
        ob(E, st, nm, z3.Implies(g, e if isinstance(e, z3.ExprRef) else z3.BoolVal(e)) if isinstance(g, z3.ExprRef) else e)

# ------------------------------------------------------------------ floating point
F64 = z3.Float64(); R = z3.RNE(); EPS = z3.FPVal(1e-8, F64); P63 = z3.FPVal(2.0 ** 63, F64)
def i2d(E, st, x):
    """int64 -> double: a function of the integer, finite, within 2^63"""
    t = E.s(st, x) if not isinstance(x, (int, z3.ExprRef)) else x; t = z3.IntVal(t) if isinstance(t, int) else t
    r = uf('i2d', [t], F64); st.pc.append(z3.fpLEQ(z3.fpAbs(r), P63)); return r
def float_hooks(E):
    def it(E, st, t, fs):
        if fs.ebits() != 11: raise Unsupported('integer to float')
        return FPV(i2d(E, st, t))
    E.on_itofp = it
    E.assumed.append('integer to double conversion is a function of the integer with a finite result of magnitude at most 2^63 (IEEE rounding is not unfolded)')

# ------------------------------------------------------------------ text and lists
def text_rope(E, st, name): return [stdlib.Sl(('str', name), 0, stdlib.str_len_sym(st, name))]
def textof(E, st, c):
    """the textual form of a scalar content, as rope"""
    k = c[0]
    if k == 'Str': return list(c[1])
    if k == 'Bool':
        b = E.boolv(c[1][0]); return None if not isinstance(b, bool) else stdlib.lit_rope(b'true' if b else b'false')
    return text_rope(E, st, f'{k}-text(' + ','.join(str(z3.simplify(x) if isinstance(x, z3.ExprRef) else x) for x in cid(E, st, c)) + ')')
def setup_text(E):
    def out(fn): return lambda E, st, a, f, i: (stdlib.str_set(E, st, a[0], fn(E, st, a)), None)[1]
    for k in ('Date', 'Time', 'DateTime'): E.on_first(rf'nebula::{k}::toString(\[abi:cxx11\])?\(\) const', out(lambda E, st, a, k=k: textof(E, st, observe(E, st, k, a[1]))))
    for ty, k in (('long', 'Int'), ('double', 'Float')):
        E.on_first(rf'.*folly::to<.*, {ty}>\({ty} const&\)', out(lambda E, st, a, k=k, ty=ty: textof(E, st, (k, (E.load(st, a[1], 'i64' if ty == 'long' else 'double', 8),)))))
        E.on_first(rf'.*folly::to<.*, {ty}>\({ty}\)', out(lambda E, st, a, k=k: textof(E, st, (k, (a[1],)))))
    E.on_first(r'std::(__cxx11::)?to_string\(long\)', out(lambda E, st, a: textof(E, st, ('Int', (a[1],)))))
    def printf(E, st, a):
        f = stdlib.rope_literal(E, stdlib.cstr_rope(E, st, a[1])).decode(); r = []; n = 2
        for x in re.findall(r'%ld|%lld|%d|%s|%f|%%|[^%]+', f):
            if x == '%s': r += stdlib.cstr_rope(E, st, a[n]); n += 1
            elif x in ('%ld', '%lld'): r += textof(E, st, ('Int', (a[n],))); n += 1
            elif x[0] == '%': raise Unsupported('stringPrintf ' + x)
            else: r += stdlib.lit_rope(x.encode())
        return r
    E.on_first(r'folly::stringPrintf(\[abi:cxx11\])?\(char const\*, \.\.\.\)', out(printf))
    E.assumed.append('folly::to and toString of dates and times are functions of the value')
VV = r'std::vector<nebula::Value, std::allocator<nebula::Value> ?>::'
def setup_list(E):
    """contract of std::vector<Value> as a sequence; it is the first member of List"""
    def get(E, st, p): return seq(E.g_live(E, st, p, 'List', 'use of a list')[1])
    def put(E, st, p, s):
        E.oblige(st, not st.mem[p.obj].ro, 'frame', 'the list may be written'); st.rw(p.obj).g[('lt', p.off)] = ('List', ('seq', tuple(s)))
    def pos(w):
        def h(E, st, a, f, i):
            get(E, st, a[0]); q = E.alloc(st, 'iterator', 16, 'stack'); st.rw(q.obj).g['pos'] = (a[0].obj, a[0].off, w); return q
        return h
    def where(E, st, it):
        g = st.mem[it.obj].g.get('pos') if isinstance(it, Ptr) and it.obj else None
        if g is None: raise Unsupported('iterator into a list')
        return Ptr(g[0], g[1]), g[2]
    def one(E, st, p, move):
        k, c = abstract(E, st, p)
        if move: quiet(E, st, 'vc_v_clear', p)
        return ('one', k, c)
    def add(E, st, v, w, items):
        s = get(E, st, v); put(E, st, v, items + s if w == 'begin' else s + items)
    def ins1(move):
        def h(E, st, a, f, i):
            v, w = where(E, st, a[1]); E.oblige(st, (v.obj, v.off) == (a[0].obj, a[0].off), 'precondition', 'insert position belongs to the vector')
            add(E, st, v, w, (one(E, st, a[2], move),)); return a[1]
        return h
    def insr(E, st, a, f, i):
        v, w = where(E, st, a[1]); (x, b), (y, e) = where(E, st, a[2]), where(E, st, a[3])
        E.oblige(st, (v.obj, v.off) == (a[0].obj, a[0].off) and (x.obj, x.off) == (y.obj, y.off) and (x.obj, x.off) != (v.obj, v.off), 'precondition', 'insert position and range are valid')
        if (b, e) != ('begin', 'end'): E.oblige(st, b == e, 'precondition', 'the range is not reversed'); return a[1]
        add(E, st, v, w, get(E, st, x)); return a[1]
    def back(move): return lambda E, st, a, f, i: (add(E, st, a[0], 'end', (one(E, st, a[1], move),)), a[0])[1] if 'push_back' not in f['dem'] else add(E, st, a[0], 'end', (one(E, st, a[1], move),))
    E.on_first(VV + r'(c?begin)\(\)( const)?', pos('begin')); E.on_first(VV + r'(c?end)\(\)( const)?', pos('end'))
    E.on_first(VV + r'reserve\(unsigned long\)', lambda E, st, a, f, i: (get(E, st, a[0]), None)[1])
    E.on_first(VV + r'insert\(.*, nebula::Value const&\)', ins1(False)); E.on_first(VV + r'insert\(.*, nebula::Value&&\)', ins1(True))
    E.on_first(r'.*' + VV + r'insert<.*>\(.*', insr)
    E.on_first(VV + r'push_back\(nebula::Value const&\)', back(False)); E.on_first(VV + r'push_back\(nebula::Value&&\)', back(True))
    E.on_first(r'.*' + VV + r'emplace_back<nebula::Value const&>\(.*', back(False)); E.on_first(r'.*' + VV + r'emplace_back<nebula::Value>\(.*', back(True))
    E.on_first(r'nebula::List::List\(\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'List', ('seq', ()), 'construction of List'), None)[1])
    E.assumed.append('std::vector<Value>: contract of a sequence (insert, push_back, emplace_back, reserve)')
