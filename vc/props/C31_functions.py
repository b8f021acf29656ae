from funccommon import *
import funccommon
def mods(): return funccommon._build()
def A(k): return z3.Int(f'arg{k}')
def setup31(E):
    on = E.on_first; get, put = E.g_get, E.g_put; V = r'nebula::Value::'
    E.ptr_of = lambda E, st, path, x: E.given(E, st, 'argument ' + str(x), x)
    def new(E, st, p, t, what='Value'): E.g_start(E, st, p, 'Value', T(t), what)
    def gs(st, p): return tid(get(st, p, 'Str', 'string'))
    def mkstr(E, st, p, t, what='string'): E.g_start(E, st, p, 'Str', T(t), what)
    BITS = dict(Date=32, Time=64, DateTime=64); E.sizes.update({k: b // 8 for k, b in BITS.items()})
    def bits(st, p, k):
        """a date or a time: its content, or the bits it is made of"""
        g = st.mem[p.obj].g.get(('lt', p.off))
        return tid(g[1]) if g is not None and g[0] == k else zi(E.u(st, E.load(st, p, f'i{BITS[k]}', BITS[k] // 8)))
    for k in ('Date', 'Time', 'DateTime'):
        for m in (' const&', '&&'): on(V + r'Value\(nebula::' + k + m + r'\)', lambda E, st, a, f, i, k=k: (new(E, st, a[0], mk(E, st, k, bits(st, a[1], k))), None)[1])
        on(r'nebula::' + k + r'::toString(\[abi:cxx11\])?\(\) const', lambda E, st, a, f, i, k=k: (mkstr(E, st, a[0], uf('text.' + k, [bits(st, a[1], k)], IN)), None)[1])
    import stdlib as SL
    def vchar(E, st, a, f, i):
        r = SL.rope_literal(E, SL.cstr_rope(E, st, a[1]))
        if r is None: raise Unsupported('a text that is not a literal')
        new(E, st, a[0], mk(E, st, 'Str', E.lit(E, st, r.decode('latin1')))); return None
    on(V + r'Value\(char const\*\)', vchar)
    def mkel(E, st, et, at_, a):
        """a Value made in the vector from something else"""
        if et != 'Value' or len(a) != 2: return None
        if at_.startswith('(std::__cxx11::basic_string'): return {'': mk(E, st, 'Str', gs(st, a[1]))}
        for k in ('Vertex', 'Edge'):
            if at_.startswith('(nebula::' + k): return {'': mk(E, st, k, E.content(E, st, k, a[1]))}
        if at_.startswith('(long&'): return {'': mk(E, st, 'Int', zi(E.s(st, E.load(st, a[1], 'i64', 8))))}
    E.mkel = mkel
    # strings
    def substr(E, st, a, f, i):
        x = gs(st, a[1]); p, n = zi(E.u(st, a[2])), zi(E.u(st, a[3])); s2 = st.fork(); s2.pc.append(p > slen(E, s2, x)); out = []
        if E.feasible(s2, True): out.append((s2, Exc('std::out_of_range', NULL)))
        st.pc.append(p <= slen(E, st, x)); mkstr(E, st, a[0], sub(E, st, x, p, n)); return out + [(st, None)]
    on(STRQ + r'::substr\(unsigned long, unsigned long\) const', substr)
    def on1(rx, nm): on(rx, lambda E, st, a, f, i: (put(st, a[0], 'Str', T(uf(nm, [gs(st, a[0])], IN))), None)[1])
    on1(r'folly::toLowerAscii\(' + STRQ + r'&\)', 'str.lower')
    def whole(st, p, q):
        g, h = (st.mem[x.obj].g.get('string iterator') for x in (p, q))
        if g is None or h is None or g[0] != h[0] or (g[1], h[1]) != ('begin', 'end'): raise Unsupported('a part of a string')
        return Ptr(*g[0])
    for nm in ('begin', 'end'):
        def it(E, st, a, f, i, nm=nm): get(st, a[0], 'Str', nm); p = obj(E, st, 'iterator of a string', 8); st.rw(p.obj).g['string iterator'] = ((a[0].obj, a[0].off), nm); return p
        on(STRQ + r'::c?' + nm + r'\(\)( const)?', it)
    def transform(E, st, a, f, i):
        import re as _re
        s = whole(st, a[0], a[1]); d = st.mem[a[2].obj].g.get('string iterator')
        if d != ((s.obj, s.off), 'begin'): raise Unsupported('transform to somewhere else')
        fn = a[3] if len(a) > 3 else None; nm = None
        nm = E.mapping_of(E, st, f, fn); put(st, s, 'Str', T(uf(nm, [gs(st, s)], IN))); return obj(E, st, 'iterator of a string', 8)
    on(r'(.* )?std::transform<.*>\(.*\)|_ZSt9transformI.*', transform)
    def mapping(E, st, f, fn):
        """what the function does to a character: executed on an arbitrary one"""
        res = []
        lam = [n for n in E.mod.funcs if 'clEh' in n and n.endswith('clEh') and n.startswith('_ZZZN')]
        if isinstance(fn, Ptr) and fn.obj in st.mem and st.mem[fn.obj].name in ('toupper', 'tolower'): return 'str.' + st.mem[fn.obj].name[2:]
        if len(lam) == 1:
            s2 = st.fork(); c = z3.Int('character'); s2.pc += [c >= 0, c < 256]; E.quiet += 1
            try: outs = E.exec_fn(s2, lam[0], [obj(E, s2, 'function', 1), IV(8, c, 0, 255)])
            finally: E.quiet -= 1
            for o in ('toupper', 'tolower'):
                if all(not isinstance(r, Exc) and E.valid(x, E.s(x, r) == uf(o, [c], IN)) for x, r in outs): return 'str.' + o[2:]
        raise Unsupported('a function applied to every character')
    E.mapping_of = mapping
    for o in ('toupper', 'tolower'): on(o, lambda E, st, a, f, i, o=o: IV(32, (lambda t: (st.pc.append(z3.And(t >= -1, t < 256)), t)[1])(uf(o, [zi(E.s(st, a[0]))], IN)), -1, 255))
    def srev(E, st, a, f, i):
        if 'string iterator' not in st.mem[a[0].obj].g: return NotImplemented
        s = whole(st, a[0], a[1]); put(st, s, 'Str', T(uf('str.rev', [gs(st, s)], IN))); return None
    on(r'(void )?std::reverse<.*>\(.*\)', srev)
    def piece(E, st, p): return tid(get(st, p, 'Piece', 'StringPiece'))
    def strcase(E, st, a, f, i):
        x, y = (st.mem[p.obj].g.get('chars of') for p in a[:2]); 
        if x is None or y is None: raise Unsupported('strcasecmp of other texts')
        t = uf('str.casecmp', [x, y], IN); st.pc.append(z3.And(t >= -(1 << 31), t < 1 << 31)); return IV(32, t, -(1 << 31), (1 << 31) - 1)
    on(r'strcasecmp', strcase)
    def chars(E, st, t):
        o = st.g.get(('chars', str(t))); n = z3.simplify(slen(E, st, t))
        if o is not None: return Ptr(o, 0), n
        p = obj(E, st, 'characters', n.as_long() if z3.is_int_value(n) else n); st.rw(p.obj).g['chars of'] = t; st.rw(p.obj).ro = True; st.g[('chars', str(t))] = p.obj; return p, n
    def trims(nm):
        def h(E, st, a, f, i):
            x = thewhole(E, st, a[0], a[1]); p, n = chars(E, st, uf('str.' + nm, [x], IN)); return Agg([p, E.gep(st, p, 1, [])] if False else [p, Ptr(p.obj, n.as_long() if z3.is_int_value(n) else n)])
        return h
    def thewhole(E, st, p, q):
        x = st.mem[p.obj].g.get('chars of') if isinstance(p, Ptr) and p.obj is not None else None
        if x is None or q.obj != p.obj or not E.valid(st, z3.And(zi(p.off) == 0, zi(q.off) == slen(E, st, x))): raise Unsupported('a part of a text')
        return x
    for nm in ('trim', 'ltrim', 'rtrim'): on(r'folly::' + nm + r'Whitespace\(folly::StringPiece\)', trims(nm))
    on(r'folly::StringPiece::(toString|str)(\[abi:cxx11\])?\(\) const', lambda E, st, a, f, i: (mkstr(E, st, a[0], thewhole(E, st, E.load(st, a[1], 'ptr', 8), E.load(st, E.gep(st, a[1], 8, []), 'ptr', 8))), None)[1])
    def prev(E, st, a, f, i):
        for x, off, t in flat(E, 'Path'):
            q = E.gep(st, a[0], off, []); o = tid(get(st, q, t, 'reverse')); put(st, q, t, T(uf('rev.' + x, [o], IN)))
        return None
    on(r'nebula::Path::reverse\(\)', prev)
    def cstr(E, st, a, f, i): return chars(E, st, gs(st, a[0]))[0]
    def cstr0(E, st, a, f, i): p = obj(E, st, 'characters', 1); st.rw(p.obj).g['chars of'] = gs(st, a[0]); st.rw(p.obj).ro = True; return p
    on(STRQ + r'::(c_str|data)\(\) const', cstr)
    on(r'(.* )?boost::algorithm::replace_all_copy<.*>\(.*\)', lambda E, st, a, f, i: (mkstr(E, st, a[0], uf('str.replace', [gs(st, a[1]), gs(st, a[2]), gs(st, a[3])], IN)), None)[1])
    on(r'(.* )?folly::to<' + STRQ + r', (long|int64_t) ?>\(.*\)', lambda E, st, a, f, i: (mkstr(E, st, a[0], uf('str.dec', [zi(E.s(st, E.load(st, a[1], 'i64', 8)))], IN)), None)[1])
    on(r'(.* )?folly::to<' + STRQ + r', double ?>\(.*\)', lambda E, st, a, f, i: (mkstr(E, st, a[0], uf('str.fmt', [fid(E, st, E.fp(E.load(st, a[1], 'double', 8)))], IN)), None)[1])
    def findc(E, st, a, f, i):
        x = gs(st, a[0]); c = zi(E.s(st, a[1])); r = uf('str.findc', [x, c], IN); st.pc.append(z3.And(r >= -1, r < slen(E, st, x))); return IV(64, z3.If(r < 0, z3.IntVal(NPOS), r), 0, NPOS)
    on(STRQ + r'::find\(char, unsigned long\) const', findc)
    on(STRQ + r'::operator\+=\(char const\*\)', lambda E, st, a, f, i: (put(st, a[0], 'Str', T(uf('str.cat', [gs(st, a[0]), E.lit(E, st, SL.rope_literal(E, SL.cstr_rope(E, st, a[1])).decode('latin1'))], IN))), a[0])[1])
    on(STRQ + r'::(size|length)\(\) const', lambda E, st, a, f, i: IV(64, slen(E, st, gs(st, a[0])), 0, 1 << 62))
    def d2i(E, st, x, w, op):
        if (w, op) != (64, 'fptosi'): return None
        E.oblige(st, z3.And(z3.fpGEQ(x, fconst(-2.0 ** 63)), z3.fpLT(x, fconst(2.0 ** 63))), 'overflow', 'the number fits in the integer'); t = z3.Function('d2i', F64, IN)(x); st.pc.append(z3.And(t >= -(1 << 63), t < 1 << 63)); return IV(64, t, -(1 << 63), (1 << 63) - 1)
    E.on_fptosi = d2i
    def labs(E, st, a, f, i):
        x = zi(E.s(st, a[0])); E.oblige(st, x != -(1 << 63), 'overflow', 'the absolute value fits'); return IV(64, z3.If(x < 0, -x, x), 0, (1 << 63) - 1)
    on(r'llvm\.abs\.i64|labs', labs)
    # random numbers and the clock
    def rnd(bits):
        def h(E, st, a, f, i):
            r = z3.Int(f'random {len(st.g.get("rnd", ()))}'); xs = [zi(E.u(st, x)) for x in a if isinstance(x, IV)]; st.g['rnd'] = st.g.get('rnd', ()) + ((bits, tuple(xs), r),)
            lo, hi = (z3.IntVal(0), z3.IntVal(1 << bits)) if not xs else (z3.IntVal(0), z3.If(xs[0] == 0, z3.IntVal(1), xs[0])) if len(xs) == 1 else (xs[0], z3.If(xs[0] == xs[1], xs[1] + 1, xs[1]))
            st.pc += [z3.Implies(lo < hi, z3.And(r >= lo, r < hi)), r >= 0, r < 1 << bits]; return IV(bits, r, 0, (1 << bits) - 1)
        return h
    for b in (32, 64): on(r'(.* )?folly::Random::rand%d(<.*>)?\(.*\)' % b, rnd(b))
    on(r'(.* )?folly::Random::randDouble01(<.*>)?\(.*\)', lambda E, st, a, f, i: FPV(z3.Const('random', F64)))
    on(r'nebula::time::WallClock::fastNowInSec\(\)', lambda E, st, a, f, i: IV(64, z3.Int('now'), -(1 << 63), (1 << 63) - 1))
    # dates and times: what parsing and conversion give
    TU = r'nebula::time::TimeUtils::'
    def arg(E, st, p, t): return bits(st, p, t) if t in BITS else tid(get(st, p, t, 'argument'))
    def sor(nm, t):
        def h(E, st, a, f, i): st.rw(a[0].obj).g[('lt', a[0].off)] = ('SOr', T(uf('time.' + nm, [arg(E, st, p, t) for p in a[1:]] or [z3.IntVal(0)], IN))); return None
        return h
    for nm in ('parseDate', 'parseTime', 'parseDateTime'): on(TU + nm + r'\(.*\)', sor(nm, 'Str'))
    def mapof(E, st, p): return st.mem[p.obj].g['content']
    for nm in ('dateFromMap', 'timeFromMap', 'dateTimeFromMap'): on(TU + nm + r'\(.*\)', lambda E, st, a, f, i, nm=nm: (st.rw(a[0].obj).g.__setitem__(('lt', a[0].off), ('SOr', T(uf('time.' + nm, [mapof(E, st, a[1])], IN)))), None)[1])
    on(TU + r'toTimestamp\(.*\)', sor('toTimestamp', 'Value')); on(TU + r'utcDate\(\)', sor('utcDate', None))
    for nm, k in (('utcTime', 'Time'), ('utcDateTime', 'DateTime')): on(TU + nm + r'\(\)', lambda E, st, a, f, i, nm=nm, k=k: (E.store_cls(E, st, a, k, z3.Int('time.' + nm))))
    for nm, k in (('timeToUTC', 'Time'), ('dateTimeToUTC', 'DateTime')): on(TU + nm + r'\(.*\)', lambda E, st, a, f, i, nm=nm, k=k: (E.store_cls(E, st, a, k, uf('time.' + nm, [arg(E, st, a[-1], k)], IN))))
    def store_cls(E, st, a, k, t): st.pc.append(z3.And(t >= 0, t < 1 << 64)); return opaque(IV(64, t, 0, (1 << 64) - 1))
    E.store_cls = store_cls
    SO = r'nebula::StatusOr<nebula::(Date|Time|DateTime|Value)>'
    on(SO + r'::ok\(\) const', lambda E, st, a, f, i: uf('ok', [tid(st.mem[a[0].obj].g[('lt', a[0].off)][1])], BO))
    def soval(E, st, a, f, i):
        import re as _re
        k = _re.search(r'StatusOr<nebula::(\w+)>', f['dem']).group(1); q = a[-1]; x = st.mem[q.obj].g[('lt', q.off)][1]; E.oblige(st, uf('ok', [tid(x)], BO), 'precondition', 'value() of something that succeeded'); t = uf('val', [tid(x)], IN)
        if k == 'Value': norm(E, st, t)
        else:
            st.pc.append(z3.And(t >= 0, t < 1 << BITS[k])); p = a[0] if len(a) == 2 else obj(E, st, k, BITS[k] // 8)
            if f['ret'] == f'i{BITS[k]}': return opaque(IV(BITS[k], t, 0, (1 << BITS[k]) - 1))
            E.store(st, p, opaque(IV(BITS[k], t, 0, (1 << BITS[k]) - 1)), f'i{BITS[k]}', BITS[k] // 8); return None if len(a) == 2 else p
        if len(a) == 2: E.g_start(E, st, a[0], k, T(t), k); return None
        return value(E, st, k, E.sizes[k], T(t))
    on(r'(.* )?' + SO + r'::value\(\).*', soval); on(r'(.* )?' + SO + r'::~StatusOr\(\)', lambda E, st, a, f, i: (st.rw(a[0].obj).g.__setitem__(('lt', a[0].off), None), None)[1])
    MI = CT['map'] + '::'
    def nodeit(E, st, a, f, i, nm): g = tid(get(st, a[0], 'map', nm)); p = obj(E, st, 'iterator of a map', 8); st.rw(p.obj).g['map iterator'] = (g, nm.replace('c', '')); return p
    def minsert(E, st, a, f, i):
        b, e = (st.mem[p.obj].g.get('map iterator') for p in a[1:3])
        if b is None or e is None or not b[0].eq(e[0]) or (b[1], e[1]) != ('begin', 'end'): raise Unsupported('a part of a map')
        put(st, a[0], 'map', T(uf('map.insertall', [tid(get(st, a[0], 'map', 'insert')), b[0]], IN))); return None
    for nm in ('cbegin', 'cend'): on(MI + nm + r'\(\) const', lambda E, st, a, f, i, nm=nm: nodeit(E, st, a, f, i, nm))
    on(r'(.* )?' + MI + r'insert<.*>\(.*\)', minsert)
    for nm in ('Edges', 'Vertices'): on(r'nebula::Path::hasDuplicate' + nm + r'\(\) const', lambda E, st, a, f, i, nm=nm: uf('Path.duplicate' + nm, [mapof(E, st, a[0])], BO))
def sub(E, st, x, p, n):
    t = uf('str.sub', [x, zi(p), zi(n)], IN); L = slen(E, st, x); fact(st, slen(E, st, t) == z3.If(zi(n) < L - zi(p), zi(n), L - zi(p))); return t
# ------------------------------------------------------------------ what each function gives
N = lambda E, s: null(E, s, 0)
BT = lambda E, s: null(E, s, 3)
BD = lambda E, s: null(E, s, 2)
def kinds(d, nul=True):
    """the result by the kind of the only argument; null gives null; anything else is a null of bad type"""
    def w(E, s, x):
        for k, g in d.items():
            if E.valid(s, isk(x, k)): return g(E, s, x)
        ob(E, s, 'the kind of the argument is known', z3.And([z3.Not(isk(x, k)) for k in d])); return z3.If(isk(x, 'Null'), N(E, s), BT(E, s)) if nul else BT(E, s)
    w.kinds = list(d); return w
def lit(E, s, t): return mk(E, s, 'Str', E.lit(E, s, t))
def I(E, s, t): return mk(E, s, 'Int', zi(t))
def dbl(x): return z3.If(isk(x, 'Int'), i2d(intof(x)), floatof(x))
def mth(nm, iz=None, fz=None):
    def one(arg, z):
        def g(E, s, x): v = mkfloat(E, s, mathf(nm, i2d(intof(x)) if arg == 'Int' else floatof(x))); return z3.If(z(x), N(E, s), v) if z else v
        return g
    return 1, kinds(dict(Int=one('Int', iz), Float=one('Float', fz)))
eps = 1e-8
small = lambda x: z3.And(z3.fpGEQ(floatof(x), fconst(-eps)), z3.fpLEQ(floatof(x), fconst(eps)))
def num2(nm, fin=None):
    def w(E, s, x, y):
        b = z3.And(z3.Or(isk(x, 'Int'), isk(x, 'Float')), z3.Or(isk(y, 'Int'), isk(y, 'Float'))); v = mathf(nm, dbl(x), dbl(y)); r = mkfloat(E, s, v)
        return z3.If(b, fin(E, s, x, y, v, r) if fin else r, BT(E, s))
    return 2, w
def powfin(E, s, x, y, v, r):
    ii = z3.And(isk(x, 'Int'), isk(y, 'Int')); fits = z3.And(z3.fpGEQ(v, fconst(-2.0 ** 63)), z3.fpLT(v, fconst(2.0 ** 63))); return z3.If(ii, z3.If(fits, mk(E, s, 'Int', z3.Function('d2i', F64, IN)(v)), null(E, s, 4)), r)
def bitop(n): return 2, lambda E, s, x, y: arith(E, s, n, x, y)
def scont(x): return cont('Str', x)
def str1(nm): return 1, kinds(dict(Str=lambda E, s, x: mk(E, s, 'Str', uf(nm, [scont(x)], IN))))
def w_left(E, s, x, y):
    n = intof(y); ok = isk(x, 'Str'); return z3.If(isk(x, 'Null'), N(E, s), z3.If(z3.And(ok, isk(y, 'Int'), n >= 0), mk(E, s, 'Str', sub(E, s, scont(x), 0, n)), BT(E, s)))
def w_right(E, s, x, y):
    n = intof(y); L = slen(E, s, scont(x)); c = z3.If(n > L, L, n); return z3.If(isk(x, 'Null'), N(E, s), z3.If(z3.And(isk(x, 'Str'), isk(y, 'Int'), n >= 0), mk(E, s, 'Str', sub(E, s, scont(x), L - c, z3.IntVal(NPOS))), BT(E, s)))
def w_replace(E, s, x, y, z): return z3.If(z3.Or([isk(v, 'Null') for v in (x, y, z)]), N(E, s), z3.If(z3.And([isk(v, 'Str') for v in (x, y, z)]), mk(E, s, 'Str', uf('str.replace', [scont(x), scont(y), scont(z)], IN)), BT(E, s)))
def w_substr(three):
    def w(E, s, x, y, z=None):
        st_, L = intof(y), slen(E, s, scont(x)); n = intof(z) if three else z3.If(st_ >= L, z3.IntVal(0), L - st_); ok = z3.And(isk(x, 'Str'), isk(y, 'Int'), isk(z, 'Int') if three else True)
        return z3.If(isk(x, 'Null'), N(E, s), z3.If(z3.Not(ok), BT(E, s), z3.If(z3.Or(st_ < 0, n < 0), BD(E, s), z3.If(z3.Or(st_ >= L, n == 0), lit(E, s, ''), mk(E, s, 'Str', sub(E, s, scont(x), st_, n))))))
    return w
def w_tostring():
    def fl(E, s, x): t = uf('str.fmt', [fid(E, s, floatof(x))], IN); dot = uf('str.findc', [t, zi(ord('.'))], IN); return mk(E, s, 'Str', z3.If(dot < 0, uf('str.cat', [t, E.lit(E, s, '.0')], IN), t))
    d = dict(Int=lambda E, s, x: mk(E, s, 'Str', uf('str.dec', [intof(x)], IN)), Float=fl, Bool=lambda E, s, x: z3.If(boolof(x), lit(E, s, 'true'), lit(E, s, 'false')), Str=lambda E, s, x: x)
    for k in ('Date', 'Time', 'DateTime'): d[k] = lambda E, s, x, k=k: mk(E, s, 'Str', uf('text.' + k, [cont(k, x)], IN))
    return 1, kinds(d)
HASHED = ['Null', 'Empty', 'Int', 'Float', 'Bool', 'Str', 'Date', 'DateTime', 'Vertex', 'Edge', 'Path', 'List']
def w_hash(E, s, x): h = uf('hash_Value', [x], IN); return z3.If(z3.Or([isk(x, k) for k in HASHED]), mk(E, s, 'Int', z3.If(h >= 1 << 63, h - (1 << 64), h)), BT(E, s))
def em(f, x): return mem('Edge', f, cont('Edge', x))
def pm(f, x): return uf('Path.' + f, [cont('Path', x)], IN)
def steps(E, s, x): return E.seqof(E, s, T(pm('steps', x)))
def vtx(E, s, vid, tags): return mk(E, s, 'Vertex', recof(E, s, 'Vertex', [vid, tags]))
def lst(E, s, x): return listseq(E, s, cont('List', x))
def w_end(E, s, x):
    S = steps(E, s, x); 
    return z3.If(S.n == 0, vtx(E, s, pm('src.vid', x), pm('src.tags', x)), vtx(E, s, S.get('dst.vid', S.n - 1), S.get('dst.tags', S.n - 1)))
def w_tail(E, s, x): S = lst(E, s, x); return Seq(z3.If(S.n == 0, z3.IntVal(0), S.n - 1), lambda f, j: S.get(f, zi(j) + 1))
def w_nodes(E, s, x):
    S = steps(E, s, x); return Seq(S.n + 1, lambda f, j: z3.If(zi(j) == 0, vtx(E, s, pm('src.vid', x), pm('src.tags', x)), vtx(E, s, S.get('dst.vid', zi(j) - 1), S.get('dst.tags', zi(j) - 1))))
def edge_at(E, s, x, j):
    S = steps(E, s, x); j = zi(j); return mk(E, s, 'Edge', recof(E, s, 'Edge', [z3.If(j == 0, pm('src.vid', x), S.get('dst.vid', j - 1)), S.get('dst.vid', j), S.get('type', j), S.get('name', j), S.get('ranking', j), S.get('props', j)]))
def size_of(E, s, k, x):
    c = cont(k, x)
    return slen(E, s, c) if k == 'Str' else lst(E, s, x).n if k == 'List' else E.seqof(E, s, T(mem('DataSet', 'rows', c))).n if k == 'DataSet' else size(E, s, {'Map': 'map', 'Set': 'set'}[k], T(mem(k, MEM[k][0], c)))
SIZED = ['Str', 'List', 'Map', 'Set', 'DataSet']
def w_size(E, s, x):
    for k in ('Str', 'List', 'Map', 'Set', 'DataSet'):
        if E.valid(s, isk(x, k)): return I(E, s, size_of(E, s, k, x))
    ob(E, s, 'the kind of the argument is known', z3.And([z3.Not(isk(x, k)) for k in ('Str', 'List', 'Map', 'Set', 'DataSet')])); return z3.If(isk(x, 'Null'), N(E, s), z3.If(isk(x, 'Empty'), x, BT(E, s)))
w_size.kinds = SIZED
def firstlast(last):
    def g(E, s, x): S = lst(E, s, x); return z3.If(S.n == 0, N(E, s), S.get('', S.n - 1 if last else z3.IntVal(0)))
    return 1, kinds(dict(List=g))
def sok(nm, *xs): return uf('time.' + nm, list(xs) or [z3.IntVal(0)], IN)
def w_when(parse, frommap, k, utc, other):
    def w(E, s, x):
        def fin(r): t = uf('val', [r], IN); return z3.If(uf('ok', [r], BO), mk(E, s, k, uf('time.' + utc, [t], IN) if utc else t), BD(E, s))
        return z3.If(isk(x, 'Str'), fin(sok(parse, scont(x))), z3.If(isk(x, 'Map'), fin(sok(frommap, cont('Map', x))), other(E, s)))
    return w
def w_rand(bits, n):
    def w(E, s, *xs):
        r = [z for z in s.g.get('rnd', ())]; top = (1 << 32) - 1 if bits == 32 else (1 << 63) - 1
        ii = z3.And([isk(x, 'Int') for x in xs]); bad = [z3.Or(intof(x) < 0, intof(x) > top) for x in xs]
        if n == 2: bad.append(intof(xs[0]) >= intof(xs[1]))
        if not r: ob(E, s, 'a random number is made unless the arguments are bad', z3.Or(z3.Not(ii), z3.Or(bad))) ; return z3.If(ii, BD(E, s), BT(E, s))
        ob(E, s, 'a random number only for good arguments', z3.And(ii, z3.Not(z3.Or(bad)))); ob(E, s, 'one random number', len(r) == 1 and r[0][0] == bits and len(r[0][1]) == n and z3.And([u == intof(x) for u, x in zip(r[0][1], xs)])); t = r[0][2]
        if n == 0: return I(E, s, z3.If(t >= 1 << (bits - 1), t - (1 << bits), t))
        return I(E, s, t)
    return w
def w_tags(E, s, x): S = E.seqof(E, s, T(mem('Vertex', 'tags', cont('Vertex', x)))); return Seq(S.n, lambda f, j: mk(E, s, 'Str', S.get('name', j)))
def plan_rel(E, s, x):
    S = steps(E, s, x); k0 = lambda a, g: (lambda v, k: z3.If(zi(k) == 0, v, S.get(g, zi(k) - 1)))
    E.plans = {'Value': [('end of the last step', k0('src', 'dst.vid'))], 'vector': [('the edges so far', lambda v, k: Seq(k, lambda f, j: edge_at(E, s, x, j)))]}
def plan_coalesce(E, s, x):
    S = lst(E, s, x); D, know = first(E, None, S.n, 'first that is not null'); s.pc += [D >= 0, D <= S.n]; E.bounds.append(('first that is not null', D)); NUL = null(E, s, 0); E.coal = D
    E.on_round = lambda st, k: (norm(E, st, S.get('', k)), know(st, k, z3.Not(E.veq(E, st, S.get('', k), NUL))))
def w_coalesce(E, s, x): S = lst(E, s, x); E.on_round(s, E.coal); return z3.If(E.coal < S.n, S.get('', E.coal), N(E, s))
def rg(k): return z3.Function('range element', IN, IN)(zi(k))
def plan_range(E, s, x, y, z=None):
    a, b, d = intof(x), intof(y), intof(z) if z is not None else z3.IntVal(1); D = z3.Int('number of elements'); s.pc += [D >= 0, rg(0) == a]; E.bounds.append(('number of elements', D)); E.rgD = D
    for v in (x, y, z): v is not None and s.pc.extend([intof(v) >= -(1 << 63), intof(v) < 1 << 63])
    beyond = lambda k: z3.Or(z3.And(d > 0, rg(k) > b), z3.And(d < 0, rg(k) < b))
    def rnd(st, k):
        for q in (zi(k), z3.simplify(zi(k) + 1)): c = beyond(q); st.pc += [z3.Implies(z3.And(c, q >= 0), D <= q), z3.Implies(z3.And(q >= 0, q < D), z3.Not(c)), z3.Implies(q == D, c)]
        st.pc.append(rg(z3.simplify(zi(k) + 1)) == rg(k) + d)
        if z is None: st.pc += [rg(q) == a + q for q in (zi(k), z3.simplify(zi(k) + 1))]
    E.on_round = rnd; E.plans = {'i64': [('the element', lambda v, k: rg(k))]}; E.facts = lambda k: [('not past the end', zi(k) <= D), ('the element is an int64', z3.And(rg(k) >= -(1 << 63), rg(k) < 1 << 63))]
def w_range(E, s, x, y, z=None):
    a = [v for v in (x, y, z) if v is not None]; ok = z3.And([isk(v, 'Int') for v in a])
    if E.valid(s, z3.And(ok, intof(z) != 0 if z is not None else True)): return Seq(E.rgD, lambda f, j: mk(E, s, 'Int', rg(j) if z is not None else intof(x) + zi(j)))
    ob(E, s, 'the kinds of the arguments are known', z3.Or(z3.Not(ok), intof(z) == 0) if z is not None else z3.Not(ok)); return z3.If(ok, BD(E, s), BT(E, s))
def tagsof(E, s, x): return E.seqof(E, s, T(mem('Vertex', 'tags', cont('Vertex', x))))
def plan_props(E, s, x):
    S = tagsof(E, s, x); M = lambda k: uf('folded props', [zi(k)], IN); s.pc.append(M(0) == z3.Int('id:empty')); E.plans = {'map': [('the properties of the tags so far, the first of a name kept', lambda v, k: M(k))]}
    E.on_round = lambda st, k: st.pc.append(M(z3.simplify(zi(k) + 1)) == uf('map.insertall', [M(k), S.get('props', k)], IN))
def plan_cell(E, s, x, y, z):
    c = cont('DataSet', x); C = T(mem('DataSet', 'colNames', c)); n = E.seqof(E, s, C).n
    # assumed: every row is at least as wide as the header (what emplace_back, append and merge keep)
    def rect(st, q, m):
        if q.num_args() == 2 and 'at_values' in q.decl().name(): st.pc.append(m >= n)
    E.rect = rect
def w_cell(E, s, x, y, z):
    c = cont('DataSet', x); C, R = (E.seqof(E, s, T(mem('DataSet', f, c))) for f in ('colNames', 'rows')); r = intof(y); f = uf('find', [tid(mem('DataSet', 'colNames', c)), scont(z)], IN); s.pc += [f >= 0, f <= C.n]; j = z3.If(isk(z, 'Int'), intof(z), f)
    ok = z3.And(isk(x, 'DataSet'), isk(y, 'Int'), z3.Or(isk(z, 'Int'), isk(z, 'Str'))); inn = z3.And(r >= 0, r < R.n, j >= 0, j < C.n)
    return z3.If(z3.Not(ok), BT(E, s), z3.If(inn, uf('at_vector', [R.get('values', r), j], IN), BD(E, s)))
SPEC = {
 'abs': [(1, kinds(dict(Int=lambda E, s, x: z3.If(intof(x) == -(1 << 63), null(E, s, 4), I(E, s, z3.If(intof(x) < 0, -intof(x), intof(x)))), Float=lambda E, s, x: mkfloat(E, s, z3.fpAbs(floatof(x))))))],
 'bit_and': [bitop('bitand')], 'bit_or': [bitop('bitor')], 'bit_xor': [bitop('bitxor')], 'sqrt': [mth('sqrt', lambda x: intof(x) < 0, lambda x: z3.fpLT(floatof(x), fconst(0.0)))],
 'hypot': [num2('hypot')], 'pow': [num2('pow', powfin)], 'e': [(0, lambda E, s: mkfloat(E, s, fconst(2.718281828459045)))], 'pi': [(0, lambda E, s: mkfloat(E, s, fconst(3.141592653589793)))],
 'radians': [(1, kinds({k: lambda E, s, x: arith(E, s, 'div', arith(E, s, 'mul', x, mkfloat(E, s, fconst(3.141592653589793))), I(E, s, 180)) for k in ('Int', 'Float')}))],
 'sign': [(1, kinds(dict(Int=lambda E, s, x: I(E, s, z3.If(intof(x) > 0, z3.IntVal(1), z3.If(intof(x) < 0, z3.IntVal(-1), z3.IntVal(0)))), Float=lambda E, s, x: I(E, s, z3.If(z3.fpGT(floatof(x), fconst(0.0)), z3.IntVal(1), z3.If(z3.fpLT(floatof(x), fconst(0.0)), z3.IntVal(-1), z3.IntVal(0)))))))],
 'rand': [(0, lambda E, s: mkfloat(E, s, z3.Const('random', F64)))], 'rand32': [(n, w_rand(32, n)) for n in (0, 1, 2)], 'rand64': [(n, w_rand(64, n)) for n in (0, 1, 2)], 'now': [(0, lambda E, s: I(E, s, z3.Int('now')))],
 'strcasecmp': [(2, lambda E, s, x, y: z3.If(z3.And(isk(x, 'Str'), isk(y, 'Str')), I(E, s, uf('str.casecmp', [scont(x), scont(y)], IN)), BT(E, s)))],
 'lower': [str1('str.lower')], 'upper': [str1('str.upper')], 'length': [(1, kinds(dict(Str=lambda E, s, x: I(E, s, slen(E, s, scont(x))), Path=lambda E, s, x: I(E, s, steps(E, s, x).n))))],
 'trim': [str1('str.trim')], 'ltrim': [str1('str.ltrim')], 'rtrim': [str1('str.rtrim')], 'left': [(2, w_left)], 'right': [(2, w_right)], 'replace': [(3, w_replace)],
 'reverse': [(1, kinds(dict(Str=lambda E, s, x: mk(E, s, 'Str', uf('str.rev', [scont(x)], IN)), List=lambda E, s, x: rev(lst(E, s, x)))))], 'tostring': [w_tostring()],
 'toboolean': [(1, lambda E, s, x: norm(E, s, uf('v.toBool', [x], IN)))], 'tofloat': [(1, lambda E, s, x: norm(E, s, uf('v.toFloat', [x], IN)))], 'tointeger': [(1, lambda E, s, x: norm(E, s, uf('v.toInt', [x], IN)))],
 'substr': [(2, w_substr(False)), (3, w_substr(True))], 'hash': [(1, w_hash)], 'near': [(2, lambda E, s, x, y: lit(E, s, ''))], 'size': [(1, w_size)],
 'date': [(0, lambda E, s: z3.If(uf('ok', [sok('utcDate')], BO), mk(E, s, 'Date', uf('val', [sok('utcDate')], IN)), BD(E, s))), (1, w_when('parseDate', 'dateFromMap', 'Date', None, BT))],
 'time': [(0, lambda E, s: mk(E, s, 'Time', z3.Int('time.utcTime'))), (1, w_when('parseTime', 'timeFromMap', 'Time', 'timeToUTC', BT))],
 'datetime': [(0, lambda E, s: mk(E, s, 'DateTime', z3.Int('time.utcDateTime'))), (1, w_when('parseDateTime', 'dateTimeFromMap', 'DateTime', 'dateTimeToUTC', BD))],
 'timestamp': [(0, lambda E, s: I(E, s, z3.Int('now'))), (1, lambda E, s, x: z3.If(uf('ok', [sok('toTimestamp', x)], BO), norm(E, s, uf('val', [sok('toTimestamp', x)], IN)), BD(E, s)))],
 'id': [(1, kinds(dict(Vertex=lambda E, s, x: mem('Vertex', 'vid', cont('Vertex', x)))))], 'tags': [(1, kinds(dict(Vertex=w_tags)))],
 'type': [(1, kinds(dict(Edge=lambda E, s, x: mk(E, s, 'Str', em('name', x)))))], 'typeid': [(1, kinds(dict(Edge=lambda E, s, x: I(E, s, em('type', x)))))],
 'src': [(1, kinds(dict(Edge=lambda E, s, x: z3.If(em('type', x) > 0, em('src', x), em('dst', x)))))], 'dst': [(1, kinds(dict(Edge=lambda E, s, x: z3.If(em('type', x) > 0, em('dst', x), em('src', x)))))],
 'rank': [(1, kinds(dict(Edge=lambda E, s, x: I(E, s, em('ranking', x)))))],
 'startnode': [(1, kinds(dict(Edge=lambda E, s, x: vtx(E, s, em('src', x), z3.Int('id:empty')), Path=lambda E, s, x: vtx(E, s, pm('src.vid', x), pm('src.tags', x)))))],
 'endnode': [(1, kinds(dict(Edge=lambda E, s, x: vtx(E, s, em('dst', x), z3.Int('id:empty')), Path=w_end)))],
 'head': [firstlast(False)], 'last': [firstlast(True)], 'tail': [(1, kinds(dict(List=w_tail)))], 'nodes': [(1, kinds(dict(Path=w_nodes)))],
 'relationships': [(1, kinds(dict(Path=lambda E, s, x: Seq(steps(E, s, x).n, lambda f, j: edge_at(E, s, x, j)))), lambda E, s, x: plan_rel(E, s, x))],
 'coalesce': [(1, kinds(dict(List=lambda E, s, x: w_coalesce(E, s, x))), lambda E, s, x: plan_coalesce(E, s, x))],
 'range': [(2, lambda E, s, x, y: w_range(E, s, x, y), lambda E, s, x, y: plan_range(E, s, x, y)), (3, lambda E, s, x, y, z: w_range(E, s, x, y, z), lambda E, s, x, y, z: plan_range(E, s, x, y, z))],
 'properties': [(1, kinds(dict(Vertex=lambda E, s, x: mk(E, s, 'Map', recof(E, s, 'Map', [uf('folded props', [tagsof(E, s, x).n], IN)])), Edge=lambda E, s, x: mk(E, s, 'Map', recof(E, s, 'Map', [em('props', x)])), Map=lambda E, s, x: x)), lambda E, s, x: plan_props(E, s, x))],
 'datasetrowcol': [(3, lambda E, s, x, y, z: w_cell(E, s, x, y, z), lambda E, s, x, y, z: plan_cell(E, s, x, y, z))],
 'reversepath': [(1, kinds(dict(Path=lambda E, s, x: mk(E, s, 'Path', recof(E, s, 'Path', [uf('rev.' + f, [pm(f, x)], IN) for f in MEM['Path']]))), False))],
 'hassameedgeinpath': [(1, kinds(dict(Path=lambda E, s, x: mkbool(E, s, uf('Path.duplicateEdges', [cont('Path', x)], BO))), False))],
 'hassamevertexinpath': [(1, kinds(dict(Path=lambda E, s, x: mkbool(E, s, uf('Path.duplicateVertices', [cont('Path', x)], BO))), False))],
}
for nm in ('floor', 'ceil', 'round', 'cbrt', 'exp', 'exp2', 'sin', 'asin', 'cos', 'acos', 'tan', 'atan'): SPEC[nm] = [mth(nm)]
for nm in ('log', 'log2', 'log10'): SPEC[nm] = [mth(nm, lambda x: intof(x) == 0, small)]
ALIAS = dict(tolower='lower', toupper='upper', substring='substr', labels='tags')
BOUNDED = ['keys', 'split', 'lpad', 'rpad', 'cos_similarity', 'udf_is_in']
VARIADIC = ['udf_is_in', 'cos_similarity']
IMPURE = ['rand', 'rand32', 'rand64', 'now', 'date', 'time', 'datetime', 'timestamp']
def args_of(E, st, n):
    v = obj(E, st, 'arguments', 24); S = Seq(0, lambda f, j: z3.IntVal(0))
    for k in range(n): S = app(S, {'': A(k)})
    st.rw(v.obj).g[('lt', 0)] = ('vector', S); E.etys[(v.obj, 0)] = 'Ref'; st.rw(v.obj).ro = True; return v
# what Value's operations give by the kinds of their operands (C19, C22), and toTimestamp
def conv(k, *ks): return lambda xs, g: [z3.Implies(z3.Or([isk(xs[0], q) for q in ks]), z3.Or(isk(g, k), isk(g, 'Null'))), z3.Implies(isk(xs[0], 'Null'), isk(g, 'Null'))]
def bitkind(xs, g): return [z3.Implies(z3.Or(isk(xs[0], 'Null'), isk(xs[1], 'Null')), isk(g, 'Null')), z3.Implies(z3.And(isk(xs[0], 'Int'), isk(xs[1], 'Int')), isk(g, 'Int'))]
def stamp(xs, g):
    if not xs: return []
    r = sok('toTimestamp', xs[0]); return [z3.Implies(uf('ok', [r], BO), isk(uf('val', [r], IN), 'Int')), z3.Implies(isk(xs[0], 'Null'), z3.Not(uf('ok', [r], BO)))]
TF = dict(bit_and=bitkind, bit_or=bitkind, bit_xor=bitkind, radians=conv('Float', 'Int', 'Float'), toboolean=conv('Bool', 'Bool', 'Str'), tofloat=conv('Float', 'Int', 'Float', 'Str'), tointeger=conv('Int', 'Int', 'Float', 'Str'), timestamp=stamp)
def typefacts(name, xs, g): return TF[name](xs, g) if name in TF else []
DECL = {}
def declared(name, n):
    """what getReturnType declares, run on every combination of types: (types of the arguments, type of the result); an empty type says nothing"""
    return [(ks, t) for ks, t in DECL.get(name, ()) if len(ks) == n and t != 'Empty' and (n < 3 or not set(ks) & {'Null', 'Empty'})]
def declarations():
    import subprocess
    names = sorted(set(SPEC) | set(ALIAS)); o = subprocess.run([expr_prog(), 'types'] + names, stdout=subprocess.PIPE, text=True, timeout=300, check=True).stdout
    for l in o.splitlines(): a, t = l.split(' -> '); a = a.split(); DECL.setdefault(a[0], []).append((a[1:], t))
    for a, b in ALIAS.items(): DECL[b] = DECL.get(b, []) + [x for x in DECL.get(a, []) if x not in DECL.get(b, [])]
def u_fun(name, n, want, plan=None):
    def u(E):
        fn = lambda_of(E, 'fm', registry(E, 'fm')[name][3]); st = State(); v = args_of(E, st, n); xs = [norm(E, st, A(k)) for k in range(n)]; r = obj(E, st, 'result', E.sizes['Value']); this = obj(E, st, 'function', 1)
        if n:
            x = A(0); V_, P_ = cont('Vertex', x), cont('Path', x)
            for nm, S in (('elements', listseq(E, st, cont('List', x))), ('tags', E.seqof(E, st, T(mem('Vertex', 'tags', V_)))), ('steps', E.seqof(E, st, T(uf('Path.steps', [P_], IN)))), ('rows', E.seqof(E, st, T(mem('DataSet', 'rows', cont('DataSet', x)))))): E.bounds.append((nm, S.n))
        if plan: plan(E, st, *xs)
        def post(s2, _):
            # a path shared by several kinds of the argument is looked at once for each of them
            for s3 in split(E, s2, [isk(xs[0], k) for k in getattr(want, 'kinds', ())] if n else []): judge(s3)
        def judge(s2):
            w = want(E, s2, *xs); g = tid(E.g_get(s2, r, 'Value', 'result')); what = f'{name}/{n}: the value documented'
            if isinstance(w, Seq): eqlist(E, s2, g, w, what)
            else: ob(E, s2, what, g == w)
            for ks, t in declared(name, n):
                s3 = s2.fork(); s3.pc += [isk(x, k) for x, k in zip(xs, ks)] + typefacts(name, xs, g)
                if E.feasible(s3, True): ob(E, s3, f'{name}({", ".join(ks)}): a value of the declared type {t}, or null', z3.Or(isk(g, t), isk(g, 'Null')))
        Run(E, f'built-in function {name}/{n}').go(st, fn, [r, this, v], post)
    return u
def u_table(E):
    r = registry(E, 'fm'); st = State(); names = set(SPEC) | set(ALIAS) | set(BOUNDED)
    ob(E, st, 'every documented function is there, and no other', set(r) == names)
    for n, (lo, hi, pure, fn) in sorted(r.items()):
        b = ALIAS.get(n, n); ob(E, st, f'{n}: has a body', fn is not None); ob(E, st, f'{n}: pure unless it depends on the clock or on chance', bool(pure) == (b not in IMPURE))
        if b in SPEC: ob(E, st, f'{n}: takes the number of arguments documented', (lo, hi) == (min(x[0] for x in SPEC[b]), max(x[0] for x in SPEC[b])))
        if n in ALIAS: ob(E, st, f'{n} is {b}', r[b] == r[n])
    E.verified = ['nebula::FunctionManager::FunctionManager']
class PROP(Property):
    id = 'C31'; budget = 400
    assumptions = [LOGNOTE]
    always_search = 'the built-in functions ' + ', '.join(BOUNDED); bound_text = '20000 rounds of 4 calls over all functions in the quick tier (100000 in the thorough one), random arguments, fixed seed'
    def units(self):
        P = funcengine(mods(), extra=setup31); declarations()
        return [('table', P, u_table)] + [(f'function {n} {k}', P, u_fun(n, *w)) for n, s in SPEC.items() for w in s for k in [w[0]]]
    search = expr_search('function', 20000, 100000)
