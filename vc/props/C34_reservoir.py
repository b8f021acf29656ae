"""ReservoirSampling<T> for any T: one call of sampling() from any state that satisfies the invariant (the vector holds min(seen, asked) values). The
vector is a sequence by contract; a draw is uniform below its bound by contract of folly::Random. Over the calls: with a draw uniform over all values
seen so far, and the value kept when the draw falls below the size, every value seen is in the sample with the same probability (the induction step of
reservoir sampling, checked once by lemma)."""
from ghost import *
import shutil
LBL = 'nebula::algorithm::ReservoirSampling::'; MAXU = (1 << 64) - 1
_js = {}
def module():
    if 'm' not in _js:
        d = f'{scratch()}/reservoir_driver.cpp'; shutil.copy(VERIF + '/harness/reservoir_driver.cpp', d); _js['m'] = compile_ir([d], 'reservoir')
    return _js['m']
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
class Vec:
    """contents of a vector: a length and a function from positions to values"""
    def __init__(s, n, get, cap=None): s.n = n; s.get = get
def ident(v):
    return v if isinstance(v, z3.ExprRef) else z3.Int('sample:' + str(v))
def flush(st, v):
    """writes through references to elements"""
    for (o, i, n) in st.g.get('views', ()):
        x = ident(st.mem[o].g[('lt', 0)][1]); g = v.get; v = Vec(v.n, lambda j, g=g, i=i, x=x: z3.If(zi(j) == i, x, g(j)))
    return v
def setup(E):
    setup_types(E, {'Sample': 16}, []); on = E.on_first; V = r'std::vector<Sample, std::allocator<Sample>\s?>::'
    def vec(st, p): return flush(st, st.mem[p.obj].g[('vec', p.off)])
    E.vec = vec
    def setv(st, p, v): st.rw(p.obj).g[('vec', p.off)] = v; st.g['views'] = ()
    def ctor(E, st, a, f, i): setv(st, a[0], Vec(z3.IntVal(0), lambda j: z3.Int('nothing'))); return None
    on(V + r'vector\(\)', ctor)
    on(V + r'~vector\(\)', lambda E, st, a, f, i: None)
    on(V + r'reserve\(unsigned long\)', lambda E, st, a, f, i: None)
    on(V + r'(size)\(\) const', lambda E, st, a, f, i: IV(64, zi(vec(st, a[0]).n), 0, MAXU))
    on(V + r'empty\(\) const', lambda E, st, a, f, i: zi(vec(st, a[0]).n) == 0)
    def push(E, st, a, f, i):
        v = vec(st, a[0]); g = E.g_live(E, st, a[1], 'Sample', 'the value appended'); x = ident(g[1]); n = zi(v.n)
        if '&&' in f['dem'] or '<Sample>' in f['dem']: st.rw(a[1].obj).g[('lt', a[1].off)] = ('Sample', ('moved', g[1]))
        setv(st, a[0], Vec(n + 1, lambda j: z3.If(zi(j) == n, x, v.get(j))))
        p = obj(E, st, 'the element appended', 16); st.rw(p.obj).g[('lt', 0)] = ('Sample', x); return p
    on(V + r'(emplace_back|push_back)(<.*>)?\(.*\)|.* ' + V + r'(emplace_back|push_back)(<.*>)?\(.*\)', push)
    def at(E, st, a, f, i):
        v = vec(st, a[0]); k = zi(E.u(st, a[1])); E.oblige(st, k < zi(v.n), 'bounds', 'the element exists')
        for (o, j, n) in st.g.get('views', ()):
            if E.eqt(st, j, k): return Ptr(o, 0)
        if st.g.get('views'): raise Unsupported('references to two elements')
        p = obj(E, st, 'an element', 16); st.rw(p.obj).g[('lt', 0)] = ('Sample', z3.simplify(v.get(k))); st.g['views'] = st.g.get('views', ()) + ((p.obj, k, 0),); return p
    on(V + r'operator\[\]\(unsigned long\)|' + V + r'at\(unsigned long\)', at)
    def draw(E, st, a, f, i):
        r = E.fresh_int(64, 'draw', signed=False); E.rng(st, r); x = zi(E.u(st, r))
        if len(a) == 2: lo, hi = zi(E.u(st, a[0])), zi(E.u(st, a[1]))
        elif len(a) == 1: lo, hi = z3.IntVal(0), zi(E.u(st, a[0]))
        else: lo, hi = z3.IntVal(0), z3.IntVal(1 << 64)
        st.pc.append(z3.If(hi > lo, z3.And(x >= lo, x < hi), x == 0)); st.events.append(('draw', lo, hi, x)); return r
    on(r'folly::Random::rand64\(.*\)', draw)
    def draw32(E, st, a, f, i):
        r = E.fresh_int(32, 'draw', signed=False); E.rng(st, r); x = zi(E.u(st, r)); lo = zi(E.u(st, a[0])) if len(a) == 2 else z3.IntVal(0); hi = zi(E.u(st, a[-1])) if a else z3.IntVal(1 << 32)
        st.pc.append(z3.If(hi > lo, z3.And(x >= lo, x < hi), x == 0)); st.events.append(('draw', lo, hi, x)); return r
    on(r'folly::Random::rand32\(.*\)', draw32)
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E); abort_handler(E); st = State(); E.rsz = E.u(st, quiet(E, st, 'vc_size')[1]); return E
    return mk
def parts(E, st, p): return {n: quiet(E, st, 'vc_' + n, p)[1] for n in ('vec', 'cnt', 'num')}
def u64(E, st, p): return zi(E.u(st, E.load(st, p, 'i64', 8)))
def u_ctor(E):
    st = State(); p = obj(E, st, 'sampling', E.rsz); n = E.sym(st, 64, 'asked', signed=False)
    def post(s2, r):
        q = parts(E, s2, p); nm = 'a new sampling '
        ob(E, s2, nm + 'is asked for the number given', u64(E, s2, q['num']) == zi(E.u(s2, n))); ob(E, s2, nm + 'has seen nothing', u64(E, s2, q['cnt']) == 0); ob(E, s2, nm + 'holds nothing', zi(E.vec(s2, q['vec']).n) == 0)
    Run(E, LBL + 'ReservoirSampling').go(st, 'vc_ctor', [p, n], post)
def any_state(E, st):
    p = obj(E, st, 'sampling', E.rsz); q = parts(E, st, p); cnt, num = E.sym(st, 64, 'seen', signed=False), E.sym(st, 64, 'asked', signed=False); c, n = zi(E.u(st, cnt)), zi(E.u(st, num))
    E.store(st, q['cnt'], cnt, 'i64', 8); E.store(st, q['num'], num, 'i64', 8); h = z3.Int('held'); st.pc += [h == z3.If(c < n, c, n), c < MAXU]
    f = z3.Function('sample', z3.IntSort(), z3.IntSort()); st.rw(q['vec'].obj).g[('vec', q['vec'].off)] = Vec(h, lambda j: f(zi(j))); return p, q, c, n, h, f
def u_sampling(E):
    st = State(); p, q, c, n, h, f = any_state(E, st); s = value(E, st, 'Sample', 16, 'new'); x = ident('new'); j = z3.Int('j')
    def post(s2, r):
        v = E.vec(s2, q['vec']); kept = E.boolv(r) if not isinstance(r, z3.ExprRef) else r; d = [e for e in s2.events if e[0] == 'draw']; full = c >= n; kept = zi(kept) if isinstance(kept, int) and not isinstance(kept, bool) else kept
        kept = z3.BoolVal(kept) if isinstance(kept, bool) else kept
        ob(E, s2, 'the value counts as seen', u64(E, s2, q['cnt']) == c + 1); ob(E, s2, 'the number asked for does not change', u64(E, s2, q['num']) == n)
        ob(E, s2, 'the sample holds as many values as asked for, or all that were seen', zi(v.n) == z3.If(c + 1 < n, c + 1, n))
        inr = z3.And(j >= 0, j < zi(v.n))
        ob(E, s2, 'a value is kept while the sample is not full', z3.Implies(z3.Not(full), z3.And(kept, v.get(h) == x)))
        ob(E, s2, 'a value is appended without touching the others', z3.Implies(z3.And(z3.Not(full), inr, j < h), v.get(j) == f(j)))
        ob(E, s2, 'when the sample is full there is one draw', z3.Implies(full, len(d) == 1) if len(d) != 1 else z3.BoolVal(True))
        if d:
            lo, hi, y = d[-1][1:]
            ob(E, s2, 'the draw is over all values seen, the new one included', z3.Implies(full, hi - lo == c + 1))
            ob(E, s2, 'the value is kept with probability asked/seen: exactly when the draw falls below the number asked for', z3.Implies(full, kept == (y - lo < n)))
            ob(E, s2, 'a value that is kept replaces the one at the position drawn', z3.Implies(z3.And(full, kept, inr), v.get(j) == z3.If(j == y - lo, x, f(j))))
        ob(E, s2, 'a value that is not kept leaves the sample as it is', z3.Implies(z3.And(z3.Not(kept), inr), v.get(j) == f(j)))
    Run(E, LBL + 'sampling').go(st, 'vc_sampling', [p, s], post)
def u_samples(E):
    st = State(); p, q, c, n, h, f = any_state(E, st); j = z3.Int('j')
    def post(s2, r):
        ob(E, s2, 'the result is the sample', isinstance(r, Ptr) and r.obj == q['vec'].obj and r.off == q['vec'].off)
        v = E.vec(s2, q['vec']); ob(E, s2, 'with its size and values', z3.And(zi(v.n) == h, v.get(j) == f(j)))
    Run(E, LBL + 'samples').go(st, 'vc_samples', [p], post)
def u_lemma(E):
    """the induction step: after t values each is in the sample with probability k/t; the step keeps it so"""
    E.curfn = LBL + 'sampling'; st = State(); t, k = z3.Reals('t k'); st.pc += [t >= k, k >= 1]
    ob(E, st, 'an old value stays with probability k/(t+1)', (k / t) * (1 - (k / (t + 1)) * (1 / k)) == k / (t + 1), 'lemma'); E.covers = 1; E.verified = []
class PROP(Property):
    id = 'C34'; budget = 120
    assumptions = ['folly::Random::rand64(bound) is uniform over 0..bound-1 and independent of earlier draws', 'fewer than 2^64-1 values are sampled', 'the special members of the element type do what their names say; std::vector by contract', LOGNOTE]
    def units(self):
        P = engine(); return [('constructor', P, u_ctor), ('sampling', P, u_sampling), ('samples', P, u_samples), ('lemma', P, u_lemma)]
    def search(self, failed, tier):
        prog = build_replay([VERIF + '/harness/reservoir_search.cpp'], 'reservoir_search', ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), ('-lglog', '-lgflags', '-lpthread'))
        return run_search(prog, ['6' if tier == 'thorough' else '5'], timeout=300)
