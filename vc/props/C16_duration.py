from fpreal import *
T = 'nebula::time::TscHelper::'; D = 'nebula::time::Duration::'; M64 = 1 << 64
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/clock_driver.cpp'] + [SRC + s for s in ('time/Duration.cpp', 'time/detail/TscHelper.cpp', 'time/WallClock.cpp', 'base/SlowOpTracker.cpp', 'thread/NamedThread.cpp')], 'clock')
    return _js['m']
SCALE = {'Sec': 10**6, 'MSec': 10**3, 'USec': 1}; EPS = F(1, 1 << 49)
def u64(E, st, nm, hi=M64 - 1): v = E.sym(st, 64, nm, signed=False); st.pc.append(z3.And(v.t >= 0, v.t <= hi)); E.set_rg(st, v.t, 0, hi); return IV(64, v.t, 0, hi)
def setup(E, conv=True):
    """the time stamp counter never goes backwards; every read is recorded"""
    def asm(E, st, a, f, i):
        t = u64(E, st, fresh_name('tick'), (1 << 62) - 1)
        if st.g.get('ticks'): st.pc.append(t.t >= st.g['ticks'][-1])
        st.g['ticks'] = st.g.get('ticks', ()) + (t.t,)
        hi, lo = z3.Int(fresh_name('edx')), z3.Int(fresh_name('eax')); st.pc.append(z3.And(t.t == hi * (1 << 32) + lo, lo >= 0, lo < 1 << 32, hi >= 0, hi < 1 << 32))
        E.set_rg(st, hi, 0, (1 << 32) - 1); E.set_rg(st, lo, 0, (1 << 32) - 1)
        if 'rdtsc' not in (f.get('asm') or 'rdtsc'): raise Unsupported('another instruction')
        return Agg([IV(32, lo, 0, (1 << 32) - 1), IV(32, hi, 0, (1 << 32) - 1)])
    E.on_first('asm', asm)
    E.on_first(r'__cxa_guard_acquire', lambda E, st, a, f, i: IV(32, 1)); E.on_first(r'__cxa_guard_release', lambda E, st, a, f, i: E.store(st, a[0], IV(8, 1), 'i8', 1))
    def rt(E, st, a, f, i):
        ob(E, st, 'the real-time clock is asked', E.s(st, a[0]) == 0)
        s, n = z3.Int(fresh_name('sec')), z3.Int(fresh_name('nsec')); st.pc.append(z3.And(s >= 0, s < 1 << 40, n >= 0, n < 10**9)); E.set_rg(st, s, 0, (1 << 40) - 1); E.set_rg(st, n, 0, 10**9 - 1)
        E.store(st, a[1], IV(64, s, 0, (1 << 40) - 1), 'i64', 8); E.store(st, Ptr(a[1].obj, a[1].off + 8), IV(64, n, 0, 10**9 - 1), 'i64', 8); st.g['rt'] = (s, n); return IV(32, 0)
    E.on_first('clock_gettime', rt)
    E.q = lambda n: E.u(State(), quiet(E, State(), 'vc_' + n)[1])
def engine(fp=False):
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E)
        if fp: FpReal(E)
        return E
    return mk
def done(E, *v): E.covers = getattr(E, 'covers', 0) + 1; E.verified = sorted(set(getattr(E, 'verified', [])) | set(v))
# ---- Duration: abstraction = (paused, elapsed(now) = paused ? acc : acc + now - start, mod 2^64)
def new_dur(E, st, paused):
    p = obj(E, st, 'duration', E.q('dur_size')); c = st.rw(p.obj).cells; a, s = u64(E, st, 'acc0'), u64(E, st, 'start0')
    c[E.q('dur_acc')] = (8, a); c[E.q('dur_start')] = (8, s); c[E.q('dur_paused')] = (1, IV(8, 1 if paused else 0)); return p, a.t, s.t
def fields(E, st, p):
    E.quiet += 1
    try: ld = lambda n, w: E.load(st, Ptr(p.obj, E.q('dur_' + n)), 'i%d' % w, w // 8); return E.u(st, ld('paused', 8)), E.u(st, ld('acc', 64)), E.u(st, ld('start', 64))
    finally: E.quiet -= 1
def congr(x, y): return (x - y) % M64 == 0
def u_dur(E):
    E.on_first(T + r'get\(\)', lambda E, st, a, f, i: obj(E, st, 'tsc', E.q('tsc_size')))
    NOW = z3.Int('NOW')
    def chk(st, p, what, paused, base, t):
        """paused, and elapsed(now) = base (+ now - t for one of the ticks t read, if running)"""
        f = fields(E, st, p); ob(E, st, f'{what}: isPaused is {paused}', f[0] == (1 if paused else 0))
        if paused: ob(E, st, f'{what}: the elapsed ticks', z3.Or([congr(f[1], x) for x in base]))
        else: ob(E, st, f'{what}: the elapsed ticks at any later time', z3.Or([congr(f[1] + NOW - f[2], x + NOW - y) for x in base for y in t]))
    def run(root, paused, args, post):
        E.curfn = D + root; st = State(); p = a = s = None
        if paused is None: p = obj(E, st, 'duration', E.q('dur_size'))
        else: p, a, s = new_dur(E, st, paused)
        n = 0
        for s2, r in E.exec_fn(st, E.mod.find('vc_dur_' + root), [p] + args):
            E.curfn = D + root; E.curloc = ''; n += 1
            if isinstance(r, Exc): ob(E, s2, 'no exception', False); continue
            post(s2, p, a, s, r, list(s2.g.get('ticks', ())))
        ob(E, st, f'{root} returns', n > 0)
    for b in (True, False):
        for root, pre in (('ctor', None), ('reset', True), ('reset', False)):
            run(root, pre, [b], lambda st, p, a, s, r, t: chk(st, p, f'{root}({b})', b, [z3.IntVal(0)], t))
    for root, pre in (('ctor0', None), ('reset0', True), ('reset0', False)): run(root, pre, [], lambda st, p, a, s, r, t: chk(st, p, f'{root}()', False, [z3.IntVal(0)], t))
    run('pause', False, [], lambda st, p, a, s, r, t: chk(st, p, 'pause while running', True, [a + x - s for x in t], t))
    run('pause', True, [], lambda st, p, a, s, r, t: chk(st, p, 'pause while paused', True, [a], t))
    run('resume', True, [], lambda st, p, a, s, r, t: chk(st, p, 'resume while paused', False, [a], t))
    run('resume', False, [], lambda st, p, a, s, r, t: chk(st, p, 'resume while running', False, [a], [s]))
    for b in (True, False): run('isPaused', b, [], lambda st, p, a, s, r, t: (ob(E, st, f'isPaused while {"paused" if b else "running"}', E.boolv(r) == z3.BoolVal(b)), chk(st, p, 'isPaused changes nothing', b, [a], [s])))
    def mk(u):
        def conv(E, st, a, f, i): v = u64(E, st, fresh_name('conv')); st.g['conv'] = st.g.get('conv', ()) + ((u, E.u(st, a[0]), v.t),); return v
        return conv
    for u in SCALE: E.on_first(T.replace('::', '::') + f'ticksToDurationIn{u}\\(unsigned long\\)', mk(u))
    for u in SCALE:
        for b in (True, False):
            def post(st, p, a, s, r, t):
                cs = [c for c in st.g.get('conv', ()) if c[0] == u]; el = [a] if b else [a + x - s for x in t]
                ob(E, st, f'elapsedIn{u} while {"paused" if b else "running"}: the elapsed ticks in {u}', z3.Or([z3.And(congr(c[1], e), c[2] == E.u(st, r)) for c in cs for e in el]))
                chk(st, p, f'elapsedIn{u} changes nothing', b, [a], [s])
            run(u, b, [], post)
    done(E, *[D + x for x in ('Duration', 'reset', 'pause', 'resume', 'isPaused', 'elapsedInSec', 'elapsedInMSec', 'elapsedInUSec')])
# ---- TscHelper
def singleton(E, st):
    """the constructed helper: factors within 2^-49 of 1/(N * scale) for the N ticks per microsecond (what calibrate establishes)"""
    p = obj(E, st, 'tsc', E.q('tsc_size')); N = u64(E, st, 'N', 10**7); st.pc.append(N.t >= 1); c = st.rw(p.obj).cells
    for u, k in SCALE.items(): c[E.q('tsc_f' + u)] = (8, E.fr.mk(Q(F(1, k), ((E.fr.atom(N.t), -1),), EPS)))
    f = u64(E, st, 'first', (1 << 62) - 1); c[E.q('tsc_first')] = (8, f)
    s, n = z3.Int('st_sec'), z3.Int('st_nsec'); st.pc.append(z3.And(s >= 0, s < 1 << 40, n >= 0, n < 10**9)); E.set_rg(st, s, 0, (1 << 40) - 1); E.set_rg(st, n, 0, 10**9 - 1)
    o = E.q('tsc_real'); c[o] = (8, IV(64, s, 0, (1 << 40) - 1)); c[o + 8] = (8, IV(64, n, 0, 10**9 - 1)); st.rw(p.obj).ro = True
    E.on_first(T + r'get\(\)', lambda E, st, a, f, i: p); return p, N.t, f.t, s, n
def close(E, st, u, r, ticks, N):
    """r is ticks / (N * scale), rounded to the nearest (truncated for microseconds), up to one part in 2^48"""
    X = E.fr.real(st, Q(F(1, SCALE[u]), ((E.fr.atom(ticks), 1), (E.fr.atom(N), -1)))); e = z3.RealVal('1/281474976710656'); h = z3.RealVal('1/2') if u != 'USec' else z3.RealVal(0); R = z3.ToReal(r)
    return z3.And(R <= X * (1 + e) + h + e, R > X * (1 - e) + h - e - 1)
def u_conv(E):
    for u in SCALE:
        E.curfn = T + 'ticksToDurationIn' + u; st = State(); p, N, first, s, n = singleton(E, st); t = u64(E, st, 'ticks', (1 << 62) - 1); k = 0
        for s2, r in E.exec_fn(st, E.mod.find('vc_tsc_' + u), [t]):
            E.curfn = T + 'ticksToDurationIn' + u; E.curloc = ''; k += 1
            ob(E, s2, f'ticksToDurationIn{u} is the number of ticks over the ticks per unit', not isinstance(r, Exc) and close(E, s2, u, E.u(s2, r), t.t, N))
        ob(E, st, 'returns', k > 0)
    done(E, *[T + 'ticksToDurationIn' + u for u in SCALE])
def u_point(E):
    START = {'Sec': lambda s, n: s, 'MSec': lambda s, n: s * 1000 + n / 1000000, 'USec': lambda s, n: s * 1000000 + n / 1000}
    for u in SCALE:
        def mk(u):
            def conv(E, st, a, f, i): v = u64(E, st, fresh_name('conv'), (1 << 62) - 1); st.g['conv'] = st.g.get('conv', ()) + ((u, E.u(st, a[0]), v.t),); return v
            return conv
        E.on_first(T + f'ticksToDurationIn{u}\\(unsigned long\\)', mk(u))
    for u in SCALE:
        lbl = E.curfn = T + 'tickToTimePointIn' + u; st = State(); p, N, first, s, n = singleton(E, st); k = 0
        for nm, g in E.mod.globals.items():
            if not g.get('decl') and not g.get('const') and 'tickToTimePoint' in g.get('dem', nm): q = E.global_ptr(st, nm); o = st.rw(q.obj); o.lazy = 'zero'; o.cells = {}; o.ro = False
        t = u64(E, st, 'tick', (1 << 62) - 1); st.pc.append(t.t >= first); t2 = u64(E, st, 'tick2', (1 << 62) - 1); st.pc.append(t2.t >= first); w = START[u](s, n)
        def ok(st, r, t, k0): cs = st.g.get('conv', ())[k0:]; return z3.Or([z3.And(c[0] == u, congr(c[1], t.t - first), E.u(st, r) == w + c[2]) for c in cs])
        for s2, r in E.exec_fn(st, E.mod.find('vc_tsc_p' + u), [t]):
            E.curfn = lbl; E.curloc = ''; ob(E, s2, f'tickToTimePointIn{u} is the start time plus the time since then (first call)', not isinstance(r, Exc) and ok(s2, r, t, 0)); k0 = len(s2.g.get('conv', ()))
            for s3, r3 in E.exec_fn(s2, E.mod.find('vc_tsc_p' + u), [t2]): k += 1; E.curfn = lbl; E.curloc = ''; ob(E, s3, f'tickToTimePointIn{u} is the start time plus the time since then (later calls)', not isinstance(r3, Exc) and ok(s3, r3, t2, k0))
        ob(E, st, 'returns', k > 0)
    done(E, *[T + 'tickToTimePointIn' + u for u in SCALE])
def u_read(E):
    lbl = E.curfn = T + 'readTsc'; st = State(); E.on_first(T + r'get\(\)', lambda E, st, a, f, i: obj(E, st, 'tsc', E.q('tsc_size'))); k = 0
    for s2, r in E.exec_fn(st, E.mod.find('vc_tsc_read'), []): k += 1; E.curfn = lbl; E.curloc = ''; ob(E, s2, 'readTsc is the value of the counter, all 64 bits', z3.Or([E.u(s2, r) == t for t in s2.g['ticks']]))
    ob(E, st, 'returns', k > 0); done(E, lbl, T + 'readTscImpl')
def calibrated(E, st, p, what, D_, US):
    """each factor is 1/(N*scale), N = floor(ticks / microseconds) for the measured interval"""
    for u, k in SCALE.items():
        E.quiet += 1
        try: v = E.load(st, Ptr(p.obj, E.q('tsc_f' + u)), 'double', 8)
        finally: E.quiet -= 1
        q = E.fr.q(v); good = q.d == 0 and abs(q.c * k - 1) <= F(1, 1 << 50) and (1 + q.eps) * (1 + F(1, 1 << 50)) - 1 <= EPS and len(q.atoms) == 1 and q.atoms[0][1] == -1
        goal = False
        if good:
            N = E.fr.terms[q.atoms[0][0]]
            goal = z3.And(N.arg(0) == D_, N.arg(1) == US, US > 0) if z3.is_app(N) and N.decl().kind() == z3.Z3_OP_IDIV else N == D_ / US
        ob(E, st, f'{what}: the {u} factor is the inverse of the ticks per unit', goal)
def clocks(E):
    def mono(E, st, a, f, i):
        v = u64(E, st, fresh_name('mono'), (1 << 62) - 1); k = st.g.get('mono', ()); st.g['mono'] = k + (v.t,)
        if k: st.pc.append(v.t >= k[-1] + st.g.get('slept', 0) * 1000)
        st.g['slept'] = 0; return IV(64, v.t, 0, (1 << 62) - 1)
    E.on_first(r'std::chrono::_V2::steady_clock::now\(\)', mono)
    def usleep(E, st, a, f, i): st.g['slept'] = st.g.get('slept', 0) + E.u(st, a[0]); return IV(32, 0)
    E.on_first('usleep', usleep)
def u_cal(E):
    lbl = E.curfn = T + 'calibrate'; clocks(E); st = State(); p = obj(E, st, 'tsc', E.q('tsc_size')); c = st.rw(p.obj).cells; k = 0
    f0 = u64(E, st, 'first', (1 << 60)); c[E.q('tsc_first')] = (8, f0); m0 = u64(E, st, 'mono0', (1 << 60)); c[E.q('tsc_mono')] = (8, m0); st.g['mono'] = (m0.t,); st.g['slept'] = 10000; st.g['ticks'] = (f0.t,)
    # the counter runs at 1 MHz at least
    asm = E.handlers[[rx.pattern for rx, h in E.handlers].index('asm')][1]
    def asm2(E, st, a, f, i):
        r = asm(E, st, a, f, i)
        if len(st.g['mono']) > 1: us = (st.g['mono'][-1] - m0.t) / 1000; st.pc.append(st.g['ticks'][-1] - f0.t >= us); st.g['us'] = us
        return r
    E.on_first('asm', asm2)
    for s2, r in E.exec_fn(st, E.mod.find('vc_tsc_calibrate'), [p]):
        E.curfn = lbl; E.curloc = ''; k += 1
        calibrated(E, s2, p, 'calibrate', s2.g['ticks'][-1] - f0.t, (s2.g['mono'][-1] - m0.t) / 1000)
        for n, off in (('first', 'tsc_first'),): ob(E, s2, 'calibrate keeps the origin', E.u(s2, E.load(s2, Ptr(p.obj, E.q(off)), 'i64', 8)) == f0.t)
    ob(E, st, 'returns', k > 0); done(E, lbl)
def u_ctor(E):
    lbl = E.curfn = T + 'TscHelper'; clocks(E); st = State(); p = obj(E, st, 'tsc', E.q('tsc_size')); k = 0
    def asm2(E, st, a, f, i, h=E.handlers[[rx.pattern for rx, h in E.handlers].index('asm')][1]):
        r = h(E, st, a, f, i); m, t = st.g.get('mono', ()), st.g['ticks']
        if len(t) > 1 and len(m) > 1: us = (m[-1] - m[0]) / 1000; st.pc.append(t[-1] - t[0] >= us)
        return r
    E.on_first('asm', asm2)
    E.on_first(r'nebula::thread::NamedThread::NamedThread<.*', lambda E, st, a, f, i: st.events.append(('thread',)))
    E.on_first(r'std::thread::detach\(\)', lambda E, st, a, f, i: st.events.append(('detach',)))
    E.on_first(r'(nebula::thread::NamedThread|std::thread)::~.*', lambda E, st, a, f, i: ob(E, st, 'the calibrating thread is detached before its handle goes', ('detach',) in st.events))
    for s2, r in E.exec_fn(st, E.mod.find('vc_tsc_ctor'), [p]):
        E.curfn = lbl; E.curloc = ''; k += 1; t, m = s2.g['ticks'], s2.g['mono']
        ob(E, s2, 'the constructor does not throw', not isinstance(r, Exc))
        ld = lambda n, d=0: E.u(s2, E.load(s2, Ptr(p.obj, E.q(n) + d), 'i64', 8))
        ob(E, s2, 'the origin is the first tick read', ld('tsc_first') == t[0]); ob(E, s2, 'the start time is the real time at construction', z3.And(ld('tsc_real') == s2.g['rt'][0], ld('tsc_real', 8) == s2.g['rt'][1]))
        calibrated(E, s2, p, 'constructor', t[-1] - t[0], (m[-1] - m[0]) / 1000)
    ob(E, st, 'returns', k > 0); done(E, lbl)
def u_get(E):
    lbl = E.curfn = T + 'get'; st = State(); k = 0
    E.on_first(T + r'TscHelper\(\)', lambda E, st, a, f, i: st.events.append(('made', a[0].obj, a[0].off)))
    for nm, g in E.mod.globals.items():
        if not g.get('decl') and not g.get('const') and 'TscHelper::get()' in g.get('dem', nm): q = E.global_ptr(st, nm); o = st.rw(q.obj); o.lazy = 'zero'; o.cells = {}; o.ro = False
    for s2, r in E.exec_fn(st, E.mod.find('vc_tsc_get'), []):
        E.curfn = lbl; E.curloc = ''; ob(E, s2, 'the helper is constructed before its first use', s2.events == [('made', r.obj, r.off)])
        for s3, r3 in E.exec_fn(s2, E.mod.find('vc_tsc_get'), []): k += 1; E.curfn = lbl; E.curloc = ''; ob(E, s3, 'it is constructed once and is always the same', s3.events == [('made', r3.obj, r3.off)])
    ob(E, st, 'returns', k > 0); done(E, lbl)
class PROP(Property):
    id = 'C16'
    budget = 200
    assumptions = ['the time stamp counter never goes backwards, is the same on all cores, runs at 1 MHz..10 THz and stays below 2^62', 'floating point by the standard model: each operation is exact up to a relative error of 2^-53', 'std::chrono::steady_clock does not go backwards and advances while the process sleeps', 'recalibration by the background thread replaces the three factors one by one: a conversion uses one factor only']
    def units(self):
        return [('Duration', engine(), u_dur), ('readTsc', engine(), u_read), ('conversions', engine(True), u_conv), ('time points', engine(True), u_point), ('calibrate', engine(True), u_cal), ('constructor', engine(True), u_ctor), ('get', engine(), u_get)]
    search = search_prog(['time/Duration.cpp', 'time/detail/TscHelper.cpp', 'time/WallClock.cpp', 'base/SlowOpTracker.cpp', 'thread/NamedThread.cpp'], 'clock_search')
