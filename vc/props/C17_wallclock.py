from fpreal import *
import C16_duration as d
W = 'nebula::time::WallClock::'
def u_slow(E):
    for u, f in (('Sec', lambda s, n: s), ('MSec', lambda s, n: s * 1000 + n / 1000000), ('USec', lambda s, n: s * 1000000 + n / 1000)):
        lbl = E.curfn = W + {'Sec': 'slowNowInSec', 'MSec': 'slowNowInMilliSec', 'USec': 'slowNowInMicroSec'}[u]; st = State(); k = 0
        for s2, r in E.exec_fn(st, E.mod.find('vc_wc_slow' + u), []):
            k += 1; E.curfn = lbl; E.curloc = ''; ob(E, s2, f'{lbl.split("::")[-1]} is the real time in its unit, rounded down', not isinstance(r, Exc) and E.s(s2, r) == f(*s2.g['rt']))
        ob(E, st, 'returns', k > 0); d.done(E, lbl)
def u_fast(E):
    E.on_first(d.T + r'get\(\)', lambda E, st, a, f, i: obj(E, st, 'tsc', E.q('tsc_size')))
    for u in d.SCALE:
        def mk(u):
            def conv(E, st, a, f, i): v = d.u64(E, st, fresh_name('point'), (1 << 62) - 1); st.g['pt'] = st.g.get('pt', ()) + ((u, E.u(st, a[0]), v.t),); return v
            return conv
        E.on_first(d.T + f'tickToTimePointIn{u}\\(unsigned long\\)', mk(u))
    for u in d.SCALE:
        lbl = E.curfn = W + {'Sec': 'fastNowInSec', 'MSec': 'fastNowInMilliSec', 'USec': 'fastNowInMicroSec'}[u]; st = State(); k = 0
        for s2, r in E.exec_fn(st, E.mod.find('vc_wc_fast' + u), []):
            k += 1; E.curfn = lbl; E.curloc = ''; ob(E, s2, f'{lbl.split("::")[-1]} is the time point of a tick read during the call', not isinstance(r, Exc) and z3.Or([z3.And(x[0] == u, x[2] == E.s(s2, r), z3.Or([x[1] == t for t in s2.g.get('ticks', ())])) for x in s2.g.get('pt', ())]))
        ob(E, st, 'returns', k > 0); d.done(E, lbl)
def u_op(E):
    """the verdict is about the time since construction, never negative even if the clock is set back"""
    S = 'nebula::SlowOpTracker::'
    def now(E, st, a, f, i): v = z3.Int(fresh_name('now')); st.pc.append(z3.And(v >= 0, v < 1 << 62)); E.set_rg(st, v, 0, (1 << 62) - 1); st.g['now'] = st.g.get('now', ()) + (v,); return IV(64, v, 0, (1 << 62) - 1)
    E.on_first(W + r'fastNowInMilliSec\(\)', now)
    flag = E.s(State(), quiet(E, State(), 'vc_flag')[1])
    E.curfn = S + 'SlowOpTracker'; st = State(); p = obj(E, st, 'tracker', E.q('so_size')); k = 0
    for s2, r in E.exec_fn(st, E.mod.find('vc_so_ctor'), [p]):
        k += 1; E.curfn = S + 'SlowOpTracker'; E.curloc = ''; ob(E, s2, 'tracking starts at construction', z3.Or([E.s(s2, E.load(s2, Ptr(p.obj, E.q('so_start')), 'i64', 8)) == t for t in s2.g['now']]))
    ob(E, st, 'returns', k > 0)
    for root, arg in (('slow', True), ('slow0', False)):
        E.curfn = S + 'slow'; st = State(); p = obj(E, st, 'tracker', E.q('so_size')); s0 = E.sym(st, 64, 'start'); st.pc.append(z3.And(s0.t >= 0, s0.t < 1 << 62)); E.set_rg(st, s0.t, 0, (1 << 62) - 1); th = E.sym(st, 64, 'threshold'); k = 0
        st.rw(p.obj).cells[E.q('so_start')] = (8, IV(64, s0.t, 0, (1 << 62) - 1)); st.rw(p.obj).cells[E.q('so_dur')] = (8, E.sym(st, 64, 'dur0'))
        fl = E.s(st, quiet(E, st, 'vc_flag')[1])
        for s2, r in E.exec_fn(st, E.mod.find('vc_so_' + root), [p] + ([th] if arg else [])):
            k += 1; E.curfn = S + 'slow'; E.curloc = ''; n = s2.g['now']
            dur = E.s(s2, E.load(s2, Ptr(p.obj, E.q('so_dur')), 'i64', 8)); limit = z3.If(th.t > 0, th.t, fl) if arg else fl
            ob(E, s2, 'the measured duration is the time since construction, at least 0', z3.Or([dur == z3.If(t < s0.t, 0, t - s0.t) for t in n]))
            ob(E, s2, 'slow exactly when the duration exceeds the given threshold, or the configured one if none is given', E.boolv(r) == (dur > limit))
            ob(E, s2, 'the start is kept', E.s(s2, E.load(s2, Ptr(p.obj, E.q('so_start')), 'i64', 8)) == s0.t)
        ob(E, st, 'returns', k > 0)
    d.done(E, S + 'SlowOpTracker', S + 'slow')
class PROP(Property):
    id = 'C17'
    budget = 100
    assumptions = ['clock_gettime gives a time between 1970 and the year 36000 with 0 <= nanoseconds < 10^9', 'the time points of TscHelper are behind their contract, proved by C16']
    def units(self): mk = d.engine(); return [('slow clocks', mk, u_slow), ('fast clocks', mk, u_fast), ('SlowOpTracker', mk, u_op)]
    search = d.PROP.search
