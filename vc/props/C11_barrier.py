from monitor import *
LBL = 'nebula::concurrent::Barrier::'
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/latch_driver.cpp', SRC + 'concurrent/Latch.cpp', SRC + 'concurrent/Barrier.cpp'], 'latch')
    return _js['m']
FN = r'std::function<void \(\)>'
def setup_fn(E):
    """std::function<void()>: a ghost value, None when empty"""
    def get(st, p):
        g = st.mem[p.obj].g.get(('lt', p.off))
        E.oblige(st, g is not None, 'lifetime', 'a live std::function exists there')
        if g is None: raise DropPath()
        return g[1]
    def put(st, p, v): E.check_access(st, p, E.fsz, 'std::function'); st.rw(p.obj).g[('lt', p.off)] = ('function', v)
    E.fget, E.fput = get, put
    def ctor0(E, st, a, f, i): put(st, a[0], None)
    def mv(E, st, a, f, i): v = get(st, a[1]); put(st, a[1], None); put(st, a[0], v); return a[0]
    def cp(E, st, a, f, i): put(st, a[0], get(st, a[1])); return a[0]
    def asg0(E, st, a, f, i): get(st, a[0]); put(st, a[0], None); return a[0]
    def sw(E, st, a, f, i): x, y = get(st, a[0]), get(st, a[1]); put(st, a[0], y); put(st, a[1], x)
    def dt(E, st, a, f, i): get(st, a[0]); st.rw(a[0].obj).g[('lt', a[0].off)] = None
    E.on_first(FN + r'::function\((std::nullptr_t|decltype\(nullptr\))?\)', ctor0)
    E.on_first(FN + r'::(function|operator=)\(' + FN + r'&&\)', mv); E.on_first(FN + r'::(function|operator=)\(' + FN + r' const&\)', cp)
    E.on_first(FN + r'::operator=\((std::nullptr_t|decltype\(nullptr\))\)', asg0); E.on_first(FN + r'::swap\(' + FN + r'&\)', sw); E.on_first(FN + r'::~function\(\)', dt)
    E.on_first(FN + r'::operator bool\(\) const', lambda E, st, a, f, i: get(st, a[0]) is not None)
    E.on_first(r'bool std::operator!=<.*>\(' + FN + r' const&, (std::nullptr_t|decltype\(nullptr\))\)', lambda E, st, a, f, i: get(st, a[0]) is not None)
    E.on_first(r'bool std::operator==<.*>\(' + FN + r' const&, (std::nullptr_t|decltype\(nullptr\))\)', lambda E, st, a, f, i: get(st, a[0]) is None)
    def call(E, st, a, f, i):
        v = get(st, a[0])
        E.oblige(st, v is not None, 'precondition', 'an empty std::function is not called')
        g = st.rw(E.monobj).g; g['ncalls'] += 1
        ob(E, st, 'the completion runs inside the critical section, before anybody is let through', g['held'], 'guarantee')
        g['called'] += 1
    E.on_first(FN + r'::operator\(\)\(\) const', call)
class BarMon(Monitor):
    def __init__(self, E, hasfn):
        o = E.boff; Monitor.__init__(self, E, E.bsz, o['lock'], o['cond'], {'ages': o['ages'], 'gen': o['gen']}); self.hasfn = hasfn
    def new(self, st):
        E = self.E; p = Monitor.new(self, st); g = st.rw(p.obj).g; E.monobj = p.obj
        n = E.sym(st, 64, 'N', signed=False); st.pc.append(n.t >= 1); self.N = n.t
        st.rw(p.obj).cells[E.boff['counter']] = (8, n)
        g.update(arr=z3.IntVal(0), trip=z3.BoolVal(False), arrive=z3.BoolVal(False), mygen=z3.IntVal(0), called=0, ncalls=0, tripcalls=z3.BoolVal(True))
        E.fput(st, Ptr(p.obj, E.boff['completion']), 'f' if self.hasfn else None)
        return p
    def rely(self, st, g, new):
        c = [new['ages'] >= 1, new['ages'] <= self.N]
        if g['last']: c.append(z3.Implies(new['gen'] == g['last']['gen'], new['ages'] <= g['last']['ages']))
        return c
    def guarantee(self, st, g, snap, cur):
        E = self.E; a, s, G, H = cur['ages'], snap['ages'], cur['gen'], snap['gen']
        same = z3.And(B(a == s), B(G == H)); arr = z3.And(B(a == s - 1), B(a >= 1), B(G == H)); trip = z3.And(B(s == 1), B(a == self.N), B(G == z3.If(B(H == (1 << 64) - 1), z3.IntVal(0), H + 1)))
        ob(E, st, 'a critical section changes nothing, records one arrival, or - being the last arrival - resets the count and starts the next generation', z3.Or(same, arr, trip), 'guarantee')
        ob(E, st, 'the completion has run exactly once when a generation ends, and at no other time', z3.If(z3.And(B(G != H), B(self.hasfn)), z3.BoolVal(g['called'] == 1), z3.BoolVal(g['called'] == 0)), 'guarantee')
        g['called'] = 0
        g['arr'] = g['arr'] + ite(same, 0, 1); g['mygen'] = ite(arr, H, g['mygen']); g['arrive'] = z3.Or(g['arrive'], arr); g['trip'] = z3.Or(g['trip'], trip)
        if not g['nall']: g['due'] = z3.Or(g['due'], B(G != H))
    def blocked(self, st, g, cur): return z3.And(g['arrive'], B(cur['gen'] == g['mygen']))
    def frame(self, st): g = st.mem[self.oid].g; return {k: g[k] for k in ('arr', 'due', 'mygen', 'arrive', 'trip', 'ncalls')}
    def same(self, st, fr):
        g = st.mem[self.oid].g
        return [(n, B(g[k] == fr[k])) for k, n in (('arr', 'the number of arrivals'), ('due', 'the pending notification'), ('mygen', 'the generation waited for'), ('arrive', 'the arrival'), ('trip', 'the completion of the generation'), ('ncalls', 'the number of completion calls'))]
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); st = State(); q = lambda n: E.u(st, quiet(E, st, n)[1])
        E.bsz = q('vc_bar_size'); E.fsz = q('vc_fn_size'); E.boff = {n: q('vc_bar_' + n) for n in ('counter', 'ages', 'gen', 'lock', 'cond', 'completion')}
        install(E); abort_handler(E); setup_fn(E)
        return E
    return mk
def u_wait(hasfn):
    def u(E):
        st = State(); m = BarMon(E, hasfn); p = m.new(st); nm = f'wait[{"with" if hasfn else "no"} completion]'; E.curfn = LBL + 'wait'; n = 0
        for s2, r in E.exec_fn(st, E.mod.find('vc_bar_wait'), [p]):
            E.curfn = LBL + 'wait'; E.curloc = ''; g = s2.mem[p.obj].g
            if isinstance(r, Exc): ob(E, s2, nm + ' does not throw', False); continue
            n += 1
            ob(E, s2, nm + ': the lock is free again', not g['held'], 'lock'); ob(E, s2, nm + ': whoever completes a generation wakes every waiter', z3.Not(g['due']), 'wake-up')
            ob(E, s2, nm + ': every call counts as exactly one arrival', g['arr'] == 1)
            ob(E, s2, nm + ': returns only after its own generation is complete', z3.Or(g['trip'], z3.And(g['arrive'], B(g['last']['gen'] != g['mygen']))))
            c = s2.mem[p.obj].cells.get(E.boff['counter'])
            ob(E, s2, nm + ': the number of participants stays', c is not None and B(E.u(s2, c[1]) == m.N), 'frame')
            ob(E, s2, nm + ': the completion function stays', s2.mem[p.obj].g.get(('lt', E.boff['completion'])) == ('function', 'f' if hasfn else None), 'frame')
        if not any(o.status != 'discharged' for o in E.obligs): ob(E, st, nm + ' can return', n > 0)
        E.covers = getattr(E, 'covers', 0) + 1; E.verified = [LBL + 'wait']
    return u
def u_ctor(E):
    for has in (True, False):
        st = State(); p = obj(E, st, 'barrier', E.bsz); n = E.sym(st, 64, 'n', signed=False); f = obj(E, st, 'f', E.fsz); E.fput(st, f, 'f' if has else None); got = set(); E.monobj = p.obj
        for s2, r in E.exec_fn(st, E.mod.find('vc_bar_ctor'), [p, n, f]):
            E.curfn = LBL + 'Barrier'; got.add(isinstance(r, Exc))
            if isinstance(r, Exc):
                ob(E, s2, 'the constructor throws std::invalid_argument, only for zero', z3.And(n.t == 0, B('invalid_argument' in str(r.ty))))
                ob(E, s2, 'no function object survives the failed construction', all(k[0] == f.obj for k in lts(s2)), 'lifetime'); continue
            ld = lambda k: E.u(s2, E.load(s2, Ptr(p.obj, E.boff[k]), 'i64', 8))
            ob(E, s2, 'a barrier starts with all its participants missing', z3.And(B(ld('counter') == n.t), B(ld('ages') == n.t), n.t != 0))
            c = s2.mem[p.obj].cells.get(E.boff['gen']); ob(E, s2, 'the generation is initialised', c is not None and not isinstance(c[1], Undef))
            l = lts(s2); ob(E, s2, 'the completion is the given function, held once', l.get((p.obj, E.boff['completion'])) == ('function', 'f' if has else None) and [k for k, v in l.items() if v[1] == 'f'] == ([(p.obj, E.boff['completion'])] if has else []))
        ob(E, st, 'the constructor has both outcomes', got == {True, False})
    E.covers = getattr(E, 'covers', 0) + 2; E.verified = [LBL + 'Barrier']
class PROP(Property):
    id = 'C11'
    budget = 100
    assumptions = [MLOCK, 'the rely: other threads change the barrier only through Barrier::wait (each call obeys the proved guarantee)', 'the completion function returns and does not throw, and does not use the barrier', 'no thread sleeps through 2^64 generations', 'termination of wait: a woken thread is eventually scheduled (fair scheduler)']
    def units(self):
        mk = engine()
        return [('constructor', mk, u_ctor), ('wait with a completion', mk, u_wait(True)), ('wait without a completion', mk, u_wait(False))]
    def search(self, failed, tier):
        n = [300 if tier == 'quick' else 3000]
        for ex in (('-fsanitize=thread',), ('-DDELAY',)):
            v, out = search_prog(['concurrent/Latch.cpp', 'concurrent/Barrier.cpp'], 'latch_search', n, extra=ex + ('-DBARRIER',), timeout=120)(self, failed, tier)
            if v: break
        return v, out
