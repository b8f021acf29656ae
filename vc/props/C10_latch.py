from monitor import *
LBL = 'nebula::concurrent::Latch::'
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/latch_driver.cpp', SRC + 'concurrent/Latch.cpp', SRC + 'concurrent/Barrier.cpp'], 'latch')
    return _js['m']
class LatchMon(Monitor):
    def new(self, st):
        p = Monitor.new(self, st); st.rw(p.obj).g['decs'] = z3.IntVal(0); return p
    def rely(self, st, g, new): return [new['counter'] <= g['last']['counter']] if g['last'] else []
    def guarantee(self, st, g, snap, cur):
        E = self.E; c, s = cur['counter'], snap['counter']
        ob(E, st, 'a critical section leaves the counter alone or takes exactly one from a counter that is not zero', z3.Or(B(c == s), z3.And(s >= 1, c == s - 1)), 'guarantee')
        g['decs'] = g['decs'] + ite(c == s, 0, 1)
        if not g['nall']: g['due'] = z3.Or(g['due'], z3.And(B(c == 0), B(s != 0)))
    def blocked(self, st, g, cur): return B(cur['counter'] != 0)
    def frame(self, st): return st.mem[self.oid].g['decs'], st.mem[self.oid].g['due']
    def same(self, st, fr):
        g = st.mem[self.oid].g
        return [('the number of decrements', g['decs'] == fr[0]), ('the pending notification', g['due'] == fr[1])]
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); st = State(); q = lambda n: E.u(st, quiet(E, st, 'vc_latch_' + n)[1])
        E.lsz = q('size'); E.loff = {n: q(n) for n in ('counter', 'lock', 'cond')}
        install(E); abort_handler(E)
        return E
    return mk
def mon(E): return LatchMon(E, E.lsz, E.loff['lock'], E.loff['cond'], {'counter': E.loff['counter']})
def run(E, name, post, exc=None):
    st = State(); m = mon(E); p = m.new(st); E.curfn = LBL + name; n = x = 0
    outs = E.exec_fn(st, E.mod.find('vc_latch_' + name), [p])
    for s2, r in outs:
        E.curfn = LBL + name; E.curloc = ''; g = s2.mem[p.obj].g
        ob(E, s2, f'{name}: the lock is free again', not g['held'], 'lock')
        ob(E, s2, f'{name}: whoever brings the counter to zero wakes every waiter', z3.Not(g['due']), 'wake-up')
        if isinstance(r, Exc):
            x += 1
            if exc is None: ob(E, s2, f'{name} does not throw', False)
            else: exc(s2, g, r)
        else: n += 1; post(s2, g, r)
    if not any(o.status != 'discharged' for o in E.obligs): ob(E, st, f'{name} can return' + (' and can throw' if exc else ''), n > 0 and (exc is None or x > 0))
    E.covers = getattr(E, 'covers', 0) + 1; E.verified = sorted(set(getattr(E, 'verified', []) + [LBL + name]))
def down_exc(E, nm):
    def f(s2, g, r):
        ob(E, s2, nm + ' throws std::runtime_error', 'runtime_error' in str(r.ty)); ob(E, s2, nm + ' throws only when the counter is zero', B(g['last']['counter'] == 0)); ob(E, s2, nm + ' changes nothing when it throws', g['decs'] == 0)
    return f
def u_down(E):
    run(E, 'down', lambda s2, g, r: ob(E, s2, 'down takes exactly one from the counter', g['decs'] == 1), down_exc(E, 'down'))
def u_downwait(E):
    def post(s2, g, r):
        ob(E, s2, 'downWait takes exactly one from the counter', g['decs'] == 1); ob(E, s2, 'downWait returns only when the counter is zero', B(g['last']['counter'] == 0))
    run(E, 'downWait', post, down_exc(E, 'downWait'))
def u_wait(E):
    def post(s2, g, r):
        ob(E, s2, 'wait does not change the counter', g['decs'] == 0); ob(E, s2, 'wait returns only when the counter is zero', B(g['last']['counter'] == 0))
    run(E, 'wait', post)
def u_ready(E):
    def post(s2, g, r):
        ob(E, s2, 'isReady does not change the counter', g['decs'] == 0)
        ob(E, s2, 'isReady has read the counter under the lock', g['last'] is not None)
        if g['last'] is not None: ob(E, s2, 'isReady is true exactly when the counter is zero', E.boolv(r) == (g['last']['counter'] == 0) if not isinstance(E.boolv(r), bool) else B(g['last']['counter'] == 0) == z3.BoolVal(E.boolv(r)))
    run(E, 'isReady', post)
def u_ctor(E):
    st = State(); p = obj(E, st, 'latch', E.lsz); n = E.sym(st, 64, 'n', signed=False); got = set()
    for s2, r in E.exec_fn(st, E.mod.find('vc_latch_ctor'), [p, n]):
        E.curfn = LBL + 'Latch'
        got.add(isinstance(r, Exc))
        if isinstance(r, Exc): ob(E, s2, 'the constructor throws std::invalid_argument, only for zero', z3.And(n.t == 0, B('invalid_argument' in str(r.ty))))
        else:
            c = E.load(s2, Ptr(p.obj, E.loff['counter']), 'i64', 8)
            ob(E, s2, 'a latch starts with the given counter, not zero', z3.And(E.u(s2, c) == n.t, n.t != 0))
    ob(E, st, 'the constructor has both outcomes', got == {True, False})
    E.covers = getattr(E, 'covers', 0) + 1; E.verified = sorted(set(getattr(E, 'verified', []) + [LBL + 'Latch']))
class PROP(Property):
    id = 'C10'
    budget = 100
    assumptions = [MLOCK, 'the rely: other threads change the counter only through Latch (each obeys the proved guarantee), so between two critical sections of a thread it can only go down', 'termination of wait: a woken thread is eventually scheduled (fair scheduler)']
    def units(self):
        mk = engine()
        return [(n, mk, f) for n, f in (('constructor', u_ctor), ('down', u_down), ('downWait', u_downwait), ('wait', u_wait), ('isReady', u_ready))]
    def search(self, failed, tier):
        n = [300 if tier == 'quick' else 3000]
        for ex in (('-fsanitize=thread',), ('-DDELAY',)):
            v, out = search_prog(['concurrent/Latch.cpp', 'concurrent/Barrier.cpp'], 'latch_search', n, extra=ex + (), timeout=120)(self, failed, tier)
            if v: break
        return v, out
