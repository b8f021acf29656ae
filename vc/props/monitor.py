"""Monitor contracts: an object protected by one mutex and one condition variable. The protected fields are arbitrary (within the invariant
and the rely of the other threads) whenever the lock is taken; each critical section has to respect the guarantee; a thread may only block while
its predicate is false, and whoever makes it true has to notify all. Wait loops are cut at their head (lock held, invariant). Schedules of any
number of threads and any spurious wake-up are covered by the rely."""
from ghost import *
MLOCK = 'std::mutex operations do not fail'
class Monitor:
    """fields {name: offset}: protected by the lock"""
    def __init__(self, E, size, lock, cond, fields):
        self.E = E; self.size = size; self.lock = lock; self.cond = cond; self.fields = fields
    def fresh(self, st, what): raise NotImplementedError
    def rely(self, st, g, new): raise NotImplementedError
    def guarantee(self, st, g, snap, cur): raise NotImplementedError
    def blocked(self, st, g, cur): raise NotImplementedError
    def new(self, st):
        p = obj(self.E, st, 'monitor', self.size); g = st.rw(p.obj).g
        g.update(mon=self, held=False, snap=None, last=None, nall=False, due=z3.BoolVal(False), waited=False)
        g['onload'] = g['onstore'] = self.access; self.oid = p.obj
        return p
    def access(self, E, st, o, off, size, *x):
        if not isinstance(off, int): raise Unsupported('symbolic access to the monitor')
        hit = [n for n, f in self.fields.items() if off < f + 8 and f < off + size]
        if hit and not o.g['held']:
            E.oblige(st, False, 'race', f'{hit[0]} is accessed with the lock held'); raise DropPath()
        return None
    def read(self, st): return {n: self.E.u(st, self.peek(st, o)) for n, o in self.fields.items()}
    def peek(self, st, off):
        c = st.mem[self.oid].cells.get(off)
        if c is None or c[0] != 8: raise Unsupported('a protected field is not a 64-bit integer any more')
        return c[1]
    def acquire(self, st):
        E = self.E; o = st.rw(self.oid)
        ob(E, st, 'the lock is not taken twice by one thread', not o.g['held'], 'deadlock')
        if o.g['held']: raise DropPath()
        new = {}
        for n, off in self.fields.items():
            v = E.sym(st, 64, 'm.' + n, signed=False, exact=False); E.kill_cells(st, o, off, 8); o.cells[off] = (8, v); new[n] = v.t
        for c in self.rely(st, o.g, new): E.assume(st, c)
        o = st.rw(self.oid); o.g['held'] = True; o.g['snap'] = new; o.g['nall'] = False
    def release(self, st):
        E = self.E; o = st.rw(self.oid)
        ob(E, st, 'only a taken lock is released', o.g['held'], 'lock')
        if not o.g['held']: raise DropPath()
        cur = self.read(st)
        self.guarantee(st, o.g, o.g['snap'], cur)
        o = st.rw(self.oid); o.g['held'] = False; o.g['last'] = cur; o.g['snap'] = None
    def block(self, st):
        E = self.E; self.release(st); o = st.rw(self.oid)
        ob(E, st, 'a thread blocks only while the condition it waits for is false (no lost wake-up)', self.blocked(st, o.g, o.g['last']), 'wake-up')
        ob(E, st, 'nobody is left to be woken by the thread that blocks', z3.Not(o.g['due']), 'wake-up')
        self.acquire(st); st.rw(self.oid).g['waited'] = True
    def is_mine(self, st, p, off): return isinstance(p, Ptr) and p.obj == self.oid and p.off == off
def is_mon(E, st, p, which):
    o = st.mem.get(p.obj) if isinstance(p, Ptr) else None
    m = o.g.get('mon') if o else None
    if m is None or p.off != getattr(m, which): raise Unsupported(f'{which} operation on another object')
    return m
class Cut:
    """a wait loop: at its head the lock is as it was on entry and, if held, the fields are arbitrary within the rely"""
    def __init__(self, mon): self.mon = mon
    def shot(self, st): return {k: {f: str(c) for f, c in o.cells.items()} for k, o in st.mem.items() if k != self.mon.oid and o.alive}
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        m = self.mon; held = st.mem[m.oid].g['held']
        if held: m.release(st); m.acquire(st)
        for i in b['insts']:
            if i['op'] != 'phi': continue
            w = tw(i['ty'])
            if not w: raise Unsupported('loop variable of type %s' % i['ty'])
            env[i['id']] = z3.Bool(fresh_name('lb')) if w == 1 else E.rng(st, E.fresh_int(w, 'lv'))
        g = st.rw(m.oid).g; g['waited'] = False
        return dict(held=held, cells=self.shot(st), frame=m.frame(st))
    def back(self, E, f, b, env, st, d, depth):
        m = self.mon; g = st.mem[m.oid].g
        ob(E, st, 'every iteration of a wait loop blocks on the condition variable', g['waited'], 'termination')
        ob(E, st, 'the wait loop keeps the lock as it is', g['held'] == d['held'], 'invariant')
        if g['held']: m.release(st)
        for n, c in m.same(st, d['frame']): ob(E, st, 'the wait loop keeps ' + n, c, 'invariant')
        now = self.shot(st)
        for k, v in d['cells'].items():
            if now.get(k) != v: raise Unsupported(f'a wait loop writes {st.mem[k].name}; it needs a contract')
def install(E):
    E.on_first(r'std::mutex::lock\(\)', lambda E, st, a, f, i: is_mon(E, st, a[0], 'lock').acquire(st))
    E.on_first(r'std::mutex::unlock\(\)', lambda E, st, a, f, i: is_mon(E, st, a[0], 'lock').release(st))
    E.on_first(r'std::mutex::mutex\(\)|std::__mutex_base::__mutex_base\(\)', lambda E, st, a, f, i: None)
    E.on_first(r'std::condition_variable::~?condition_variable\(\)', lambda E, st, a, f, i: None)
    def nall(E, st, a, f, i):
        m = is_mon(E, st, a[0], 'cond'); g = st.rw(m.oid).g
        g['due'] = z3.BoolVal(False)
        if g['held']: g['nall'] = True
    E.on_first(r'std::condition_variable::notify_all\(\)', nall)
    E.on_first(r'std::condition_variable::notify_one\(\)', lambda E, st, a, f, i: is_mon(E, st, a[0], 'cond') and None)
    def wait(E, st, a, f, i):
        m = is_mon(E, st, a[0], 'cond')
        dev = E.load(st, a[1], 'ptr', 8)
        ob(E, st, 'the condition variable is used with the lock that protects the fields', m.is_mine(st, dev, m.lock), 'precondition')
        m.block(st)
    E.on_first(r'std::condition_variable::wait\(std::unique_lock<std::mutex>&\)', wait)
    E.on_first(r'std::__throw_system_error\(int\)', lambda E, st, a, f, i: (E.oblige(st, False, 'lock', 'the lock is used in a valid state'), None)[1])
    def mk(E, f, idx, bid, blocks, env, st):
        m = [o.g['mon'] for o in st.mem.values() if o.g.get('mon')]
        return Cut(m[0]) if m else None
    E.loopspecs.append((re.compile('.*'), mk))
def ite(c, a, b): return z3.If(z3.BoolVal(c) if isinstance(c, bool) else c, a, b)
def B(c): return z3.BoolVal(c) if isinstance(c, bool) else c
