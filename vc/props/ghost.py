"""Opaque class types: their special members have no body; the contract of each is a ghost lifetime (object, offset) -> (type, value).
Values are uninterpreted; conversions are uninterpreted functions of the value. Whatever is proved holds for every type that behaves like a type."""
from framework import *
def lts(st): return {(o.id, k[1]): v for o in st.mem.values() for k, v in o.g.items() if isinstance(k, tuple) and k[0] == 'lt' and v is not None}
def setup_types(E, types, convs, qual={}, cname={}):
    cn = lambda t: cname.get(t, t)
    """types {name: size}; convs [(To, From)]"""
    E.elem = None      # (get, put): objects that are elements of a container under contract
    def elem(st, p): return E.elem is not None and isinstance(p, Ptr) and p.obj is not None and p.obj in st.mem and 'own' in st.mem[p.obj].g
    def setg(st, p, ty, val):
        if elem(st, p): E.elem[1](E, st, p, ty, val)
        else: st.rw(p.obj).g[('lt', p.off)] = (ty, val)
        if E.elem is not None: E.elem[2](E, st, p, ty)
    def live(E, st, p, ty, what):
        if elem(st, p): E.check_access(st, p, types[ty], what); return (ty, E.elem[0](E, st, p, ty))
        if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int): raise Unsupported(f'{what}: object at {p}')
        E.check_access(st, p, types[ty], what)
        g = st.mem[p.obj].g.get(('lt', p.off))
        ok = g is not None and g[0] == ty
        E.oblige(st, ok, 'lifetime', f'{what}: a live {ty} exists there')
        if not ok: raise DropPath()
        return g
    def start(E, st, p, ty, val, what):
        if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int): raise Unsupported(f'{what}: object at {p}')
        E.check_access(st, p, types[ty], what)
        o = st.rw(p.obj)
        clash = [k for k, g in o.g.items() if isinstance(k, tuple) and k[0] == 'lt' and g is not None and k[1] < p.off + types[ty] and p.off < k[1] + types[g[0]]]
        E.oblige(st, not clash, 'lifetime', f'{what}: no other live object occupies the storage')
        E.oblige(st, not o.ro, 'frame', f'{what}: the storage may be written')
        E.kill_cells(st, o, p.off, types[ty])
        o.g[('lt', p.off)] = (ty, val)
    E.g_live, E.g_start = live, start
    def conv(tn, fn, val): return val if tn == fn else ('conv', tn, fn, val)
    def mk(tn, fn, move):
        def h(E, st, a, f, i):
            g = live(E, st, a[1], fn, f'construction of {tn} from {fn}') if fn in types else st.mem[a[1].obj].g[('raw', a[1].off)]
            start(E, st, a[0], tn, conv(tn, fn, g[1]), f'construction of {tn}')
            if move and fn in types:
                E.oblige(st, not st.mem[a[1].obj].ro, 'frame', f'a const {fn} is not moved from')
                setg(st, a[1], fn, ('moved', g[1]) if not (isinstance(g[1], tuple) and g[1][0] == 'moved') else g[1])
            return None
        return h
    for t in types:
        def dt(E, st, a, f, i, t=t):
            live(E, st, a[0], t, f'destructor of {t}')
            E.oblige(st, not st.mem[a[0].obj].ro, 'frame', f'the {t} destroyed may be written')
            if getattr(E, 'on_die', None): E.on_die(E, st, a[0], t)
            if elem(st, a[0]): raise Unsupported('an element of a container is destroyed by hand')
            if E.elem is not None: E.elem[2](E, st, a[0], t)
            st.rw(a[0].obj).g[('lt', a[0].off)] = None; return None
        E.on_first(f'{qual.get(t, t)}::~{cn(t)}\\(\\)', dt)
    for tn, fn in [(t, t) for t in types] + list(convs):
        E.on_first(f'{qual.get(tn, tn)}::{cn(tn)}\\({qual.get(fn, fn)} const&\\)', mk(tn, fn, False)); E.on_first(f'{qual.get(tn, tn)}::{cn(tn)}\\({qual.get(fn, fn)}&&\\)', mk(tn, fn, True))
        def two(E, st, a, f, i, tn=tn, fn=fn):
            g = st.mem[a[2].obj].g[('raw', a[2].off)]
            start(E, st, a[0], tn, ('conv2', tn, E.s(st, a[1]), g[1]), f'construction of {tn}'); return None
        E.on_first(f'{tn}::{tn}\\(int, {fn} const&\\)', two)
        def asg(move, tn=tn, fn=fn):
            def h(E, st, a, f, i):
                g = live(E, st, a[1], fn, 'assignment source'); live(E, st, a[0], tn, 'assignment target')
                E.oblige(st, not st.mem[a[0].obj].ro, 'frame', 'the assigned object may be written')
                setg(st, a[0], tn, g[1])
                if move and (a[0].obj, str(a[0].off)) != (a[1].obj, str(a[1].off)): setg(st, a[1], fn, ('moved', g[1]))
                return a[0]
            return h
        E.on_first(f'{qual.get(tn, tn)}::operator=\\({qual.get(fn, fn)} const&\\)', asg(False)); E.on_first(f'{qual.get(tn, tn)}::operator=\\({qual.get(fn, fn)}&&\\)', asg(True))
def obj(E, st, nm, size): return Ptr(E.new_obj(st, nm, size, 'stack').id, 0)
def value(E, st, ty, size, nm, ro=False):
    p = obj(E, st, nm, size); st.rw(p.obj).g[('lt', 0)] = (ty, nm)
    if ro: st.rw(p.obj).ro = True
    return p
def raw(E, st, nm, size):
    p = obj(E, st, nm, size); st.rw(p.obj).g[('raw', 0)] = (None, nm); st.rw(p.obj).lazy = 'input'; st.rw(p.obj).ro = True
    return p
def quiet(E, st, name, *args):
    E.quiet += 1
    try:
        outs = E.exec_fn(st, E.mod.find(name), list(args))
        if len(outs) != 1 or isinstance(outs[0][1], Exc): raise Unsupported(f'{name} has {len(outs)} paths')
        return outs[0]
    finally: E.quiet -= 1
def cells(E, st, p):
    """the initialised plain bytes of an object, as a comparable value"""
    return {k: str(c) for k, c in st.mem[p.obj].cells.items()}
def ghosts(st, p): return {k[1]: v for k, v in st.mem[p.obj].g.items() if isinstance(k, tuple) and k[0] == 'lt' and v is not None}
def ob(E, st, nm, c, kind='postcondition'):
    try: E.oblige(st, c, kind, nm, assume=False)
    except DropPath: pass
def canonical(E, mk0, states, setup):
    """memory image of each state as the public constructors leave it: {state: (cells, ghosts)}"""
    out = {}
    for s in states:
        st = State(); p = setup(E, st, s, 'canon'); out[s] = ({k: v for k, v in st.mem[p.obj].cells.items()}, ghosts(st, p))
    return out
def same_cells(E, st, a, b):
    for k, (sz, v) in a.items():
        w = b.get(k)
        if w is None or w[0] != sz: return False
        x = w[1]
        if type(x) is not type(v) and not (isinstance(x, IV) and isinstance(v, IV)): return False
        if isinstance(v, IV):
            if not E.eqt(st, v.t, x.t) and not E.eqt(st, E.u(st, v), E.u(st, x)): return False
        elif isinstance(v, Ptr):
            if v.obj != x.obj or v.off != x.off: return False
        elif isinstance(v, bool):
            if v != x: return False
        else: return False
    return True
def expect_objs(E, st, want, what):
    """want {(obj id, off): (type, value)}: exactly these objects are alive"""
    got = lts(st)
    for k, v in want.items():
        ob(E, st, f'{what}: {st.mem[k[0]].name} holds {v[1]}', got.get(k) == v)
    lost = [f'{v} in {st.mem[k[0]].name}' for k, v in got.items() if k not in want]
    ob(E, st, f'{what}: every temporary is destroyed' + (f' (left: {lost})' if lost else ''), not lost, 'lifetime')
class Run:
    def __init__(self, E, label): self.E = E; self.label = label; E.curfn = label
    def go(self, st, root, args, post, abort=False):
        E = self.E; n = 0; E.aborts = 0; E.maxpaths = E.npaths + 4000; st.pc.append(z3.Int('G__ZN3fLI17FLAGS_minloglevelE.0') <= 3)
        outs = E.exec_fn(st, E.mod.find(root), args); E.curfn = self.label; E.curloc = ''
        for s2, r in outs:
            if isinstance(r, Exc): ob(E, s2, 'no exception leaves ' + self.label, False); continue
            n += 1; post(s2, r)
        if abort: ob(E, st, self.label + ' aborts instead of returning', n == 0 and E.aborts > 0)
        elif not n and not any(o.status != 'discharged' for o in E.obligs): ob(E, st, self.label + ' returns', False)
        E.covers = getattr(E, 'covers', 0) + 1; E.verified = sorted(set(getattr(E, 'verified', []) + [self.label]))
def abort_handler(E):
    """a FATAL message ends the program: counted, so that units can require or exclude it"""
    E.aborts = 0
    def fatal(E, st, a, f, i): E.aborts += 1; raise DropPath()
    E.on_first(r'google::LogMessageFatal::~LogMessageFatal\(\)', fatal)
LOGNOTE = 'glog minloglevel is in its documented range 0..3, so CHECK is active'
