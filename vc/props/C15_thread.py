from ghost import *
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/thread_driver.cpp', SRC + 'thread/NamedThread.cpp'], 'thread')
    return _js['m']
STRT = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>'
def trunc(v): return v if isinstance(v, tuple) and v[0] in ('kernel', 'trunc') else ('trunc', v)
def setup(E):
    """strings are ghost values; the kernel keeps (at most 15 bytes of) one name per thread, st.g['name']"""
    def get(st, p, what='use of a string'):
        if not isinstance(p, Ptr) or p.obj is None: raise Unsupported(f'{what} at {p}')
        E.check_access(st, p, E.ssz, what); g = st.mem[p.obj].g.get(('lt', p.off))
        E.oblige(st, g is not None and g[0] == 'string', 'lifetime', f'{what}: a live string exists there')
        if g is None: raise DropPath()
        return g[1]
    def put(st, p, v, what='string'):
        E.check_access(st, p, E.ssz, what); E.oblige(st, not st.mem[p.obj].ro, 'frame', 'a const string is not modified'); st.rw(p.obj).g[('lt', p.off)] = ('string', v)
    E.sget, E.sput = get, put
    E.on_first(STRT + r'::basic_string\(\)', lambda E, st, a, f, i: put(st, a[0], 'empty'))
    E.on_first(STRT + r'::basic_string\(' + STRT + r' const&\)', lambda E, st, a, f, i: put(st, a[0], get(st, a[1])))
    def mv(E, st, a, f, i): v = get(st, a[1]); put(st, a[1], 'moved'); put(st, a[0], v); return a[0]
    E.on_first(STRT + r'::(basic_string|operator=)\(' + STRT + r'&&\)', mv)
    def asg(E, st, a, f, i): get(st, a[0]); put(st, a[0], get(st, a[1])); return a[0]
    E.on_first(STRT + r'::operator=\(' + STRT + r' const&\)|' + STRT + r'::assign\(' + STRT + r' const&\)', asg)
    def dt(E, st, a, f, i): get(st, a[0], 'destruction of a string'); st.rw(a[0].obj).g[('lt', a[0].off)] = None
    E.on_first(STRT + r'::~basic_string\(\)', dt)
    def cs(E, st, a, f, i):
        v = get(st, a[0]); p = obj(E, st, 'chars', None); o = st.rw(p.obj); o.g['cstr'] = v; o.ro = True; return p
    E.on_first(STRT + r'::(c_str|data)\(\) const', cs)
    def fromc(E, st, a, f, i):
        if not isinstance(a[1], Ptr) or 'cstr' not in st.mem[a[1].obj].g or a[1].off != 0: E.oblige(st, False, 'memory', 'a string is read from an initialised buffer'); raise DropPath()
        put(st, a[0], st.mem[a[1].obj].g['cstr']); return a[0]
    E.on_first(STRT + r'::operator=\(char const\*\)|' + STRT + r'::assign\(char const\*\)|' + STRT + r'::basic_string<.*>\(char const\*, std::allocator<char> const&\)', fromc)
    def isempty(E, st, a, f, i):
        v = get(st, a[0]); return z3.Bool(f'empty.{v}')
    E.on_first(STRT + r'::empty\(\) const', isempty)
    E.on_first(STRT + r'::(size|length)\(\) const', lambda E, st, a, f, i: (lambda b: IV(64, z3.If(b, 0, 1 + z3.Int('extra')), 0, 1 << 40))(isempty(E, st, a, f, i)))
    def prctl(E, st, a, f, i):
        op = E.s(st, a[0])
        if op == 15:
            if not isinstance(a[1], Ptr) or 'cstr' not in st.mem[a[1].obj].g: E.oblige(st, False, 'memory', 'the new name is a terminated string'); raise DropPath()
            st.g['name'] = trunc(st.mem[a[1].obj].g['cstr']); st.events.append(('set', st.g['name'])); return IV(32, 0)
        if op == 16:
            o = E.check_access(st, a[1], 16, 'prctl(PR_GET_NAME)')
            if a[1].off != 0: raise Unsupported('name read into the middle of an object')
            st.rw(o.id).g['cstr'] = st.g['name']; return IV(32, 0)
        E.oblige(st, False, 'frame', 'prctl only reads or sets the thread name'); raise DropPath()
    E.on_first('prctl', prctl)
    E.on_first('pthread_self', lambda E, st, a, f, i: OPtr(z3.Int('self')))
    def body(E, st, a, f, i): st.events.append(('body', st.g['name'])); return None
    E.body = body
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); st = State(); q = lambda n: E.u(st, quiet(E, st, n)[1]); E.ssz = q('vc_str_size'); E.nsz = q('vc_nom_size'); E.fsz = q('vc_fn_size'); E.thsz = q('vc_thread_size'); setup(E); return E
    return mk
def start():
    st = State(); st.g['name'] = ('kernel', 'before'); return st
def strg(E, st, nm, v, ro=True): p = obj(E, st, nm, E.ssz); st.rw(p.obj).g[('lt', 0)] = ('string', v); st.rw(p.obj).ro = ro; return p
def done(E, *v): E.covers = getattr(E, 'covers', 0) + 1; E.verified = sorted(set(getattr(E, 'verified', [])) | {'nebula::thread::' + x for x in v})
def u_nom(E):
    E.curfn = 'nebula::thread::NamedThread::Nominator'; st = start(); n = strg(E, st, 'n', 'N'); p = obj(E, st, 'nominator', E.nsz); k = 0
    for s2, r in E.exec_fn(st, E.mod.find('vc_nom_ctor'), [p, n]):
        ob(E, s2, 'a Nominator gives the thread its name', not isinstance(r, Exc) and s2.g['name'] == ('trunc', 'N')); ob(E, s2, 'the name is set once', [e for e in s2.events if e[0] == 'set'] == [('set', ('trunc', 'N'))])
        s2.rw(n.obj).alive = False
        for mid in (None, ('trunc', 'other')):
            s3 = s2.fork()
            if mid: s3.g['name'] = mid
            for s4, r4 in E.exec_fn(s3, E.mod.find('vc_nom_dtor'), [p]):
                k += 1; ob(E, s4, 'the destructor gives the thread back the name it had before', not isinstance(r4, Exc) and s4.g['name'] == ('kernel', 'before'))
                ob(E, s4, 'no string is left behind', set(lts(s4)) <= {(n.obj, 0)}, 'lifetime')
    # nested
    st = start(); a = strg(E, st, 'a', 'A'); b = strg(E, st, 'b', 'B'); p = obj(E, st, 'n1', E.nsz); q = obj(E, st, 'n2', E.nsz); cur = [st]
    for root, args in (('ctor', [p, a]), ('ctor', [q, b]), ('dtor', [q]), ('dtor', [p])):
        cur = [s for c in cur for s, r in E.exec_fn(c, E.mod.find('vc_nom_' + root), args)]
        want = {'n1': ('trunc', 'A'), 'n2': ('trunc', 'B')}.get('n1' if (root, args[0]) == ('ctor', p) or (root, args[0]) == ('dtor', q) else 'n2' if root == 'ctor' else '', ('kernel', 'before'))
        for s in cur: ob(E, s, f'nested names: the name is {want[1]}', s.g['name'] == want)
    ob(E, st, 'both paths are covered', k >= 2 and len(cur) >= 1)
    st = start(); n = strg(E, st, 'n', 'N', ro=False)
    for s2, r in E.exec_fn(st, E.mod.find('vc_nom_get'), [n]): ob(E, s2, 'get reads the name and changes nothing', E.sget(s2, n) == ('kernel', 'before') and s2.g['name'] == ('kernel', 'before') and not s2.events)
    st = start(); n = strg(E, st, 'n', 'N')
    for s2, r in E.exec_fn(st, E.mod.find('vc_nom_set'), [n]): ob(E, s2, 'set sets the name', s2.g['name'] == ('trunc', 'N'))
    done(E, 'NamedThread::Nominator::Nominator', 'NamedThread::Nominator::~Nominator', 'NamedThread::Nominator::get', 'NamedThread::Nominator::set')
def ran(E, s2, what):
    e = z3.Bool('empty.N'); b = [x for x in s2.events if x[0] == 'body']; sets = [x for x in s2.events if x[0] == 'set']
    ob(E, s2, f'{what}: the body runs exactly once', len(b) == 1)
    if len(b) == 1: ob(E, s2, f'{what}: the body runs under the given name, or the inherited one if none was given', z3.If(e, z3.BoolVal(b[0][1] == ('kernel', 'before')), z3.BoolVal(b[0][1] == ('trunc', 'N'))))
    ob(E, s2, f'{what}: nothing else names the thread', len(sets) <= 1)
def u_hook(E):
    E.on_first(r'std::function<void \(\)>::operator\(\)\(\) const', E.body); E.curfn = 'nebula::thread::NamedThread::hook'
    st = start(); n = strg(E, st, 'n', 'N'); f = obj(E, st, 'f', E.fsz); k = 0
    for s2, r in E.exec_fn(st, E.mod.find('vc_hook'), [n, f]): k += 1; ob(E, s2, 'hook does not throw', not isinstance(r, Exc)); ran(E, s2, 'hook')
    ob(E, st, 'both kinds of names are covered', k >= 2); done(E, 'NamedThread::hook')
def u_thread(E):
    E.on_first(r'F0::operator\(\)\(\) const', E.body); lbl = E.curfn = 'nebula::thread::NamedThread::NamedThread'
    E.on_first(r'std::thread::_State::~?_State\(\)', lambda E, st, a, f, i: None)
    E.started = 0
    def go(E, st, a, f, i):
        up = a[1]; state = E.load(st, up, 'ptr', 8); vt = E.load(st, state, 'ptr', 8); E.started += 1
        run = E.load(st, Ptr(vt.obj, vt.off + 16), 'ptr', 8)
        if not isinstance(run, Fn): raise Unsupported('thread entry is not a function')
        ob(E, st, 'one thread is started', not any(e[0] == 'start' for e in st.events)); st.events.append(('start',))
        # the creator's string may be gone before the thread runs
        dead = st.mem[E.nobj]; st.rw(E.nobj).alive = False; mine = st.g['name']
        outs = []
        for s2, r in E.exec_fn(st, run.name, [state]):
            s2.rw(E.nobj).alive = True; s2.g['name'] = mine
            if isinstance(r, Exc): ob(E, s2, 'the thread function does not throw', False); continue
            E.store(s2, up, NULL, 'ptr', 8); outs.append((s2, None))
        return outs
    E.on_first(r'std::thread::_M_start_thread\(.*\)', go)
    st = start(); n = strg(E, st, 'n', 'N'); E.nobj = n.obj; f = obj(E, st, 'f', 8); st.rw(f.obj).cells[0] = (8, E.sym(st, 64, 'payload')); t = obj(E, st, 'thread', E.thsz); k = 0
    for s2, r in E.exec_fn(st, E.mod.find('vc_thread_ctor'), [t, n, f]):
        E.curfn = lbl; k += 1; ob(E, s2, 'the constructor does not throw', not isinstance(r, Exc)); ran(E, s2, 'NamedThread'); ob(E, s2, "the creator's own name is untouched", s2.g['name'] == ('kernel', 'before'))
    ob(E, st, 'both kinds of names are covered', k >= 2 and E.started > 0); done(E, 'NamedThread::NamedThread')
def u_tid(E):
    E.curfn = 'nebula::thread::gettid'; st = start(); my = E.sym(st, 32, 'mytid'); st.pc.append(my.t > 0)
    tls = [n for n, g in E.mod.globals.items() if g.get('tls') and not g.get('decl')]
    E.on_first('syscall', lambda E, st, a, f, i: IV(64, my.t, 1, (1 << 31) - 1) if E.s(st, a[0]) == 186 else (_ for _ in ()).throw(Unsupported('another system call')))
    E.on_first(r'__cxa_thread_atexit', lambda E, st, a, f, i: IV(32, 0))
    E.on_first(r'llvm\.threadlocal\.address.*', lambda E, st, a, f, i: a[0])
    k = 0
    # first call in a thread: thread locals are zero; a later call: as the first call left them
    E.quiet += 0
    for g in tls:
        p = E.global_ptr(st, g); o = st.rw(p.obj); o.lazy = 'zero'; o.cells = {}; o.ro = False
    for s2, r in E.exec_fn(st, E.mod.find('vc_gettid'), []):
        ob(E, s2, 'gettid is the id of the calling thread (first call)', E.s(s2, r) == my.t)
        for s3, r3 in E.exec_fn(s2, E.mod.find('vc_gettid'), []): k += 1; ob(E, s3, 'gettid is the id of the calling thread (later calls)', E.s(s3, r3) == my.t)
    ob(E, st, 'gettid returns', k > 0); ob(E, st, 'the cached id is per thread', not [n for n, g in E.mod.globals.items() if 'tid' in g.get('dem', n).lower() and not g.get('tls') and not g.get('const') and not g.get('decl')])
    done(E, 'gettid', 'detail::TLSThreadID::TLSThreadID', 'detail::TLSThreadID::tid')
class PROP(Property):
    id = 'C15'
    budget = 100
    assumptions = ['prctl(PR_SET_NAME/PR_GET_NAME) sets and reads the calling thread\'s name, keeping the first 15 bytes; a new thread inherits the name of its creator', 'std::thread runs its state object once in the new thread', 'fork() (which keeps a cached thread id) is not considered']
    def units(self):
        mk = engine(); return [('Nominator', mk, u_nom), ('hook', mk, u_hook), ('NamedThread', mk, u_thread), ('gettid', mk, u_tid)]
    search = search_prog(['thread/NamedThread.cpp'], 'thread_search')
