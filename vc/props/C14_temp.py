from ghost import *
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/temp_driver.cpp', SRC + 'fs/TempFile.cpp', SRC + 'fs/TempDir.cpp'], 'temp')
    return _js['m']
def cstr(E, st, p, what):
    """the C string at p: (contents, length); E.cstr is the ghost contents of a char buffer"""
    if not isinstance(p, Ptr) or p.obj is None: E.oblige(st, False, 'null-deref', f'{what}: the string exists'); raise DropPath()
    E.check_access(st, p, 1, what); g = st.mem[p.obj].g.get('cstr')
    E.oblige(st, g is not None and p.off == 0, 'memory', f'{what}: the buffer holds a terminated string')
    if g is None: raise DropPath()
    return g
def put(E, st, p, val, ln, what):
    o = E.check_access(st, p, 1, what)
    if p.off != 0: raise Unsupported('string written inside a buffer')
    E.oblige(st, ln + 1 <= o.size, 'bounds', f'{what}: the string and its terminator fit the buffer')
    E.oblige(st, not o.ro, 'frame', f"{what}: the caller's template is not modified")
    st.rw(p.obj).g['cstr'] = (val, ln)
def setup(E):
    E.on_first('strlen|.*std::char_traits<char>::length\\(char const\\*\\)', lambda E, st, a, f, i: IV(64, cstr(E, st, a[0], 'strlen')[1], 0, (1 << 40)))
    def cpy(E, st, a, f, i): v, n = cstr(E, st, a[1], 'strcpy'); put(E, st, a[0], v, n, 'strcpy'); return a[0]
    E.on_first('strcpy', cpy)
    def ncpy(E, st, a, f, i):
        v, n = cstr(E, st, a[1], 'copy'); k = E.u(st, a[2])
        E.oblige(st, B(k >= n + 1), 'memory', 'the copy includes the terminator'); E.check_access(st, a[0], k, 'copy'); put(E, st, a[0], v, n, 'copy'); return a[0]
    E.on_first(r'strncpy|memcpy|memmove|llvm\.mem(cpy|move)\..*', ncpy)
    def dup(E, st, a, f, i): v, n = cstr(E, st, a[0], 'strdup'); p = E.alloc(st, 'strdup', n + 1, 'heap'); put(E, st, p, v, n, 'strdup'); return p
    E.on_first('strdup|__strdup', dup)
    def mkuniq(E, st, a, f, i):
        n = E.u(st, a[1]); p = E.alloc(st, 'make_unique', n, 'heap'); E.store(st, a[0], p, 'ptr', 8); return None
    E.on_first(r'std::__detail::_MakeUniq<char ?\[\]>::__array std::make_unique<char ?\[\]>\(unsigned long\)', mkuniq)
    def make(kind):
        def h(E, st, a, f, i):
            v, n = cstr(E, st, a[0], f['name']); st.events.append(('tried', kind, v, a[0].obj)); bad = st.fork()
            bad.rw(a[0].obj).g['cstr'] = (('failed', v), n)
            put(E, st, a[0], ('made', v), n, f['name']); st.events.append(('made', kind, ('made', v)))
            if kind == 'dir': return [(st, a[0]), (bad, NULL)]
            fd = E.fresh_int(32, 'fd'); E.rng(st, fd); st.pc.append(fd.t >= 0); st.events.append(('open', fd))
            return [(st, fd), (bad, IV(32, -1))]
        return h
    E.on_first('mkstemp|mkstemp64', make('file')); E.on_first('mkdtemp', make('dir'))
    def close(E, st, a, f, i):
        op = [e[1] for e in st.events if e[0] == 'open']; ok = bool(op) and E.valid(st, E.u(st, a[0]) == E.u(st, op[0])) if op else False
        E.oblige(st, ok, 'resource', 'only the descriptor that was opened is closed')
        E.oblige(st, not any(e[0] == 'closed' for e in st.events), 'resource', 'the descriptor is closed once')
        st.events.append(('closed',)); return IV(32, 0)
    E.on_first('close', close)
    def unlink(E, st, a, f, i): st.events.append(('removed', 'file', cstr(E, st, a[0], 'unlink')[0])); r = E.fresh_int(32, 'unlink'); E.rng(st, r); return r
    E.on_first('unlink|remove', unlink)
    def rm(E, st, a, f, i): st.events.append(('removed', 'dir', cstr(E, st, a[0], 'FileUtils::remove')[0], E.boolv(a[1]))); return z3.Bool(fresh_name('removed'))
    E.on_first(r'nebula::fs::FileUtils::remove\(char const\*, bool\)', rm)
    E.on_first('strerror', lambda E, st, a, f, i: OPtr(z3.Int('strerror'))); E.on_first('__errno_location', lambda E, st, a, f, i: E.errno(st))
    def errno(st):
        if 'errno' not in st.g: p = obj(E, st, 'errno', 4); st.rw(p.obj).lazy = 'input'; st.g['errno'] = p
        return st.g['errno']
    E.errno = errno
    # text of messages is not part of the property
    E.on_first(r'std::__cxx11::basic_string<.*>::(~?basic_string|append|operator\+=)[(<].*|std::__cxx11::basic_string<.*> std::operator\+<.*|.* (std::)?__cxx11::basic_string<.*>::(basic_string|append)[(<].*|.*std::allocator<char>::~?allocator\(.*\)|std::__new_allocator<char>::.*', lambda E, st, a, f, i: a[0] if a else None)
    E.on_first(r'google::InitVLOG3__\(.*\)', lambda E, st, a, f, i: z3.Bool(fresh_name('vlog')))
    E.on_first(r'std::(basic_)?ostream(<.*>)?::operator<<\(.*\)|std::basic_ostream<.*>& std::operator<<.*', lambda E, st, a, f, i: a[0])
def oload(E):
    def h(st, p, ty, size):       # only glog's verbosity flag is read through a pointer the code does not own
        E.oblige(st, p.t != 0, 'null-deref', 'a read goes through a pointer that is not null')
        return E.rng(st, E.fresh_int(tw(ty), 'vlevel'))
    return h
def B(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E); E.oload = oload(E); st = State(); E.tsz = {k: E.u(st, quiet(E, st, f'vc_{k}_size')[1]) for k in ('file', 'dir')}; return E
    return mk
def template(E, st):
    n = E.sym(st, 64, 'L', signed=False); st.pc.append(n.t <= (1 << 40)); E.set_rg(st, n.t, 0, 1 << 40)
    p = Ptr(E.new_obj(st, 'template', n.t + 1, 'stack').id, 0); o = st.rw(p.obj); o.g['cstr'] = ('template', n.t); o.ro = True
    return p
def leaks(st, keep=()): return [o.name for o in st.mem.values() if o.kind == 'heap' and o.alive and o.id not in keep and o.name != 'exception']
def path(E, st, kind, p):
    E.quiet += 1
    try: (s2, r), = E.exec_fn(st, E.mod.find(f'vc_{kind}_path'), [p])
    finally: E.quiet -= 1
    return s2, r
def u_life(kind):
    def u(E):
        T = {'file': 'TempFile', 'dir': 'TempDir'}[kind]; lbl = f'nebula::fs::{T}'
        for root in ('ctor', 'ctor1'):
            st = State(); t = template(E, st); p = obj(E, st, 'temp', E.tsz[kind]); d = z3.Bool('autoDelete') if root == 'ctor' else True; ok = fail = 0; E.curfn = f'{lbl}::{T}'
            for s2, r in E.exec_fn(st, E.mod.find(f'vc_{kind}_{root}'), [p, t] + ([d] if root == 'ctor' else [])):
                E.curfn = f'{lbl}::{T}'; made = [e for e in s2.events if e[0] == 'made']; tried = [e for e in s2.events if e[0] == 'tried']
                ob(E, s2, 'exactly one creation is attempted, from the given template', len(tried) == 1 and tried[0][1] == kind and tried[0][2] == 'template')
                ob(E, s2, 'creation removes nothing', not any(e[0] == 'removed' for e in s2.events))
                ob(E, s2, 'the descriptor of the created file is closed', sum(e[0] == 'open' for e in s2.events) == sum(e[0] == 'closed' for e in s2.events), 'resource')
                if not made:
                    fail += 1
                    if kind == 'file':
                        ob(E, s2, 'a failed creation is reported by std::runtime_error', isinstance(r, Exc) and 'runtime_error' in str(r.ty))
                        ob(E, s2, f'a failed creation keeps no memory {leaks(s2)}', not leaks(s2), 'resource'); continue
                ob(E, s2, 'a successful creation does not throw' if made else 'a failed creation does not throw', not isinstance(r, Exc))
                if isinstance(r, Exc): continue
                s2, q = path(E, s2, kind, p)
                if made:
                    ok += 1
                    ob(E, s2, f'path() is the name of the created {kind}', isinstance(q, Ptr) and q.obj is not None and s2.mem[q.obj].alive and s2.mem[q.obj].g.get('cstr', (0,))[0] == ('made', 'template'))
                    if isinstance(q, Ptr) and q.obj is not None: ob(E, s2, 'only the name is kept in memory', leaks(s2) == [s2.mem[q.obj].name], 'resource')
                else: ob(E, s2, 'after a failed creation there is no path', isinstance(q, Ptr) and q.obj is None); ob(E, s2, f'a failed creation keeps no memory {leaks(s2)}', not leaks(s2), 'resource')
                # the destructor from the state the constructor left
                s2.rw(t.obj).alive = False; s2.events.append(('destructor',))
                for s3, r3 in E.exec_fn(s2, E.mod.find(f'vc_{kind}_dtor'), [p]):
                    E.curfn = f'{lbl}::~{T}'; ev = s3.events[s3.events.index(('destructor',)) + 1:]; rm = [e for e in ev if e[0] == 'removed']
                    ob(E, s3, 'the destructor does not throw', not isinstance(r3, Exc))
                    want = z3.And(B(d), B(bool(made)))
                    ob(E, s3, f'the created {kind} is removed exactly once on destruction if automatic deletion was asked for, and otherwise stays', z3.If(want, B(len(rm) == 1), B(len(rm) == 0)))
                    for e in rm: ob(E, s3, f'only the created {kind} is removed' + (', with its contents' if kind == 'dir' else ''), e[1] == kind and e[2] == ('made', 'template') and (kind == 'file' or e[3] is True or E.valid(s3, B(e[3]))))
                    ob(E, s3, f'the destructor releases the memory {leaks(s3)}', not leaks(s3), 'resource'); ob(E, s3, 'the destructor creates nothing', len(ev) == len(rm))
            ob(E, st, 'both outcomes of the creation are covered', ok > 0 and fail > 0)
        E.covers = 2; E.verified = [f'{lbl}::{T}', f'{lbl}::~{T}', f'{lbl}::path']
    return u
class PROP(Property):
    id = 'C14'
    budget = 100
    assumptions = ['mkstemp/mkdtemp either create a new file/directory whose name they leave in the buffer, or fail and create nothing', 'FileUtils::remove(path, true) removes that directory (it is behind its own contract here)', 'std::string construction and allocation do not fail', 'the text of the error message is not specified']
    def units(self):
        mk = engine(); return [('TempFile', mk, u_life('file')), ('TempDir', mk, u_life('dir'))]
    search = search_prog(['fs/TempFile.cpp', 'fs/TempDir.cpp'], 'temp_search', extra=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-builtin'))
