"""Trusted contracts of the language runtime, libc, libstdc++, glog: everything here is assumed, and is
listed in every evidence file (Engine.contracted intersected with TRUSTED)."""
import re
import z3
from engine import *

TRUSTED = set()

def trusted(e, rx, h, why=''):
    e.on(rx, h)

def setup_basic(e):
    on = e.on
    # --- allocation
    def opnew(E, st, a, f, i):
        n = E.u(st, a[0]); return E.alloc(st, 'new', n, 'heap')
    on(r'operator new(\[\])?\(unsigned long\)', opnew)
    def opdelete(E, st, a, f, i):
        p = a[0]
        if isinstance(p, Ptr) and p.obj is None: return None
        if not isinstance(p, Ptr): raise Unsupported('delete of opaque pointer')
        o = st.mem[p.obj]
        if not o.alive: E.oblige(st, False, 'double-free', f'delete of live object ({o.name})'); raise DropPath()
        E.oblige(st, p.off == 0 if not isinstance(p.off, int) else p.off == 0, 'free', 'deallocation of the start of an object')
        E.oblige(st, o.kind in ('heap', 'input-heap'), 'free', f'deallocated object {o.name} is a heap object')
        st.rw(p.obj).alive = False
        if 'ondelete' in o.g: o.g['ondelete'](E, st, o)
        return None
    on(r'operator delete(\[\])?\(void\*(, unsigned long)?\)', opdelete)
    def malloc(E, st, a, f, i):
        n = E.u(st, a[0]); return E.alloc(st, 'malloc', n, 'heap')
    on('malloc', malloc)
    on('free', opdelete)
    # --- intrinsics
    def mc(E, st, a, f, i): E.memcpy(st, a[0], a[1], a[2])
    on(r'llvm\.mem(cpy|move)\..*|memcpy|memmove', lambda E, st, a, f, i: (mc(E, st, a, f, i), a[0])[1])
    def mset(E, st, a, f, i):
        n = E.u(st, a[2]); v = E.u(st, a[1]) if not isinstance(a[1], z3.BitVecRef) else a[1]
        if not isinstance(n, int): raise Unsupported('symbolic memset')
        o = E.check_access(st, a[0], n, 'memset'); o = st.rw(o.id)
        if not isinstance(a[0].off, int) or o.rope is not None: raise Unsupported('memset of a buffer')
        E.kill_cells(st, o, a[0].off, n)
        k = 0
        while k < n:
            w = 8 if n - k >= 8 and (a[0].off + k) % 8 == 0 else 4 if n - k >= 4 and (a[0].off + k) % 4 == 0 else 1
            if E.bv: o.cells[a[0].off + k] = (w, z3.BitVecVal(0, 8 * w) if v == 0 or str(v) == '0' else z3.Concat(*[v] * w))
            else:
                if not (isinstance(v, int)): raise Unsupported('memset symbolic value')
                o.cells[a[0].off + k] = (w, IV(8 * w, int.from_bytes(bytes([v & 255]) * w, 'little')))
            k += w
        return a[0]
    on(r'llvm\.memset\..*|memset', mset)
    on(r'llvm\.(lifetime|dbg|stackrestore|experimental\.noalias|invariant|donothing|assume).*', ret_undef)
    on(r'llvm\.stacksave.*', lambda E, st, a, f, i: NULL)
    on(r'llvm\.trap', lambda E, st, a, f, i: trap(E, st))
    on(r'llvm\.expect\..*', lambda E, st, a, f, i: a[0])
    on(r'llvm\.fabs\.(f32|f64)', lambda E, st, a, f, i: FPV(z3.fpAbs(E.fp(a[0]))))
    def trap(E, st):
        E.oblige(st, False, 'abort', 'the program does not abort'); raise DropPath()
    on(r'abort|std::terminate\(\)|__clang_call_terminate|__cxa_pure_virtual|std::__throw_.*|__assert_fail', lambda E, st, a, f, i: trap(E, st))
    def ovf(op):
        def h(E, st, a, f, i):
            w = a[0].w; s = f['name'].split('.')[1][0] == 's'
            x = E.s(st, a[0]) if s else E.u(st, a[0]); y = E.s(st, a[1]) if s else E.u(st, a[1])
            t = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            o = z3.Or(t < lo, t > hi) if not isinstance(t, int) else (t < lo or t > hi)
            M = 1 << w
            al, ah = E.slo(a[0]) if s else E.ulo(a[0]); bl, bh = E.slo(a[1]) if s else E.ulo(a[1])
            if op == 'add': l, h2 = al + bl, ah + bh
            elif op == 'sub': l, h2 = al - bh, ah - bl
            else: ps = [al * bl, al * bh, ah * bl, ah * bh]; l, h2 = min(ps), max(ps)
            return Agg([IV(w, t, l, h2), o])
        return h
    for op in ('add', 'sub', 'mul'):
        on(r'llvm\.[su]%s\.with\.overflow\..*' % op, ovf(op))
    # --- exceptions
    def throw(E, st, a, f, i):
        t = a[1]
        nm = '?'
        if isinstance(t, Ptr): nm = st.mem[t.obj].name
        elif isinstance(t, OPtr): nm = str(t.t)
        return [(st, Exc(nm, a[0]))]
    on('__cxa_allocate_exception', lambda E, st, a, f, i: E.alloc(st, 'exception', E.u(st, a[0]), 'heap'))
    on('__cxa_free_exception', ret_undef)
    on('__cxa_throw', throw)
    def fpclass(E, st, a, f, i):
        x = E.fp(a[0]); m = E.u(st, a[1])
        if m == 3: return z3.fpIsNaN(x)
        if m == 0x204: return z3.fpIsInf(x)
        if m == 0x1f8: return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        raise Unsupported(f'fpclass {m}')
    on(r'llvm\.is\.fpclass\.f(32|64)', fpclass)
    on('__cxa_begin_catch', lambda E, st, a, f, i: a[0])
    on('__cxa_end_catch', ret_undef); on(r'llvm\.eh\.typeid\.for(\..*)?', typeid_for)
    on(r'std::(runtime_error|invalid_argument|logic_error|out_of_range)::\1\((char const\*|std::.*)\)', ret_undef)
    on(r'std::(runtime_error|invalid_argument|logic_error|exception)::~\1\(\)', ret_undef)
    # --- glog: messages are not part of any property here; FATAL ones abort
    on(r'google::LogMessageFatal::~LogMessageFatal\(\)', lambda E, st, a, f, i: trap(E, st))
    on(r'google::LogMessage(Fatal)?::LogMessage(Fatal)?\(.*\)', ret_undef)
    on(r'google::LogMessage::~LogMessage\(\)', ret_undef)
    on(r'google::LogMessage::stream\(\)', lambda E, st, a, f, i: OPtr(z3.Int('ostream')))
    on(r'google::LogMessageVoidify::(operator&\(.*\)|LogMessageVoidify\(\))', ret_undef)
    on(r'std::(basic_ostream|ostream)<.*>::operator<<\(.*\)|std::basic_ostream<.*>& (std::)?operator<<\s*<.*', lambda E, st, a, f, i: a[0])
    # __cxa_guard etc.
    on(r'__cxa_guard_release|__cxa_atexit|__cxa_thread_atexit', lambda E, st, a, f, i: IV(32, 0) if 'atexit' in f['name'] else None)

# ------------------------------------------------------------------ std::string
# ghost contents: obj.g[('str', off)] = rope ; 
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s?>'

def skey(p):
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int): raise Unsupported(f'string at {p}')
    return ('str', p.off)
def str_get(E, st, p):
    o = E.check_access(st, p, 32, 'use of a string')
    k = skey(p)
    r = o.g.get(k)
    if r is None:
        if o.lazy in ('input', 'global'):
            nm = f'{o.name}.{p.off}'
            r = [Sl(('str', nm), 0, str_len_sym(st, nm))]
            st.rw(o.id).g[k] = r
            return r
        E.oblige(st, False, 'lifetime', f'string object at {o.name}+{p.off} is constructed'); raise DropPath()
    return r
def str_len_sym(st, nm):
    n = z3.Int('len_' + nm)
    c = z3.And(n >= 0, n < (1 << 62))
    if not any(c.eq(x) for x in st.pc): st.pc.append(c)
    return n
def str_set(E, st, p, r, construct=False):
    o = E.check_access(st, p, 32, 'use of a string')
    if o.ro: E.oblige(st, False, 'frame', f'write to read-only {o.name}')
    if st.writes is not None: st.writes.add((o.id, ('str', p.off), 0))
    o = st.rw(o.id)
    o.g[skey(p)] = E.rope_norm(st, r)
    b = o.g.pop(('strbuf', p.off), None)
    if b is not None and b in st.mem: st.rw(b).alive = False
def str_fresh(E, st, p, name):
    str_set(E, st, p, [Sl(('str', name), 0, str_len_sym(st, name))])
def str_id(E, st, r):
    """term of sort Str for contents r"""
    r = E.rope_norm(st, r)
    if len(r) == 1 and r[0].atom[0] == 'str' and E.eqt(st, r[0].lo, 0) and isinstance(r[0].hi, z3.ExprRef) and r[0].hi.eq(z3.Int('len_' + r[0].atom[1])):
        return z3.Const('S_' + r[0].atom[1], StrSort)
    if not r: return z3.Const('S_empty', StrSort)
    lit = rope_literal(E, r)
    if lit is not None: return z3.Const('Slit_' + lit.hex(), StrSort)
    return z3.Const('S_rope_' + '|'.join(str(x) for x in r), StrSort)
StrSort = z3.DeclareSort('Str')
def rope_literal(E, r):
    out = b''
    for s in r:
        if s.atom[0] == 'lit' and isinstance(s.lo, int) and isinstance(s.hi, int): out += s.atom[1][s.lo:s.hi]
        elif s.atom[0] == 'val' and s.atom[2] == 1 and s.atom[1][0] == 'int' and isinstance(s.atom[1][1], int): out += bytes([s.atom[1][1]])
        else: return None
    return out
def lit_rope(b): return [Sl(('lit', b), 0, len(b))] if b else []
def cstr_rope(E, st, p):
    """rope of the C string at p (without the NUL)"""
    if isinstance(p, Ptr) and p.obj is not None:
        o = st.mem[p.obj]
        if o.g.get('cstr') is not None and isinstance(p.off, int) and p.off == 0: return cut_nul(E, st, o.g['cstr']) if 'strbufof' in o.g else o.g['cstr']
        if o.ro or o.kind == 'global':
            bs = b''; k = p.off
            while True:
                c = o.cells.get(k)
                ch = c[1].t if c else 0
                if ch == 0: break
                bs += bytes([ch & 255]); k += 1
            return lit_rope(bs)
        if 'strbufof' in o.g and isinstance(p.off, int) and p.off == 0: return cut_nul(E, st, list(o.rope[:-1]) if o.rope else [])
    raise Unsupported(f'C string at {p}')
def cut_nul(E, st, r):
    """what C functions see of a string's characters: everything before the first NUL, an unknown text when the content is"""
    r = E.rope_norm(st, r); lit = rope_literal(E, r)
    if lit is not None: return lit_rope(lit.split(b'\0')[0])
    if len(r) == 1 and r[0].atom[0] == 'str' and r[0].atom[1].startswith('cstr('): return r
    nm = 'cstr(' + '|'.join(str(x) for x in r) + ')'; n = str_len_sym(st, nm); st.pc.append(n <= E.rope_len(r))
    return [Sl(('str', nm), 0, n)]
def str_data(E, st, p):
    o = E.check_access(st, p, 32, 'use of a string'); r = str_get(E, st, p); o = st.rw(o.id)
    b = o.g.get(('strbuf', p.off))
    if b is None:
        n = E.rope_len(r)
        bo = E.new_obj(st, f'{o.name}.strdata', n + 1, 'heap'); bo.rope = list(r) + [Sl(('lit', b'\0'), 0, 1)]
        bo.g['strbufof'] = (o.id, p.off); bo.g['cstr'] = list(r)
        bo.ro = False
        b = bo.id; st.rw(o.id).g[('strbuf', p.off)] = b
    return Ptr(b, 0)
def str_eq(E, st, ra, rb):
    if E.rope_eq_cond(st, ra, rb): return True
    la, lb = rope_literal(E, ra), rope_literal(E, rb)
    if la is not None and lb is not None: return la == lb
    if (la is not None or not ra) and len(la or b'') == 0:
        n = E.rope_len(rb); return n == 0
    if (lb is not None or not rb) and len(lb or b'') == 0:
        n = E.rope_len(ra); return n == 0
    a, b = str_id(E, st, ra), str_id(E, st, rb)
    return a == b
StrCmp = z3.Function('strcmp', StrSort, StrSort, z3.IntSort())
def str_cmp(E, st, ra, rb):
    a, b = str_id(E, st, ra), str_id(E, st, rb)
    if E.rope_eq_cond(st, ra, rb): return IV(32, 0)
    t = StrCmp(a, b); t2 = StrCmp(b, a)
    # antisymmetry instance, zero iff equal; (total order; transitivity instances are added by the property)
    st.pc.append(z3.And(t >= -1, t <= 1, t2 == -t, (t == 0) == (a == b)))
    return IV(32, t, -1, 1)

def setup_string(e):
    on = e.on
    S = STR
    on(r'std::allocator<.*>::(allocator|~allocator)\(.*\)|std::__new_allocator<.*>::(__new_allocator|~__new_allocator)\(.*\)', ret_undef)
    on(S + r'::basic_string\(\)', lambda E, st, a, f, i: str_set(E, st, a[0], []))
    on(S + r'::basic_string\(' + S + r'( const)?&&?\)', lambda E, st, a, f, i: str_copy(E, st, a, f))
    def str_copy(E, st, a, f):
        r = str_get(E, st, a[1]); str_set(E, st, a[0], list(r))
        if '&&' in f['dem']: str_moved(E, st, a[1])
    def str_moved(E, st, p): str_set(E, st, p, [])
    def ctor_c(E, st, a, f, i):
        str_set(E, st, a[0], cstr_rope(E, st, a[1]))
    on(S + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', ctor_c)
    def ctor_cn(E, st, a, f, i):
        n = E.u(st, a[2]); r = E.read_bytes(st, a[1], n) if not (isinstance(a[1], Ptr) and a[1].obj is None) else []
        str_set(E, st, a[0], r)
    on(S + r'::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)', ctor_cn)
    def dtor(E, st, a, f, i):
        str_get(E, st, a[0]); o = st.rw(a[0].obj); o.g.pop(skey(a[0]), None)
        if st.writes is not None: st.writes.add((o.id, a[0].off))
        o.g[('strdead', a[0].off)] = True
        if o.lazy == 'input':
            o.g[skey(a[0])] = None
            o.lazy = None if False else o.lazy
            st.rw(a[0].obj).g.pop(skey(a[0]), None)
            st.g[('deadstr', a[0].obj, a[0].off)] = True
        b = o.g.pop(('strbuf', a[0].off), None)
        if b is not None: st.rw(b).alive = False
    on(S + r'::~basic_string\(\)', dtor)
    on(S + r'::(size|length)\(\) const', lambda E, st, a, f, i: IV(64, E.rope_len(str_get(E, st, a[0])), 0, (1 << 62)))
    on(S + r'::empty\(\) const', lambda E, st, a, f, i: (lambda n: (n == 0))(E.rope_len(str_get(E, st, a[0]))))
    on(S + r'::(data|c_str)\(\)( const)?', lambda E, st, a, f, i: str_data(E, st, a[0]))
    on(S + r'::(reserve|shrink_to_fit)\(.*\)', lambda E, st, a, f, i: (str_get(E, st, a[0]), None)[1])
    def app_n(E, st, a, f, i):
        r = E.read_bytes(st, a[1], E.u(st, a[2])); str_set(E, st, a[0], str_get(E, st, a[0]) + r); return a[0]
    on(S + r'::append\(char const\*, unsigned long\)', app_n)
    def app_s(E, st, a, f, i):
        str_set(E, st, a[0], str_get(E, st, a[0]) + str_get(E, st, a[1])); return a[0]
    on(S + r'::(append|operator\+=)\(' + S + r' const&\)', app_s)
    def app_c(E, st, a, f, i):
        str_set(E, st, a[0], str_get(E, st, a[0]) + cstr_rope(E, st, a[1])); return a[0]
    on(S + r'::(append|operator\+=)\(char const\*\)', app_c)
    def app_ch(E, st, a, f, i):
        str_set(E, st, a[0], str_get(E, st, a[0]) + E.val_rope(st, a[1], 1)); return a[0]
    on(S + r'::(push_back|operator\+=)\(char\)', app_ch)
    def asg(E, st, a, f, i):
        r = list(str_get(E, st, a[1])); 
        if a[0].obj == a[1].obj and a[0].off == a[1].off: return a[0]
        str_get(E, st, a[0]); str_set(E, st, a[0], r)
        if '&&' in f['dem']: str_set(E, st, a[1], [])
        return a[0]
    on(S + r'::(operator=|assign)\(' + S + r'( const)?&&?\)', asg)
    on(S + r'::(operator=|assign)\(char const\*\)', lambda E, st, a, f, i: (str_get(E, st, a[0]), str_set(E, st, a[0], cstr_rope(E, st, a[1])), a[0])[2])
    on(S + r'::clear\(\)', lambda E, st, a, f, i: (str_get(E, st, a[0]), str_set(E, st, a[0], []), None)[2])
    on(r'bool std::operator==<char.*>\(' + S + r' const&, ' + S + r' const&\)', lambda E, st, a, f, i: str_eq(E, st, str_get(E, st, a[0]), str_get(E, st, a[1])))
    on(r'bool std::operator!=<char.*>\(' + S + r' const&, ' + S + r' const&\)', lambda E, st, a, f, i: E.bnot(str_eq(E, st, str_get(E, st, a[0]), str_get(E, st, a[1]))))
    on(r'bool std::operator==<char.*>\(' + S + r' const&, char const\*\)', lambda E, st, a, f, i: str_eq(E, st, str_get(E, st, a[0]), cstr_rope(E, st, a[1])))
    def cmpop(rel):
        def h(E, st, a, f, i):
            c = str_cmp(E, st, str_get(E, st, a[0]), str_get(E, st, a[1])).t
            return {'<': lambda: c < 0, '>': lambda: c > 0, '<=': lambda: c <= 0, '>=': lambda: c >= 0}[rel]()
        return h
    for rel in ('<', '>', '<=', '>='):
        on(r'bool std::operator' + rel + r'<char.*>\(' + S + r' const&, ' + S + r' const&\)', cmpop(rel))
    on(S + r'::compare\(' + S + r' const&\) const', lambda E, st, a, f, i: str_cmp(E, st, str_get(E, st, a[0]), str_get(E, st, a[1])))
    def plus(E, st, a, f, i):
        m = re.search(r'operator\+<.*?>\((.*)\)$', f['dem'])
        out, x, y = a[0], a[1], a[2]
        ps = split_args(f['dem'])
        rx = cstr_rope(E, st, x) if ps[0] == 'char const*' else E.val_rope(st, x, 1) if ps[0] == 'char' else str_get(E, st, x)
        ry = cstr_rope(E, st, y) if ps[1] == 'char const*' else E.val_rope(st, y, 1) if ps[1] == 'char' else str_get(E, st, y)
        str_set(E, st, out, list(rx) + list(ry))
    on(S + r' std::operator\+<char.*', plus)
    def strlen(E, st, a, f, i):
        return IV(64, E.rope_len(cstr_rope(E, st, a[0])), 0, 1 << 62)
    on('strlen', strlen)

def split_args(dem):
    """top-level argument types of a demangled name"""
    d = 0; end = dem.rindex(')')
    k = end; d = 0
    while k >= 0:
        if dem[k] == ')': d += 1
        elif dem[k] == '(':
            d -= 1
            if d == 0: break
        k -= 1
    s = dem[k + 1:end]; out = []; cur = ''; d = 0
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
