"""TimeUtils: dates and times made from maps, from text and from the clock, their attributes and their time zone. A map is an arbitrary set of entries
that is visited in any order: the loop over it is cut at its head with the entries visited so far as ghost state. Text is read by std::get_time, the
arithmetic is that of TimeConversion; both by contract."""
from ghost import *
from timespec import Cal
import loops
TU = 'nebula::time::TimeUtils::'; TC = 'nebula::time::TimeConversion::'; STRQ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
_js = {}
FIELDS = dict(Date=('year', 'month', 'day'), Time=('hour', 'minute', 'second', 'microsecond'), DateTime=('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'))
RANGE = dict(year=(-32768, 32767), month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 59), microsecond=(0, 999999))
W = dict(year=16, month=8, day=8, hour=8, minute=8, second=8, microsecond=32)
DEF = dict(year=0, month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
I64 = (-(1 << 63), (1 << 63) - 1); LITS = {}
def lit(s): return LITS.setdefault(s, len(LITS) + 1000)
def module():
    if 'm' not in _js:
        d = f'{scratch()}/timeutils_driver.cpp'; shutil.copy(VERIF + '/harness/timeutils_driver.cpp', d); _js['m'] = compile_ir([d, SRC + 'time/TimeUtils.cpp', SRC + 'datatypes/Date.cpp'], 'timeutils')
    return _js['m']
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def ident(v): return v if isinstance(v, z3.ExprRef) else z3.IntVal(v) if isinstance(v, int) else z3.Int('text:' + str(v))
def uf(n, *a): return z3.Function(n, *([z3.IntSort()] * (len(a) + 1)))(*[zi(x) for x in a])
def S(E, st, x): return zi(E.s(st, x))
def dim(E, st, y, m): return z3.If(m == 2, z3.If(Cal(E, st).leap(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
def exists(E, st, f): return f['day'] <= dim(E, st, f['year'], f['month'])
def get(E, st, kind, p):
    o = obj(E, st, 'fields', 56); s2, _ = quiet(E, st, f'vc_{kind}_get', p, o)
    return {n: S(E, s2, E.load(s2, Ptr(o.obj, 8 * k), 'i64', 8)) for k, n in enumerate(FIELDS[kind])}
def put(E, st, kind, p, f):
    quiet(E, st, f'vc_{kind}_set', p, *[IV(W[n], zi(f[n]), -(1 << W[n] - 1), (1 << W[n] - 1) - 1) for n in FIELDS[kind]])
def made(E, st, kind, tag, *a):
    """an object whose fields are functions of the arguments, each in its range"""
    f = {n: uf(f'{tag}.{n}', *a) for n in FIELDS[kind]}
    st.pc += [z3.And(f[n] >= RANGE[n][0], f[n] <= RANGE[n][1]) for n in f]; return f
def new(E, st, kind, nm): return obj(E, st, nm, E.sz[kind])
def give(E, st, kind, f, a, fn):
    """returns a struct, in memory or in registers as the ABI of the call wants it"""
    if fn['ret'] == 'void': put(E, st, kind, a[0], f); return None
    p = new(E, st, kind, 'result of ' + kind); put(E, st, kind, p, f)
    if fn['ret'] in ('i32', 'i64'): return E.load(st, p, fn['ret'], int(fn['ret'][1:]) // 8)
    return Agg([E.load(st, p, 'i64', 8), E.load(st, Ptr(p.obj, 8), 'i32', 4)])
def setup(E):
    setup_types(E, {'Str': 32, 'Status': 8, 'Value': 16}, [], qual={'Str': STRQ, 'Status': 'nebula::Status', 'Value': 'nebula::Value'}, cname={'Str': 'basic_string'}); on = E.on_first; live = E.g_live; start = E.g_start
    on(STRQ + r'::basic_string\(\)', lambda E, st, a, f, i: (start(E, st, a[0], 'Str', lit(''), 'string'), None)[1])
    def cstr(E, st, p):
        b = stdlib.rope_literal(E, E.rope_norm(st, stdlib.cstr_rope(E, st, p)))
        if b is None: raise Unsupported('a text that is not a literal')
        return lit(bytes(b).decode() if not isinstance(b, str) else b)
    on(STRQ + r'::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', lambda E, st, a, f, i: (start(E, st, a[0], 'Str', cstr(E, st, a[1]), 'string'), None)[1])
    T = lambda E, st, p: ident(live(E, st, p, 'Str', 'text')[1])
    on(r'bool std::operator==<char.*>\(' + STRQ + r' const&, char const\*\)', lambda E, st, a, f, i: T(E, st, a[0]) == cstr(E, st, a[1]))
    on(r'bool std::operator!=<char.*>\(' + STRQ + r' const&, char const\*\)', lambda E, st, a, f, i: T(E, st, a[0]) != cstr(E, st, a[1]))
    on(r'bool std::operator==<char.*>\(' + STRQ + r' const&, ' + STRQ + r' const&\)', lambda E, st, a, f, i: T(E, st, a[0]) == T(E, st, a[1]))
    on(r'bool std::operator!=<char.*>\(' + STRQ + r' const&, ' + STRQ + r' const&\)', lambda E, st, a, f, i: T(E, st, a[0]) != T(E, st, a[1]))
    on(STRQ + r'::compare\(char const\*\) const', lambda E, st, a, f, i: IV(32, z3.If(T(E, st, a[0]) == cstr(E, st, a[1]), 0, 1), 0, 1))
    on(STRQ + r'::(c_str|data)\(\) const', lambda E, st, a, f, i: OPtr(uf('cstr', T(E, st, a[0]))))
    on(r'nebula::(Date|Time|DateTime|Value)::toString(\[abi:cxx11\])?\(\) const', lambda E, st, a, f, i: (start(E, st, a[0], 'Str', z3.Int(fresh_name('text:shown')), 'text'), None)[1])
    on(STRQ + r' boost::algorithm::to_lower_copy<.*>\(.*\)', lambda E, st, a, f, i: (start(E, st, a[0], 'Str', uf('lower', T(E, st, a[1])), 'text'), None)[1])
    on(r'std::locale::(~?)locale\(.*\)', lambda E, st, a, f, i: None)
    on(r'nebula::Status::Status\(\)', lambda E, st, a, f, i: (start(E, st, a[0], 'Status', 'ok', 'status'), None)[1])
    on(r'nebula::Status::(Error|OK)\(.*\)', lambda E, st, a, f, i: (start(E, st, a[0], 'Status', 'error' if 'Error' in f['dem'] else 'ok', 'status'), None)[1])
    on(r'nebula::Status::ok\(\) const', lambda E, st, a, f, i: live(E, st, a[0], 'Status', 'ok')[1] == 'ok')
    on(r'strerror', lambda E, st, a, f, i: OPtr(z3.Int('strerror'))); on(r'__errno_location', lambda E, st, a, f, i: (lambda p: (E.store(st, p, E.sym(st, 32, fresh_name('errno')), 'i32', 4), p)[1])(obj(E, st, 'errno', 4)))
    # values
    V = r'nebula::Value::'
    def mk(w):
        def h(E, st, a, f, i):
            start(E, st, a[0], 'Value', ('int', S(E, st, E.load(st, a[1], f'i{w}', w // 8))), 'value'); return None
        return h
    for t, w in (('signed char', 8), ('short', 16), ('int', 32), ('long', 64)):
        on(V + rf'Value\({t} const&\)', mk(w)); on(V + rf'Value\({t}&&\)', mk(w))
    def isk(k): return lambda E, st, a, f, i: (lambda v: uf('kind', v[1]) == k if v[0] == 'arb' else k == 1 if v[0] == 'int' else False)(live(E, st, a[0], 'Value', 'kind of a value')[1])
    on(V + r'isInt\(\) const', isk(1)); on(V + r'isStr\(\) const', isk(2))
    def getint(E, st, a, f, i):
        v = live(E, st, a[0], 'Value', 'getInt')[1]; E.oblige(st, zb(v[0] == 'int') if v[0] != 'arb' else uf('kind', v[1]) == 1, 'precondition', 'the value read as a number is a number')
        t = v[1] if v[0] == 'int' else uf('int', v[1]); st.pc.append(z3.And(t >= I64[0], t <= I64[1])); p = obj(E, st, 'number in a value', 8); E.store(st, p, IV(64, t, *I64), 'i64', 8); st.rw(p.obj).ro = True; return p
    on(V + r'getInt\(\) const', getint)
    def getstr(E, st, a, f, i):
        v = live(E, st, a[0], 'Value', 'getStr')[1]; E.oblige(st, zb(False) if v[0] != 'arb' else uf('kind', v[1]) == 2, 'precondition', 'the value read as text is text')
        p = obj(E, st, 'text in a value', 32); st.rw(p.obj).g[('lt', 0)] = ('Str', uf('text', v[1])); st.rw(p.obj).ro = True; return p
    on(V + r'getStr(\[abi:cxx11\])?\(\) const', getstr)
    def vcopy(E, st, a, f, i):
        o = st.mem[a[1].obj]
        if ('lt', a[1].off) not in o.g: start(E, st, a[0], 'Value', ('global', o.name), 'value'); return None
        start(E, st, a[0], 'Value', live(E, st, a[1], 'Value', 'copy')[1], 'value'); return None
    on(V + r'Value\(nebula::Value const&\)', vcopy)
    # maps
    M = r'std::unordered_map<' + STRQ + r', nebula::Value, .*>::'; PK = ('mapstate',)
    def node(E, st, k):
        q = obj(E, st, f'the entry {k}', 56); o = st.rw(q.obj); o.g[('lt', 8)] = ('Str', st.g['other'] if k == 'other' else lit(k)); o.g[('lt', 40)] = ('Value', ('arb', vid(k))); o.ro = True; o.g['key'] = k; return q
    E.node = node
    def nxt(E, st, first=False):
        """the cases of the next entry: the end when every entry was visited, or any entry that was not"""
        P = st.g['visited']; out = []
        for k in list(P) + [None]:
            s2 = st.fork(); c = z3.And([here(x) == P[x] for x in P]) if k is None else z3.And(here(k), z3.Not(P[k])); s2.pc.append(c)
            if E.feasible(s2): out.append((s2, NULL if k is None else node(E, s2, k)))
        return out
    E.nxt = nxt
    def begin(E, st, a, f, i): st.g['visited'] = {k: z3.BoolVal(False) for k in E.names}; return nxt(E, st)
    on(M + r'c?begin\(\) const', begin); on(M + r'c?end\(\) const', lambda E, st, a, f, i: NULL); on(M + r'empty\(\) const', lambda E, st, a, f, i: z3.Not(z3.Or([here(k) for k in E.names])))
    def incr(E, st, a, f, i):
        p = E.load(st, a[0], 'ptr', 8)
        if not isinstance(p, Ptr) or p.obj is None or 'key' not in st.mem[p.obj].g: E.oblige(st, False, 'bounds', 'the iterator moved on stands on an entry'); raise DropPath()
        k = st.mem[p.obj].g['key']; st.g['visited'] = {**st.g['visited'], k: z3.BoolVal(True)}; out = []
        for s2, q in nxt(E, st): E.store(s2, a[0], q, 'ptr', 8); out.append((s2, a[0]))
        return out
    on(r'std::__detail::_Node_const_iterator<std::pair<' + STRQ + r' const, nebula::Value>, .*>::operator\+\+\(\)', incr)
    E.loopspecs.append((re.compile('.*'), lambda E, f, idx, bid, blocks, env, st: MapLoop() if 'visited' in st.g else None))
    def find(E, st, a, f, i):
        t = T(E, st, a[1]); out = []
        for k in E.names:
            if k == 'other': continue
            s2 = st.fork(); s2.pc.append(z3.And(t == lit(k), here(k)))
            if E.feasible(s2): out.append((s2, node(E, s2, k)))
        st.pc += [z3.Not(z3.And(t == lit(k), here(k))) for k in E.names if k != 'other']
        if E.feasible(st): out.append((st, NULL))
        return out
    on(M + r'find\(.*\) const', find)
    on(M + r'(size|count)\(.*\) const', lambda E, st, a, f, i: (_ for _ in ()).throw(Unsupported('the size of a map')))
    # text
    def stream(E, st, a, f, i):
        vt = obj(E, st, 'virtual base table', 64); E.store(st, vt, IV(64, 120, *I64), 'i64', 8); E.store(st, a[0], Ptr(vt.obj, 24), 'ptr', 8); st.rw(a[0].obj).g['stream'] = [T(E, st, a[1]), z3.BoolVal(False)]
    on(r'std::__cxx11::basic_istringstream<.*>::basic_istringstream\(' + STRQ + r' const&, .*\)', stream)
    on(r'std::__cxx11::basic_istringstream<.*>::~basic_istringstream\(\)', lambda E, st, a, f, i: None)
    on(r'std::basic_ios<.*>::fail\(\) const', lambda E, st, a, f, i: st.mem[a[0].obj].g['stream'][1]); on(r'std::basic_ios<.*>::operator!\(\) const', lambda E, st, a, f, i: st.mem[a[0].obj].g['stream'][1])
    on(r'std::basic_ios<.*>::operator bool\(\) const', lambda E, st, a, f, i: z3.Not(st.mem[a[0].obj].g['stream'][1]))
    def gettime(E, st, a, f, i):
        if len(a) == 3: tm, fmt = a[1], a[2]
        else: tm, fmt = E.load(st, a[1], 'ptr', 8), E.load(st, Ptr(a[1].obj, a[1].off + 8), 'ptr', 8)
        x, bad = st.mem[a[0].obj].g['stream']; fm = stdlib.rope_literal(E, E.rope_norm(st, stdlib.cstr_rope(E, st, fmt))); fm = fm if isinstance(fm, str) else bytes(fm).decode(); L = lit(fm)
        E.oblige(st, z3.Not(bad), 'precondition', 'the stream is read before it failed'); E.check_access(st, tm, 56, 'get_time')
        for k, (n, off, lo, hi, d) in TM.items():
            if '%' + k not in fm: continue
            g, v = given(n, x, L), got(n, x); old = E.load(st, Ptr(tm.obj, tm.off + off), 'i32', 4)
            if isinstance(old, Undef): E.oblige(st, g, 'initialised', f'the {n} that the text leaves out was set before'); old = z3.IntVal(0)
            else: old = S(E, st, old)
            st.pc.append(z3.And(v >= lo, v <= hi)); E.store(st, Ptr(tm.obj, tm.off + off), IV(32, z3.If(g, v - d, old), -(1 << 31), (1 << 31) - 1), 'i32', 4)
        st.rw(a[0].obj).g['stream'] = [x, z3.Not(readable(x, L))]; return a[0]
    on(r'std::basic_istream<.*>& std::operator>><.*>\(std::basic_istream<.*>&, std::_Get_time<char>\)', gettime)
    # the calendar and the clock
    on(TC + r'dateTimeToUnixSeconds\(nebula::DateTime const&\)', lambda E, st, a, f, i: IV(64, unix(E, st, get(E, st, 'DateTime', a[0])), *I64))
    def conv(kind, tag): return lambda E, st, a, f, i: give(E, st, kind, made(E, st, kind, tag, S(E, st, a[-1])) | ({'microsecond': 0} if kind != 'Date' else {}), a, f)
    on(TC + r'unixSecondsToDateTime\(long\)', conv('DateTime', 'calendar')); on(TC + r'unixSecondsToDate\(long\)', conv('Date', 'calendar')); on(TC + r'unixSecondsToTime\(long\)', conv('Time', 'calendar'))
    def shift(kind):
        def h(E, st, a, f, i):
            x = get(E, st, kind, a[-2]); return give(E, st, kind, shifted(E, st, kind, x, S(E, st, a[-1])), a, f)
        return h
    on(TC + r'dateTimeShift\(nebula::DateTime const&, long\)', shift('DateTime')); on(TC + r'timeShift\(nebula::Time const&, long\)', shift('Time'))
    on(r'nebula::time::Timezone::utcOffsetSecs\(\) const', lambda E, st, a, f, i: IV(32, OFFSET, -86400, 86400))
    on(r'nebula::time::Timezone::getGlobalTimezone\(\)', lambda E, st, a, f, i: obj(E, st, 'the time zone', 64))
    on(r'nebula::time::WallClock::fastNowInMilliSec\(\)', lambda E, st, a, f, i: (st.pc.append(z3.And(NOW >= 0, NOW < 1 << 60)), IV(64, NOW, 0, 1 << 60))[1])
    on(r'time', lambda E, st, a, f, i: IV(64, CLOCK, *I64))
OFFSET = z3.Int('offset of the time zone'); NOW = z3.Int('now in milliseconds'); CLOCK = z3.Int('time()')
TM = dict(S=('second', 0, 0, 60, 0), M=('minute', 4, 0, 59, 0), H=('hour', 8, 0, 23, 0), d=('day', 12, 1, 31, 0), m=('month', 16, 1, 12, 1), Y=('year', 20, 0, 9999, 1900))
def vid(k): return z3.Int('value of ' + k)
def here(k): return z3.Bool('the map has ' + k)
def val(k): return uf('int', vid(k))
def isint(k): return uf('kind', vid(k)) == 1
def legal(k): return z3.And(isint(k), val(k) >= RANGE[k][0], val(k) <= RANGE[k][1])
def given(n, x, L): return uf('given.' + n, x, L) == 1
def got(n, x): return uf('got.' + n, x)
def readable(x, L): return uf('readable', x, L) == 1
def unix(E, st, f):
    t = uf('unix seconds', *[f[n] for n in FIELDS['DateTime'][:6]]); st.pc.append(z3.And(t > -(1 << 50), t < 1 << 50)); return t
def shifted(E, st, kind, f, by):
    if kind == 'DateTime': return made(E, st, 'DateTime', 'calendar', unix(E, st, f) + by) | {'microsecond': f['microsecond']}
    return made(E, st, 'Time', 'calendar', f['hour'] * 3600 + f['minute'] * 60 + f['second'] + by) | {'microsecond': f['microsecond']}
class MapLoop(loops.Houdini):
    """A loop over the entries of a map. An arbitrary iteration: any set of entries was visited, among them none that ends the loop, and the next is
    any of the others. A location that only the entry k writes holds what k writes there once k was visited, and what it held before until then; a
    location that several entries write is arbitrary. An entry may have been visited only if an iteration for it reaches the head again."""
    def __init__(self): pass
    def heads(self, E, b, env, st):
        """the variable that is the iterator: a phi or a memory cell"""
        it = [('phi', i['id']) for i in b['insts'] if i['op'] == 'phi' and isinstance(env[i['id']], Ptr) and self.isnode(st, env[i['id']])]
        for o in st.mem.values():
            if o.alive and o.kind == 'stack': it += [('mem', o.id, off) for off, (sz, v) in o.cells.items() if isinstance(v, Ptr) and sz == 8 and self.isnode(st, v)]
        return it
    def isnode(self, st, v): return v.obj is not None and v.obj in st.mem and 'key' in st.mem[v.obj].g and v.off == 0
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        P0 = st.g['visited']; names = list(P0); cur = self.heads(E, b, env, st)
        if not all(z3.is_false(z3.simplify(x)) for x in P0.values()): raise Unsupported('a loop over a map that does not start at its first entry')
        if not cur:       # the map has no entries
            return [(env, st, dict(skip=True))]
        known = set(st.mem); ends = {}; wr = {}; multi = set(); itloc = None
        def arb(P, k):
            s2 = st.fork(); e2 = dict(env); s2.g['visited'] = dict(P); s2.pc += [z3.Implies(P[x], z3.And(here(x))) for x in P]
            n = NULL if k is None else E.node(E, s2, k)
            for c in cur:
                if c[0] == 'phi': e2[c[1]] = n
                else: s2.rw(c[1]).cells[c[2]] = (8, n)
            return s2, e2
        regs = [('phi', i['id'], tw(i['ty'])) for i in b['insts'] if i['op'] == 'phi' and ('phi', i['id']) not in cur]
        if any(not w[2] for w in regs): raise Unsupported('a loop over a map with a loop variable that is not a number')
        # what an iteration for each entry writes, from a head at which nothing is known of the variables
        for k in names:
            s2, e2 = arb({x: z3.Bool(fresh_name('v')) for x in names}, k); s2.pc = [c for c in s2.pc if 'the map has' not in str(c)] + [here(k)]; s2.writes = set()
            es = [(e, s) for e, s in self.probe(E, f, b, e2, s2, lctx, blocks, depth)]
            if not es: continue
            ends[k] = True
            for e, s in es:
                for w in s.writes or ():
                    if w[0] not in known or any(c[0] == 'mem' and (w[0], w[1]) == c[1:] for c in cur): continue
                    if w[1] == 'sym': raise Unsupported('a loop over a map writes at a symbolic position')
                    wr.setdefault(w, {}).setdefault(k, []).append((e, s))
                for w in regs:
                    if e[w[1]] is not env[w[1]]: wr.setdefault(w, {}).setdefault(k, []).append((e, s))
        P = {k: z3.Bool(fresh_name('visited ' + k)) if k in ends else z3.BoolVal(False) for k in names}
        form = {}
        for w, by in wr.items():
            size = w[2]; old = self.at(env, st, w); form[w] = None; bits = size if w[0] == 'phi' else 8 * size
            ends_ = [self.at(e, s, w) for ss in by.values() for e, s in ss]
            if bits == 1 or any(c is None or c[0] != size or not isinstance(c[1], (IV, Bits, int)) for c in ends_ + [old]): continue
            cuts = {0, bits}
            for c in ends_:
                x = 0
                for pw, _ in (c[1].parts if isinstance(c[1], Bits) else ()): x += pw; cuts.add(x)
            cuts = sorted(cuts); form[w] = fs = []
            for lo, hi in zip(cuts, cuts[1:]):
                was = self.chunk(E, st, old[1], lo, hi - lo); own = {}
                for k, ss in by.items():
                    for e, s in ss:
                        v = self.chunk(E, s, self.at(e, s, w)[1], lo, hi - lo)
                        if not E.eqt(s, E.u(s, v), E.u(s, was)): own[k] = (s, v)
                if len(own) > 1: fs.append((lo, hi - lo, None)); continue
                if not own: fs.append((lo, hi - lo, ('same', E.u(st, was), None, False))); continue
                k = next(iter(own)); s, v = own[k]; sg = E.s(s, v) is not None and v.lo < 0; t = zi(E.s(s, v) if sg else E.u(s, v)); t = val(k) if E.valid(s, t == val(k)) else t; n = hi - lo
                if not sg and t is not val(k) and E.valid(s, z3.And(val(k) >= -(1 << n - 1), val(k) < 1 << n - 1, t == z3.If(val(k) < 0, val(k) + (1 << n), val(k)))): t, sg = val(k), True
                fs.append((lo, hi - lo, (k, t, zi(E.s(st, was) if sg else E.u(st, was)), sg)))
        out = []; okk = {}
        cases = [(k, P) for k in names] + [(None, {**P, 'year': z3.BoolVal(b_)}) for b_ in (True, False)] if 'year' in P and 'year' in ends else [(k, P) for k in [None] + names]
        for k, P in cases:
            s2, e2 = arb(P, k); s2.pc = [c for c in s2.pc if 'the map has' not in str(c)]
            s2.pc += [z3.Implies(P[x], z3.And(here(x), *( [legal(x)] if x != 'other' else []))) for x in names] + [z3.Not(z3.And(P['other']))]
            s2.pc.append(z3.And([here(x) == P[x] for x in names]) if k is None else z3.And(here(k), z3.Not(P[k])))
            for w, fo in form.items():
                if fo is None and w[0] == 'phi': e2[w[1]] = self.fresh(E, s2, 'i%d' % w[2], None); continue
                if fo is None: E.kill_cells(s2, s2.rw(w[0]), w[1], w[2]); continue
                b_ = Bits([(n, self.value(E, s2, P, n, x)) for lo, n, x in fo]); b_ = b_ if len(b_.parts) > 1 else E.iv(b_)
                if w[0] == 'phi': e2[w[1]] = b_
                else: s2.rw(w[0]).cells[w[1]] = (w[2], b_)
            s2.writes = set()
            if E.feasible(s2): out.append((e2, s2, dict(k=k, P=P, form=form, known=known, cur=cur, still=[(w, e2[w[1]]) for w in regs if w not in form])))
        E.loopinv = getattr(E, 'loopinv', []) + [f"{f['dem'].split('(')[0]}: every entry visited is a known name with a whole number in its range, and each field holds what its entry says once it was visited"]
        return out
    decomp = False
    def at(self, env, st, w): return (w[2], env[w[1]]) if w[0] == 'phi' else st.mem[w[0]].cells.get(w[1])
    def chunk(self, E, st, v, lo, n):
        if isinstance(v, IV) and lo == 0 and v.w == n: return v
        return E.iv(Bits(E.slice(st, v, lo, n)))
    def value(self, E, st, P, n, x):
        if x is None: t = z3.Int(fresh_name('some')); st.pc.append(z3.And(t >= 0, t < 1 << n)); return IV(n, t, 0, (1 << n) - 1)
        k, t, old, sg = x; r = zi(t) if k == 'same' else t if z3.is_true(P[k]) else old if z3.is_false(P[k]) else z3.If(P[k], t, old); return IV(n, r, *((-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)))
    def back(self, E, f, b, env, st, data, depth):
        if data.get('skip'): raise Unsupported('a loop over an empty map iterates')
        k = data['k']; P = {**data['P'], k: z3.BoolVal(True)}
        E.oblige(st, k is not None and k != 'other', 'invariant', 'an entry with another name ends the loop', assume=False)
        if k is None or k == 'other': return
        E.oblige(st, legal(k), 'invariant', f'an entry {k} that is not a whole number in its range ends the loop', assume=False)
        E.oblige(st, all(z3.is_true(z3.simplify(zb(st.g['visited'][x]))) == True if x == k else st.g['visited'][x] is data['P'][x] for x in P), 'invariant', 'one entry is visited in a round', assume=False)
        for c in data['cur']:
            v = env[c[1]] if c[0] == 'phi' else st.mem[c[1]].cells[c[2]][1]
            E.oblige(st, isinstance(v, Ptr) and (v.obj is None or self.isnode(st, v)), 'invariant', 'the iterator stands on an entry or at the end', assume=False)
        for w, fo in data['form'].items():
            if fo is None: continue
            c = self.at(env, st, w)
            if c is None or c[0] != w[2] or not isinstance(c[1], (IV, Bits, int)): E.oblige(st, False, 'invariant', f'what is written to {"a variable" if w[0] == "phi" else st.mem[w[0]].name} is whole numbers', assume=False); continue
            for lo, n, x in fo:
                if x is not None: E.oblige(st, E.u(st, self.chunk(E, st, c[1], lo, n)) == E.u(st, self.value(E, st, P, n, x)), 'invariant', f'what the entry {x[0]} writes is all that is written there', assume=False)
        for w, v in data['still']: E.oblige(st, env[w[1]] is v or isinstance(v, (IV, Bits)) and E.u(st, env[w[1]]) == E.u(st, v), 'invariant', 'the loop changes only what it accumulates', assume=False)
        for w in st.writes or ():
            if w[0] in data['known'] and w not in data['form'] and not any(c[0] == 'mem' and (w[0], w[1]) == c[1:] for c in data['cur']): E.oblige(st, False, 'frame', f'the loop writes only what it accumulates, not {st.mem[w[0]].name}' + (f' {w} {f["dem"]} {list(data["form"])}' if os.environ.get('DBG') else ''), assume=False)
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E); abort_handler(E); st = State(); E.sz = {}; E.rs = {}
        for k in ('Date', 'Time', 'DateTime', 'Value'): E.sz[k] = E.u(st, quiet(E, st, f'vc_{k}_size')[1]); E.rs[k] = E.u(st, quiet(E, st, f'vc_{k}_rsize')[1])
        E.names = []; return E
    return mk
def okay(E, st, kind, o): s2, b = quiet(E, st, f'vc_{kind}_ok', o); return zb(b if isinstance(b, (bool, z3.ExprRef)) else E.boolv(b))
def result(E, s2, kind, o, want, good, what):
    """the result is there exactly when good; then the object has the fields wanted"""
    k = okay(E, s2, kind, o); ob(E, s2, f'{what}: a result exactly when the input is one', k == good)
    if E.valid(s2, k):
        p = quiet(E, s2, f'vc_{kind}_val', o)[1]; f = get(E, s2, kind, p)
        for n in FIELDS[kind]: ob(E, s2, f'{what}: the {n}', f[n] == want[n])
    elif not E.valid(s2, z3.Not(k)): ob(E, s2, f'{what}: it is known whether there is a result', False)
def u_map(kind, root):
    def u(E):
        names = FIELDS[kind]; E.names = list(names) + ['other']; st = State(); st.g['other'] = z3.Int('other name'); st.pc += [st.g['other'] != lit(n) for n in names] + [z3.And(uf('int', vid(n)) >= I64[0], uf('int', vid(n)) <= I64[1]) for n in E.names]
        m = obj(E, st, 'map', E.u(st, quiet(E, st, 'vc_Map_size')[1])); st.rw(m.obj).ro = True; o = obj(E, st, 'result', E.rs[kind])
        def post(s2, r):
            want = {n: val(n) if E.valid(s2, here(n)) else z3.IntVal(DEF[n]) if E.valid(s2, z3.Not(here(n))) else z3.If(here(n), val(n), DEF[n]) for n in names}
            good = z3.And([z3.Implies(here(n), legal(n)) for n in names] + [z3.Not(here('other'))]); good = z3.And(good, exists(E, s2, want)) if 'day' in names and E.feasible(s2, good) else good
            result(E, s2, kind, o, want, good, root)
        Run(E, TU + root).go(st, 'vc_' + root, [o, m], post)
        ob(E, st, 'no map ends the program', E.aborts == 0)
    return u
def text(E, st, t, nm): p = obj(E, st, nm, 32); st.rw(p.obj).g[('lt', 0)] = ('Str', t); st.rw(p.obj).ro = True; return p
def reads(x, fm, kind):
    """what get_time finds in the text with a format"""
    L = lit(fm); k = {n: c for c, (n, *_) in TM.items()}
    f = {n: z3.If(given(n, x, L), got(n, x), dict(year=1900).get(n, DEF[n])) for n in FIELDS[kind] if n != 'microsecond'}
    if kind != 'Date': f['microsecond'] = z3.IntVal(0)
    return readable(x, L), f
FMT = dict(Date=['%Y-%m-%d'], Time=['%H:%M:%S'], DateTime=['%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S'])
def parsed(E, st, x, kind):
    """the documented reading of a text: (is it one, fields)"""
    rs = [reads(x, fm, kind) for fm in FMT[kind]]
    if len(rs) == 2:
        # a text that has a blank where the first format wants a T was read by it up to there: the second format reads as much again
        st.pc += [z3.Implies(z3.And(z3.Not(rs[0][0]), rs[1][0], given(n, x, lit(FMT[kind][0]))), given(n, x, lit(FMT[kind][1]))) for n in FIELDS[kind][:6]]
    okk = z3.Or([r[0] for r in rs]); f = rs[-1][1]
    for g, h in reversed(rs[:-1]): f = {n: z3.If(g, h[n], f[n]) for n in f}
    return (z3.And(okk, exists(E, st, f)) if kind != 'Time' else okk), f
def u_parse(kind):
    def u(E):
        st = State(); x = z3.Int('text:given'); p = text(E, st, x, 'the text'); o = obj(E, st, 'result', E.rs[kind]); good, want = parsed(E, st, x, kind)
        Run(E, TU + 'parse' + kind).go(st, 'vc_parse' + kind, [o, p], lambda s2, r: result(E, s2, kind, o, want, good, 'parse' + kind))
        ob(E, st, 'no text ends the program', E.aborts == 0)
    return u
def u_stamp(E):
    st = State(); v = z3.Int('value given'); p = obj(E, st, 'value', 16); st.rw(p.obj).g[('lt', 0)] = ('Value', ('arb', v)); st.rw(p.obj).ro = True; o = obj(E, st, 'result', E.rs['Value']); x = uf('text', v); kd = uf('kind', v); st.pc += [kd >= 0, kd < 20, uf('int', v) >= I64[0], uf('int', v) <= I64[1]]
    good, f = parsed(E, st, x, 'DateTime'); sec = z3.If(kd == 1, uf('int', v), unix(E, st, f)); good = z3.And(z3.Or(kd == 1, z3.And(kd == 2, good)), sec >= 0, sec <= I64[1] // 1000000000)
    def post(s2, r):
        k = okay(E, s2, 'Value', o); ob(E, s2, 'a timestamp exactly from a number of seconds, or a text of a moment, that the kernel can represent', k == good)
        if E.valid(s2, k):
            w = E.g_live(E, s2, quiet(E, s2, 'vc_Value_val', o)[1], 'Value', 'timestamp')[1]; ob(E, s2, 'it is the number of seconds', w[1] == sec if w[0] == 'int' else False)
    Run(E, TU + 'toTimestamp').go(st, 'vc_toTimestamp', [o, p], post); ob(E, st, 'no value ends the program', E.aborts == 0)
def u_attr(kind):
    L = dict(Date='date', Time='time', DateTime='dateTime')[kind] + 'Attr'
    def u(E):
        st = State(); d = new(E, st, kind, kind); f = made(E, st, kind, 'given', 0); put(E, st, kind, d, f); st.rw(d.obj).ro = True; x = z3.Int('text:attribute'); p = text(E, st, x, 'attribute'); o = obj(E, st, 'result', 16); lo = uf('lower', x); names = FIELDS[kind]
        def post(s2, r):
            v = E.g_live(E, s2, o, 'Value', 'result')[1]
            if v[0] == 'int': ob(E, s2, 'a number is the field of the name, in any case', z3.Or([z3.And(lo == lit(n), v[1] == f[n]) for n in names]))
            else: ob(E, s2, 'any other name gives the null of an unknown property', z3.And([lo != lit(n) for n in names] + [zb(v == ('global', '_ZN6nebula5Value16kNullUnknownPropE'))]))
        Run(E, TU + f'get{kind}Attr').go(st, 'vc_' + L, [o, d, p], post)
    return u
def off(st): st.pc += [OFFSET >= -86400, OFFSET <= 86400]
def u_zone(root, kind, sign):
    def u(E):
        st = State(); off(st); d = new(E, st, kind, kind); f = made(E, st, kind, 'given', 0); put(E, st, kind, d, f); st.rw(d.obj).ro = True; o = new(E, st, kind, 'result'); want = shifted(E, st, kind, f, sign * OFFSET)
        def post(s2, r):
            g = get(E, s2, kind, o)
            for n in FIELDS[kind]: ob(E, s2, f'{root}: the {n} is that of the moment {"after" if sign > 0 else "before"} the offset', g[n] == want[n])
        Run(E, TU + root).go(st, 'vc_' + root, [o, d], post)
    return u
def u_now(root, kind, sign):
    def u(E):
        st = State(); off(st); st.pc += [NOW >= 0, NOW < 1 << 60]; o = new(E, st, kind, 'result'); s = E.fdiv(st, NOW, 1000); want = made(E, st, kind, 'calendar', s + sign * OFFSET) | {'microsecond': (NOW - 1000 * s) * 1000}
        def post(s2, r):
            g = get(E, s2, kind, o)
            for n in FIELDS[kind]: ob(E, s2, f'{root}: the {n} is that of the clock' + (' and the offset' if sign else ''), g[n] == want[n])
        Run(E, TU + root).go(st, 'vc_' + root, [o], post)
    return u
def u_today(root, sign):
    def u(E):
        st = State(); off(st); st.pc += [CLOCK >= -1, CLOCK < 1 << 60]; o = obj(E, st, 'result', E.rs['Date']); want = made(E, st, 'Date', 'calendar', CLOCK + sign * OFFSET)
        Run(E, TU + root).go(st, 'vc_' + root, [o], lambda s2, r: result(E, s2, 'Date', o, want, CLOCK != -1, root))
    return u
def u_leap(E):
    E.handlers_off = True; st = State(); y = E.sym(st, 16, 'year'); t = S(E, st, y); c = Cal(E, st)
    Run(E, TC + 'isLeapYear').go(st, 'vc_leap', [y], lambda s2, r: ob(E, s2, 'leap years are every fourth, but of the hundreds only every fourth', zb(r if isinstance(r, (bool, z3.ExprRef)) else E.boolv(r)) == Cal(E, s2).leap(t)))
class PROP(Property):
    id = 'C37'; budget = 200
    assumptions = ['std::get_time by contract: it reports whether the text can be read with the format, sets the fields that the text gives (years 0 to 9999, seconds up to the leap second 60), and leaves the others; a text that the first format stops at is read at least as far by the second', 'TimeConversion by contract (C01 to C03), Value, Status and std::string by contract (C12, C18); the texts of messages are not checked', 'the entries of a map have different names and are visited once each, in any order', 'the milliseconds of the clock are between 0 and 2^60, the offset of the time zone within a day', LOGNOTE]
    def units(self):
        P = engine(); plain = std_engine(module())
        return [(f'{r}', P, u_map(k, r)) for k, r in (('Date', 'dateFromMap'), ('Time', 'timeFromMap'), ('DateTime', 'dateTimeFromMap'))] + [('parse' + k, P, u_parse(k)) for k in FIELDS] + [('toTimestamp', P, u_stamp), ('isLeapYear', plain, u_leap)] + \
               [(f'get{k}Attr', P, u_attr(k)) for k in FIELDS] + [('timeToUTC', P, u_zone('timeToUTC', 'Time', -1)), ('utcToTime', P, u_zone('utcToTime', 'Time', 1)), ('dateTimeToUTC', P, u_zone('dateTimeToUTC', 'DateTime', -1)), ('utcToDateTime', P, u_zone('utcToDateTime', 'DateTime', 1))] + \
               [('localTime', P, u_now('localTime', 'Time', 1)), ('utcTime', P, u_now('utcTime', 'Time', 0)), ('localDateTime', P, u_now('localDateTime', 'DateTime', 1)), ('utcDateTime', P, u_now('utcDateTime', 'DateTime', 0)), ('localDate', P, u_today('localDate', 1)), ('utcDate', P, u_today('utcDate', 0))]
    search = search_prog(['time/%s.cpp' % x for x in ('TimeUtils', 'TimeConversion', 'TimezoneInfo', 'WallClock', 'detail/TscHelper', 'Duration')] + ['base/Status.cpp'] + ['datatypes/%s.cpp' % x for x in ('Value', 'Date', 'List', 'Map', 'Set', 'Edge', 'Vertex', 'Path')], 'timeutils_search',
                         lambda tier: ['200000' if tier == 'thorough' else '10000'], libs=('-lglog', '-lgflags', '-lpthread', '-lboost_date_time'))
