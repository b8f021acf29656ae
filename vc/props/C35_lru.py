"""LRU<K, V> and ConcurrentLRUCache<K, V> for any K and V. The list is a set of nodes with keys and ranks (smaller: more recently used), the map a partial
function from keys to a value and a node; both by contract, the code between them is executed. From any state that satisfies the invariant (map and list
hold the same keys, at most the capacity) every function of LRU is compared with the abstract cache; the cache on top is checked against these contracts:
the bucket of the key, its lock held around the one call."""
from ghost import *
import shutil
LBL = 'nebula::LRU::'; CL = 'nebula::ConcurrentLRUCache::'; MAXU = (1 << 64) - 1; BIG = 1 << 62
_js = {}
def module():
    if 'm' not in _js:
        d = f'{scratch()}/lru_driver.cpp'; shutil.copy(VERIF + '/harness/lru_driver.cpp', d); _js['m'] = compile_ir([d, SRC + 'base/Status.cpp'], 'lru')
    return _js['m']
def zi(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def tob(E, x): return x if isinstance(x, z3.ExprRef) and z3.is_bool(x) else zb(x) if isinstance(x, bool) else zb(E.boolv(x))
def ident(v): return v if isinstance(v, z3.ExprRef) else z3.Int('id:' + str(v))
def uf(n, *a): return z3.Function(n, *([z3.IntSort()] * (len(a) + 1)))(*[zi(x) for x in a])
END = z3.Int('end of the list')
class Map:
    def __init__(s, has, val, node, n): s.has = has; s.val = val; s.node = node; s.n = n
class Lst:
    def __init__(s, mem, key, rank, n, lo, hi): s.mem = mem; s.key = key; s.rank = rank; s.n = n; s.lo = lo; s.hi = hi
has0 = lambda k: uf('has', k) == 1
val0 = lambda k: uf('val', k)
node0 = lambda k: uf('node', k)
mem0 = lambda x: uf('member', x) == 1
key0 = lambda x: uf('key', x)
rank0 = lambda x: uf('rank', x)
N = z3.Int('entries'); TOP = z3.Int('top rank')
def addnode(st, x):
    """what the invariant says about one node"""
    U = st.g.get('nodes', ())
    if any(x.eq(y) for y in U): return
    c = [z3.Implies(mem0(x), z3.And(has0(key0(x)), node0(key0(x)) == x, N >= 1, rank0(x) >= 0, rank0(x) < TOP, x != END))]
    c += [z3.Implies(z3.And(mem0(x), mem0(y), rank0(x) == rank0(y)), x == y) for y in U]
    for (f, L, sign) in st.g.get('ends', ()): c.append(z3.Implies(L.mem(x), L.rank(f) <= L.rank(x) if sign < 0 else L.rank(x) <= L.rank(f)))
    st.pc += c; st.g['nodes'] = U + (x,)
def addkey(st, k):
    x = node0(k); st.pc.append(z3.Implies(has0(k), z3.And(mem0(x), key0(x) == k, N >= 1))); addnode(st, x)
def endnode(E, st, L, sign, nm):
    """the first or last node of the list, the end when it is empty"""
    f = z3.Int(fresh_name(nm)); addnode(st, f); st.pc.append(z3.If(zi(L.n) > 0, L.mem(f), f == END)); st.pc += [z3.Implies(z3.And(zi(L.n) > 0, L.mem(x)), L.rank(f) <= L.rank(x) if sign < 0 else L.rank(x) <= L.rank(f)) for x in st.g['nodes']]
    st.g['ends'] = st.g.get('ends', ()) + ((f, L, sign),); return f
def setup(E):
    st0 = State(); q = lambda n: E.u(State(), quiet(E, State(), n)[1]); E.sz = {k: q(f'vc_{k}size') for k in 'lcbost'}
    setup_types(E, {'Key': 8, 'Val': 16, 'Status': 8}, [], qual={'Status': 'nebula::Status'}); on = E.on_first; live = E.g_live
    on(r'operator==\(Key const&, Key const&\)', lambda E, st, a, f, i: ident(live(E, st, a[0], 'Key', '==')[1]) == ident(live(E, st, a[1], 'Key', '==')[1]))
    on(r'std::hash<Key>::operator\(\)\(Key const&\) const', lambda E, st, a, f, i: (lambda t: (st.pc.append(z3.And(t >= 0, t <= MAXU)), IV(64, t, 0, MAXU))[1])(uf('hash', ident(live(E, st, a[1], 'Key', 'hash')[1]))))
    on(r'google::InitVLOG3__\(.*\)', lambda E, st, a, f, i: z3.Bool(fresh_name('vlog')))
    on(r'std::__cxx11::basic_string<.*>\* google::MakeCheckOpString<.*', lambda E, st, a, f, i: obj(E, st, 'arg text', 32))
    on(r'std::(basic_)?ostream(<.*>)?::operator<<\(.*\)|std::basic_ostream<.*>& std::operator<<.*', lambda E, st, a, f, i: a[0])
    def oload(st, p, ty, size): return E.rng(st, E.fresh_int(tw(ty), 'vlevel'))
    E.oload = oload
    # ---- the list
    Q = r'std::__cxx11::list<Key, std::allocator<Key>\s?>::'
    def lst(st, p): return st.mem[p.obj].g[('list', p.off)]
    def setl(st, p, L): st.rw(p.obj).g[('list', p.off)] = L
    E.lst = lst
    empty = lambda: Lst(lambda x: z3.BoolVal(False), key0, rank0, z3.IntVal(0), -1, 0)
    on(Q + r'list\(\)', lambda E, st, a, f, i: setl(st, a[0], empty()) and None); on(Q + r'~list\(\)', lambda E, st, a, f, i: None); on(Q + r'clear\(\)', lambda E, st, a, f, i: setl(st, a[0], empty()) and None)
    on(Q + r'size\(\) const', lambda E, st, a, f, i: IV(64, zi(lst(st, a[0]).n), 0, MAXU)); on(Q + r'empty\(\) const', lambda E, st, a, f, i: zi(lst(st, a[0]).n) == 0)
    def begin(E, st, a, f, i): return OPtr(endnode(E, st, lst(st, a[0]), -1, 'first'))
    on(Q + r'c?begin\(\)( const)?', begin); on(Q + r'c?end\(\)( const)?', lambda E, st, a, f, i: OPtr(END))
    def nodeof(E, st, p):
        if isinstance(p, OPtr): return p.t
        raise Unsupported(f'an iterator of the list at {p}')
    def itof(E, st, p): return nodeof(E, st, E.load(st, p, 'ptr', 8))
    def dec(E, st, a, f, i):
        x = itof(E, st, a[0]); E.oblige(st, x == END, 'precondition', 'the step back is from the end of the list') if not E.valid(st, x == END) else None
        L = E.thelist(st); E.oblige(st, zi(L.n) > 0, 'bounds', 'there is a last element'); E.store(st, a[0], OPtr(endnode(E, st, L, 1, 'last')), 'ptr', 8); return a[0]
    on(r'std::_List_(const_)?iterator<Key>::operator--\(\)', dec)
    def star(E, st, a, f, i):
        x = itof(E, st, a[0]); L = E.thelist(st); E.oblige(st, L.mem(x), 'bounds', 'the iterator is at an element'); p = obj(E, st, 'key in the list', 8); st.rw(p.obj).g[('lt', 0)] = ('Key', L.key(x)); st.rw(p.obj).ro = True; return p
    on(r'std::_List_(const_)?iterator<Key>::operator(\*|->)\(\) const', star)
    def viewk(E, st, x): L = E.thelist(st); p = obj(E, st, 'key in the list', 8); st.rw(p.obj).g[('lt', 0)] = ('Key', L.key(x)); st.rw(p.obj).ro = True; return p
    def front(E, st, a, f, i): L = lst(st, a[0]); E.oblige(st, zi(L.n) > 0, 'bounds', 'the list is not empty'); return viewk(E, st, endnode(E, st, L, -1, 'first'))
    def back(E, st, a, f, i): L = lst(st, a[0]); E.oblige(st, zi(L.n) > 0, 'bounds', 'the list is not empty'); return viewk(E, st, endnode(E, st, L, 1, 'last'))
    on(Q + r'front\(\)( const)?', front); on(Q + r'back\(\)( const)?', back)
    def push(sign):
        def h(E, st, a, f, i):
            L = lst(st, a[0]); g = live(E, st, a[1], 'Key', 'the key pushed'); k = ident(g[1]); x = z3.Int(fresh_name('new node')); st.pc += [z3.Not(L.mem(x)), z3.Not(mem0(x)), x != END] + [x != y for y in st.g.get('nodes', ())]; addnode(st, x); r = z3.IntVal(L.lo) if sign < 0 else TOP + L.hi
            if f['dem'].rstrip().endswith('&&)'): st.rw(a[1].obj).g[('lt', a[1].off)] = ('Key', ('moved', g[1]))
            setl(st, a[0], Lst(lambda y: z3.Or(L.mem(y), y == x), lambda y: z3.If(y == x, k, L.key(y)), lambda y: z3.If(y == x, r, L.rank(y)), zi(L.n) + 1, L.lo - (sign < 0), L.hi + (sign > 0)))
            return viewk(E, st, x) if 'emplace' in f['dem'] else None
        return h
    on(r'(.* )?' + Q + r'(push|emplace)_front(<.*>)?\(.*\)', push(-1)); on(r'(.* )?' + Q + r'(push|emplace)_back(<.*>)?\(.*\)', push(1))
    def erase(E, st, a, f, i):
        x = nodeof(E, st, a[1]) if not isinstance(a[1], Ptr) else itof(E, st, a[1]); L = lst(st, a[0]); E.oblige(st, L.mem(x), 'bounds', 'the element erased is in the list')
        setl(st, a[0], Lst(lambda y: z3.And(L.mem(y), y != x), L.key, L.rank, zi(L.n) - 1, L.lo, L.hi)); return OPtr(z3.Int(fresh_name('next')))
    on(Q + r'erase\(std::_List_const_iterator<Key>\)', erase)
    def popb(sign):
        def h(E, st, a, f, i):
            L = lst(st, a[0]); E.oblige(st, zi(L.n) > 0, 'bounds', 'the list is not empty'); x = endnode(E, st, L, sign, 'end'); setl(st, a[0], Lst(lambda y: z3.And(L.mem(y), y != x), L.key, L.rank, zi(L.n) - 1, L.lo, L.hi)); return None
        return h
    on(Q + r'pop_back\(\)', popb(1)); on(Q + r'pop_front\(\)', popb(-1))
    def splice(E, st, a, f, i):
        L = lst(st, a[0]); pos, x = nodeof(E, st, a[1]), nodeof(E, st, a[3])
        if not (isinstance(a[2], Ptr) and a[2].obj == a[0].obj and a[2].off == a[0].off): raise Unsupported('splice from another list')
        E.oblige(st, L.mem(x), 'bounds', 'the element moved is in the list'); ends = {str(e[0]): e for e in st.g.get('ends', ())}; e = ends.get(str(pos))
        if pos.eq(END): r, lo, hi = TOP + L.hi, L.lo, L.hi + 1
        elif e is not None and e[2] < 0 and e[1] is L: r, lo, hi = z3.IntVal(L.lo), L.lo - 1, L.hi
        else: raise Unsupported('splice to a position that is neither the begin nor the end')
        # moving the first element before itself leaves it first
        setl(st, a[0], Lst(L.mem, L.key, lambda y: z3.If(y == x, r, L.rank(y)), L.n, lo, hi)); return None
    on(Q + r'splice\(std::_List_const_iterator<Key>, std::__cxx11::list<.*>&, std::_List_const_iterator<Key>\)', splice)
    # ---- the map
    M = r'std::unordered_map<Key, .*>::'
    lay = {}
    t0 = State(); p0 = obj(E, t0, 'tuple', E.sz['t']); lay['val'] = quiet(E, t0, 'vc_t_val', p0)[1].off; lay['it'] = quiet(E, t0, 'vc_t_it', p0)[1].off; p1 = obj(E, t0, 'pair', 8 + E.sz['t']); lay['first'] = quiet(E, t0, 'vc_pair_first', p1)[1].off; lay['second'] = quiet(E, t0, 'vc_pair_second', p1)[1].off
    E.lay = lay; HEAD = 8
    def mapof(st, p):
        """with what was written through references to entries"""
        m = st.mem[p.obj].g[('map', p.off)]
        for (o, k) in st.g.get('entries', ()):
            v = ident(st.mem[o].g[('lt', HEAD + lay['second'] + lay['val'])][1]); x = E.load(st, Ptr(o, HEAD + lay['second'] + lay['it']), 'ptr', 8); x = x.t
            m = Map(m.has, lambda y, m=m, k=k, v=v: z3.If(zi(y) == k, v, m.val(y)), lambda y, m=m, k=k, x=x: z3.If(zi(y) == k, x, m.node(y)), m.n)
        return m
    E.mapof = mapof
    def setm(st, p, m, k=None):
        keep = []
        for (o, kk) in st.g.get('entries', ()):
            if k is not None and E.valid(st, kk != k): keep.append((o, kk))
            else: st.rw(o).ro = True
        st.g['entries'] = tuple(keep); st.rw(p.obj).g[('map', p.off)] = m
    none = lambda: Map(lambda k: z3.BoolVal(False), val0, node0, z3.IntVal(0))
    on(M + r'unordered_map\(\)', lambda E, st, a, f, i: setm(st, a[0], none()) and None); on(M + r'~unordered_map\(\)', lambda E, st, a, f, i: None); on(M + r'clear\(\)', lambda E, st, a, f, i: setm(st, a[0], none()) and None)
    on(M + r'size\(\) const', lambda E, st, a, f, i: IV(64, zi(mapof(st, a[0]).n), 0, MAXU)); on(M + r'empty\(\) const', lambda E, st, a, f, i: zi(mapof(st, a[0]).n) == 0); on(M + r'c?end\(\)( const)?', lambda E, st, a, f, i: NULL); on(M + r'reserve\(.*\)', lambda E, st, a, f, i: None)
    def entry(E, st, p, k):
        for (o, kk) in st.g.get('entries', ()):
            if E.eqt(st, kk, k): return Ptr(o, 0)
            if not E.valid(st, kk != k): raise Unsupported('references to two entries')
        m = mapof(st, p); q = obj(E, st, 'entry of the map', HEAD + 8 + E.sz['t'] + 8); o = st.rw(q.obj); o.g[('lt', HEAD + lay['first'])] = ('Key', k); o.g[('lt', HEAD + lay['second'] + lay['val'])] = ('Val', z3.simplify(m.val(k)))
        x = z3.simplify(m.node(k)); addnode(st, x); E.store(st, Ptr(q.obj, HEAD + lay['second'] + lay['it']), OPtr(x), 'ptr', 8); st.g['entries'] = st.g.get('entries', ()) + ((q.obj, k),); return q
    def find(E, st, a, f, i):
        k = ident(live(E, st, a[1], 'Key', 'find')[1]); addkey(st, k); m = mapof(st, a[0]); h = z3.simplify(m.has(k)); s2 = st.fork(); s2.pc.append(z3.Not(h)); st.pc.append(h); out = []
        if E.feasible(st): out.append((st, entry(E, st, a[0], k)))
        if E.feasible(s2): out.append((s2, NULL))
        return out
    on(M + r'find\(.*\)( const)?', find)
    def count(E, st, a, f, i): k = ident(live(E, st, a[1], 'Key', 'count')[1]); addkey(st, k); return IV(64, z3.If(mapof(st, a[0]).has(k), z3.IntVal(1), z3.IntVal(0)), 0, 1)
    on(M + r'count\(.*\) const', count)
    def drop(E, st, p, k):
        m = mapof(st, p); h = m.has(k); setm(st, p, Map(lambda y: z3.And(m.has(y), zi(y) != k), m.val, m.node, zi(m.n) - z3.If(h, z3.IntVal(1), z3.IntVal(0))), k); return IV(64, z3.If(h, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    def merase(E, st, a, f, i):
        if 'Key const&' in f['dem'].rsplit('erase', 1)[1]: k = ident(live(E, st, a[1], 'Key', 'erase')[1]); addkey(st, k); return drop(E, st, a[0], k)
        p = a[1]
        if not isinstance(p, Ptr) or p.obj is None: E.oblige(st, False, 'bounds', 'the entry erased exists'); raise DropPath()
        k = next(kk for o, kk in st.g['entries'] if o == p.obj); drop(E, st, a[0], k); return NULL
    on(M + r'erase\(.*\)', merase)
    def memplace(E, st, a, f, i):
        g = live(E, st, a[1], 'Key', 'the key'); k = ident(g[1]); addkey(st, k); t = a[2]; v = ident(live(E, st, Ptr(t.obj, t.off + lay['val']), 'Val', 'the value')[1]); x = E.load(st, Ptr(t.obj, t.off + lay['it']), 'ptr', 8).t; m = mapof(st, a[0]); h = m.has(k); over = 'insert_or_assign' in f['dem']; w = z3.BoolVal(True) if over else z3.Not(h)
        if 'Key&&' in f['dem']: st.rw(a[1].obj).g[('lt', a[1].off)] = ('Key', ('moved', g[1]))
        setm(st, a[0], Map(lambda y: z3.Or(m.has(y), zi(y) == k), lambda y: z3.If(z3.And(zi(y) == k, w), v, m.val(y)), lambda y: z3.If(z3.And(zi(y) == k, w), x, m.node(y)), zi(m.n) + z3.If(h, z3.IntVal(0), z3.IntVal(1))), k); return Agg([obj(E, st, 'arg entry', 8), z3.Not(h)])
    on(r'.* ' + M + r'(emplace|try_emplace|insert_or_assign)<.*>\(.*\)', memplace)
def engine(cache=False):
    mk0 = std_engine(module())
    def mk():
        E = mk0(); setup(E); abort_handler(E)
        if cache: setup_cache(E)
        return E
    return mk
def u64(E, st, p): return zi(E.u(st, E.load(st, p, 'i64', 8)))
KT, VT, PT, QT, XT, YT = [ident(n) for n in ('k', 'v', 'p', 'q', 'x', 'y')]
def anylru(E, st):
    p = obj(E, st, 'cache', E.sz['l']); q = {n: quiet(E, st, 'vc_l_' + n, p)[1] for n in ('map', 'list', 'cap', 'total', 'hits', 'evicts')}
    st.rw(p.obj).g[('map', q['map'].off)] = Map(has0, val0, node0, N); st.rw(p.obj).g[('list', q['list'].off)] = Lst(mem0, key0, rank0, N, -1, 0); E.thelist = lambda s: E.lst(s, q['list'])
    v = {n: E.sym(st, 64, n, signed=False) for n in ('cap', 'total', 'hits', 'evicts')}
    for n in v: E.store(st, q[n], v[n], 'i64', 8)
    c = {n: zi(E.u(st, v[n])) for n in v}; st.pc += [N >= 0, N <= c['cap'], c['cap'] >= 1, TOP >= 0] + [c[n] < BIG for n in c]
    for k in (KT, PT, QT): addkey(st, k)
    for x in (XT, YT): addnode(st, x)
    return p, q, c
def key(E, st, nm='k', ro=True): return value(E, st, 'Key', 8, ident(nm), ro)
def judge(E, s2, q, c, nm, has, val, newer, n, counts, what=''):
    """the cache afterwards: has/val for a key, newer(p, q) the order of use, n entries"""
    m, L = E.mapof(s2, q['map']), E.lst(s2, q['list']); P, Q = PT, QT
    for x in (m.node(P), m.node(Q)): addnode(s2, z3.simplify(x))
    ob(E, s2, f'{nm}: the keys in the cache', m.has(P) == has(P)); ob(E, s2, f'{nm}: the value of each key', z3.Implies(has(P), m.val(P) == val(P)))
    ob(E, s2, f'{nm}: the order in which they were used', z3.Implies(z3.And(has(P), has(Q), P != Q, m.has(P), m.has(Q)), (L.rank(m.node(P)) < L.rank(m.node(Q))) == newer(P, Q)))
    ob(E, s2, f'{nm}: the number of entries', zi(m.n) == n)
    ob(E, s2, f'{nm}: each entry has its place in the list', z3.Implies(m.has(P), z3.And(L.mem(m.node(P)), L.key(m.node(P)) == P)), 'invariant')
    ob(E, s2, f'{nm}: the list holds nothing else', z3.Implies(L.mem(XT), z3.And(m.has(L.key(XT)), m.node(L.key(XT)) == XT)), 'invariant')
    ob(E, s2, f'{nm}: no two places are the same', z3.Implies(z3.And(L.mem(XT), L.mem(YT), L.rank(XT) == L.rank(YT)), XT == YT), 'invariant')
    ob(E, s2, f'{nm}: list and map have the same size, at most the capacity', z3.And(zi(L.n) == zi(m.n), zi(m.n) <= c['cap'], zi(m.n) >= 0), 'invariant'); ob(E, s2, f'{nm}: the capacity does not change', u64(E, s2, q['cap']) == c['cap'], 'frame')
    for x in ('total', 'hits', 'evicts'): ob(E, s2, f'{nm}: the counter of {dict(total="requests").get(x, x)}', u64(E, s2, q[x]) == c[x] + counts.get(x, 0))
newer0 = lambda p, q: rank0(node0(p)) < rank0(node0(q))
front_of = lambda k: (lambda p, q: z3.If(p == k, z3.BoolVal(True), z3.If(q == k, z3.BoolVal(False), newer0(p, q))))
def lastkey(st):
    """the key used longest ago"""
    l = z3.Int('oldest node'); addnode(st, l); L0 = Lst(mem0, key0, rank0, N, -1, 0); st.pc += [z3.Implies(N > 0, mem0(l))] + [z3.Implies(z3.And(N > 0, mem0(x)), rank0(x) <= rank0(l)) for x in st.g['nodes']]; st.g['ends'] = st.g.get('ends', ()) + ((l, L0, 1),); return key0(l)
def u_insert(E):
    st = State(); p, q, c = anylru(E, st); old = lastkey(st); k = key(E, st, 'k', False); v = value(E, st, 'Val', 16, VT); h = has0(KT); full = z3.And(z3.Not(h), N >= c['cap'])
    def post(s2, r):
        judge(E, s2, q, c, 'insert', lambda x: z3.Or(x == KT, z3.And(has0(x), z3.Not(z3.And(full, x == old)))), lambda x: z3.If(x == KT, VT, val0(x)), front_of(KT), z3.If(z3.Or(h, full), N, N + 1), dict(evicts=z3.If(full, z3.IntVal(1), z3.IntVal(0))))
    Run(E, LBL + 'insert').go(st, 'vc_insert', [p, k, v], post); ob(E, st, 'insert does not end the program', E.aborts == 0)
def u_get(E):
    st = State(); p, q, c = anylru(E, st); k = key(E, st); o = obj(E, st, 'result', E.sz['o']); h = has0(KT)
    def post(s2, r):
        s3, b = quiet(E, s2, 'vc_ohas', o); some = tob(E, b); ob(E, s3, 'get: a value exactly when the key is in the cache', some == h); s4 = s3.fork()
        if E.valid(s3, h):
            s4, w = quiet(E, s4, 'vc_oval', o); ob(E, s4, 'get: the value of the key', ident(E.g_live(E, s4, w, 'Val', 'the result')[1]) == val0(KT))
        judge(E, s2, q, c, 'get', has0, val0, lambda x, y: z3.If(h, front_of(KT)(x, y), newer0(x, y)), N, dict(total=1, hits=z3.If(h, z3.IntVal(1), z3.IntVal(0))))
    Run(E, LBL + 'get').go(st, 'vc_get', [o, p, k], post); ob(E, st, 'get does not end the program', E.aborts == 0)
def u_contains(E):
    st = State(); p, q, c = anylru(E, st); k = key(E, st)
    def post(s2, r): ob(E, s2, 'contains: exactly when the key is in the cache', tob(E, r) == has0(KT)); judge(E, s2, q, c, 'contains', has0, val0, newer0, N, {})
    Run(E, LBL + 'contains').go(st, 'vc_contains', [p, k], post)
def u_evict(E):
    st = State(); p, q, c = anylru(E, st); k = key(E, st); h = has0(KT)
    Run(E, LBL + 'evict').go(st, 'vc_evict', [p, k], lambda s2, r: judge(E, s2, q, c, 'evict', lambda x: z3.And(has0(x), x != KT), val0, newer0, N - z3.If(h, z3.IntVal(1), z3.IntVal(0)), dict(evicts=z3.If(h, z3.IntVal(1), z3.IntVal(0)))))
def u_clear(E):
    st = State(); p, q, c = anylru(E, st)
    Run(E, LBL + 'clear').go(st, 'vc_clear', [p], lambda s2, r: judge(E, s2, q, c, 'clear', lambda x: z3.BoolVal(False), val0, newer0, z3.IntVal(0), {x: -c[x] for x in ('total', 'hits', 'evicts')}))
def u_ctor(E):
    st = State(); p = obj(E, st, 'cache', E.sz['l']); n = E.sym(st, 64, 'capacity', signed=False); q = {x: quiet(E, st, 'vc_l_' + x, p)[1] for x in ('map', 'list', 'cap', 'total', 'hits', 'evicts')}
    def post(s2, r): ob(E, s2, 'a new cache is empty', z3.And(zi(E.mapof(s2, q['map']).n) == 0, zi(E.lst(s2, q['list']).n) == 0, z3.Not(E.mapof(s2, q['map']).has(PT)))); ob(E, s2, 'with the capacity given and no counts', z3.And(u64(E, s2, q['cap']) == zi(E.u(s2, n)), *[u64(E, s2, q[x]) == 0 for x in ('total', 'hits', 'evicts')]))
    Run(E, LBL + 'LRU').go(st, 'vc_lctor', [p, n], post)
def u_read(E):
    for f, w in (('size', lambda c: N), ('capacity', lambda c: c['cap']), ('empty', lambda c: N == 0), ('total', lambda c: c['total']), ('hits', lambda c: c['hits']), ('evicts', lambda c: c['evicts'])):
        st = State(); p, q, c = anylru(E, st)
        def post(s2, r): ob(E, s2, f'{f}: the documented number', (tob(E, r) if f == 'empty' else zi(E.u(s2, r))) == w(c)); judge(E, s2, q, c, f, has0, val0, newer0, N, {})
        Run(E, LBL + f).go(st, 'vc_' + f, [p], post)
# ------------------------------------------------------------------ the cache over the contracts of LRU
def setup_cache(E):
    on = E.on_first; live = E.g_live; LR = r'nebula::LRU<Key, Val>::'
    def lock(E, st, a, f, i): k = ('held', a[0].off); o = st.rw(a[0].obj); E.oblige(st, not o.g.get(k), 'lock', 'a lock is taken once'); o.g[k] = True; return None
    def unlock(E, st, a, f, i): k = ('held', a[0].off); o = st.rw(a[0].obj); E.oblige(st, bool(o.g.get(k)), 'lock', 'a lock that is released is held'); o.g[k] = False; st.events.append(('unlock',)); return None
    on(r'std::mutex::lock\(\)', lock); on(r'std::mutex::unlock\(\)', unlock); on(r'std::mutex::mutex\(\)|std::__mutex_base::__mutex_base\(\)|std::mutex::~mutex\(\)', lambda E, st, a, f, i: None); on(r'std::__throw_system_error\(int\)', lambda E, st, a, f, i: (E.oblige(st, False, 'lock', 'the lock is used in a valid state'), None)[1])
    def held(E, st, p, what):
        b, o = st.g['bucketof'].get(p.obj, (None, 0)); E.oblige(st, b is not None and bool(st.mem[b].g.get(('held', o + E.lockoff))), 'lock', f'{what}: the lock of the bucket is held'); return b, o
    def call(nm, tys, res):
        def h(E, st, a, f, i):
            sret = res == 'opt'; p = a[1] if sret else a[0]; xs = a[2:] if sret else a[1:]; b = held(E, st, p, 'LRU::' + nm); vals = []
            for x, t in zip(xs, tys):
                g = live(E, st, x, t[0], f'argument of {nm}'); vals.append(ident(g[1]))
                if t[1]: st.rw(x.obj).g[('lt', x.off)] = (t[0], ('moved', g[1]))
            n = len([e for e in st.events if e[0] == 'call']); ev = ('call', st.g['indexof'][b], nm, vals)
            if res == 'opt':
                s2 = st.fork(); st.pc.append(z3.Bool(f'found {n}')); s2.pc.append(z3.Not(z3.Bool(f'found {n}'))); st.events.append(ev + (True, n)); s2.events.append(ev + (False, n)); v = value(E, st, 'Val', 16, z3.Int(f'id:found {n}'))
                sa, _ = quiet(E, st, 'vc_osome', a[0], v); sb, _ = quiet(E, s2, 'vc_onone', a[0]); return [(sa, None), (sb, None)]
            st.events.append(ev + (None, n)); return z3.Bool(f'answer {n}') if res == 'bool' else None if res is None else (lambda t: (st.pc.append(z3.And(t >= 0, t < 1 << 56)), IV(64, t, 0, 1 << 56))[1])(uf('count ' + nm, st.g['indexof'][b]))
        return h
    on(LR + r'insert\(.*\)', call('insert', [('Key', True), ('Val', True)], None)); on(LR + r'get\(.*\)', call('get', [('Key', False)], 'opt')); on(LR + r'contains\(.*\)', call('contains', [('Key', False)], 'bool')); on(LR + r'evict\(Key const&\)', call('evict', [('Key', False)], None)); on(LR + r'clear\(\)', call('clear', [], None))
    for n in ('total', 'hits', 'evicts', 'size', 'capacity'): on(LR + n + r'\(\)( const)?', call(n, [], 'int'))
    def lctor(E, st, a, f, i): st.rw(a[0].obj).g['capacity'] = zi(E.u(st, a[1])); return None
    on(LR + r'LRU\(unsigned long\)', lctor); on(LR + r'~LRU\(\)', lambda E, st, a, f, i: None)
    V = r'std::vector<nebula::ConcurrentLRUCache<Key, Val>::Bucket, .*>::'
    on(V + r'vector\(\)', lambda E, st, a, f, i: st.g.__setitem__('caps', ())); on(V + r'~vector\(\)', lambda E, st, a, f, i: None); on(V + r'reserve\(unsigned long\)', lambda E, st, a, f, i: None)
    on(V + r'size\(\) const', lambda E, st, a, f, i: IV(64, st.g['nbuckets'] if 'nbuckets' in st.g else len(st.g['caps'])))
    def add(E, st, a, f, i):
        x = E.load(st, a[1], 'i64', 8) if 'int' not in f['dem'].split('emplace_back<', 1)[1][:6] else E.load(st, a[1], 'i64', 8); st.g['caps'] = st.g.get('caps', ()) + (zi(E.u(st, x)),); return obj(E, st, 'arg bucket', 8)
    on(r'.*' + V + r'emplace_back<.*>\(.*\)', add)
    def at(E, st, a, f, i):
        k = zi(E.u(st, a[1])); E.oblige(st, k < st.g['nbuckets'], 'bounds', 'the bucket exists')
        for (o, d), j in st.g['indexof'].items():
            if E.eqt(st, zi(j), k): return Ptr(o, d)
        return bucket(E, st, k)
    def array(E, st):
        if 'array' not in st.g:
            n = st.g['nbuckets'] if 'nbuckets' in st.g else len(st.g['caps'])
            if n > 64: raise Unsupported('iterators over more than 64 buckets')
            o = obj(E, st, 'buckets', E.sz['b'] * n); st.g['array'] = (o.obj, n)
            for j in range(n): place(E, st, o.obj, E.sz['b'] * j, j)
        return st.g['array']
    on(V + r'c?begin\(\)( const)?', lambda E, st, a, f, i: Ptr(array(E, st)[0], 0)); on(V + r'c?end\(\)( const)?', lambda E, st, a, f, i: (lambda o, n: Ptr(o, E.sz['b'] * n))(*array(E, st)))
    on(V + r'(operator\[\]|at)\(unsigned long\)( const)?', at)
    t = State(); b = obj(E, t, 'bucket', E.sz['b']); E.lockoff = quiet(E, t, 'vc_b_lock', b)[1].off; E.lruoff = quiet(E, t, 'vc_b_lru', b)[1].off
    on(r'nebula::Status::Status\(\)', lambda E, st, a, f, i: E.g_start(E, st, a[0], 'Status', 'OK', 'status'))
    on(r'nebula::Status::(Inserted|Error|OK)\(.*\)', lambda E, st, a, f, i: E.g_start(E, st, a[0], 'Status', re.search(r'Status::(\w+)\(', f['dem']).group(1), 'status'))
def place(E, st, o, off, k): l = obj(E, st, 'cache of the bucket', E.sz['l']); E.store(st, Ptr(o, off + E.lruoff), l, 'ptr', 8); st.g['indexof'] = {**st.g.get('indexof', {}), (o, off): k}; st.g['bucketof'] = {**st.g.get('bucketof', {}), l.obj: (o, off)}
def bucket(E, st, k): b = obj(E, st, 'bucket', E.sz['b']); place(E, st, b.obj, 0, k); return b
def anycache(E, st, e):
    p = obj(E, st, 'cache', E.sz['c']); st.g['indexof'] = {}; st.g['bucketof'] = {}; st.g['nbuckets'] = 1 << e
    for f, x in (('num', 1 << e), ('exp', e)): E.store(st, quiet(E, st, 'vc_c_' + f, p)[1], IV(32, x), 'i32', 4)
    return p
def free(E, st): return not any(v for o in st.mem.values() for k, v in o.g.items() if isinstance(k, tuple) and k[0] == 'held')
EXPS = list(range(0, 13)) + [20, 30]
def u_keyed(op):
    def u(E):
        for e in EXPS:
            st = State(); p = anycache(E, st, e); h = E.sym(st, 32, 'hint'); H = zi(E.s(st, h)); k = key(E, st, 'k', op not in ('insert', 'put')); xs = [p, k]; res = None; n = 1 << e
            if op in ('insert', 'put'): xs.append(value(E, st, 'Val', 16, VT))
            if op in ('get', 'put'): res = obj(E, st, 'result', E.sz['s']); xs = [res] + xs
            where = z3.If(H >= 0, H % n, uf('hash', KT) % n); nm = dict(put='putIfAbsent').get(op, op)
            def post(s2, r):
                ev = [x for x in s2.events if x[0] == 'call']; ob(E, s2, f'{nm}: every lock is free again', free(E, s2), 'lock'); ob(E, s2, f'{nm}: only the bucket of the key is used', z3.And([zi(x[1]) == where for x in ev]) if ev else False)
                seq = [x for x in s2.events if x[0] in ('call', 'unlock')]; cs = [i for i, x in enumerate(seq) if x[0] == 'call']; ob(E, s2, f'{nm}: the lock is not released within the operation', not cs or all(x[0] == 'call' for x in seq[cs[0]:cs[-1]]), 'lock'); ev = [x for x in ev if x[2] != 'contains' or op == 'contains']; ops = [x[2] for x in ev]; want = {'put': ['get'] if ev and ev[0][4] else ['get', 'insert']}.get(op, [op]); ob(E, s2, f'{nm}: the operation of the bucket is done once', ops == want)
                for x in ev: ob(E, s2, f'{nm}: with the key' + (' and value' if len(x[3]) > 1 else '') + ' given', z3.And([a == b for a, b in zip(x[3], (KT, VT))]))
                if op == 'contains': ob(E, s2, 'contains: the answer of the bucket', tob(E, r) == z3.Bool('answer 0'))
                if res is not None and ev:
                    s3, b = quiet(E, s2, 'vc_sok', res); ob(E, s3, f'{nm}: there is a value exactly when the key was found', tob(E, b) == zb(bool(ev[0][4])))
                    if ev[0][4] and E.valid(s3, tob(E, b)): s4, w = quiet(E, s3, 'vc_sval', res); ob(E, s4, f'{nm}: the value found', ident(E.g_live(E, s4, w, 'Val', 'value')[1]) == z3.Int('id:found 0'))
                    if not ev[0][4]:
                        o = obj(E, s3, 'status', 8); s4, _ = quiet(E, s3, 'vc_sstatus', o, res); ob(E, s4, f'{nm}: the status ' + ('Inserted' if op == 'put' else 'Error'), E.g_live(E, s4, o, 'Status', 'status')[1] == ('Inserted' if op == 'put' else 'Error'))
            Run(E, CL + nm).go(st, 'vc_c' + op, xs + [h], post)
    return u
def u_all(op):
    def u(E):
        for e in range(0, 6):
            st = State(); p = anycache(E, st, e); n = 1 << e
            def post(s2, r):
                ev = [x for x in s2.events if x[0] == 'call']; ob(E, s2, f'{op}: every lock is free again', free(E, s2), 'lock'); ob(E, s2, f'{op}: every bucket is asked once', [x[2] for x in ev] == [op] * n and sorted(zi(x[1]).as_long() if z3.is_int_value(z3.simplify(zi(x[1]))) else -1 for x in ev) == list(range(n)))
                if op != 'clear': ob(E, s2, f'{op}: the sum over the buckets', zi(E.u(s2, r)) == z3.Sum([uf('count ' + op, j) for j in range(n)]))
            Run(E, CL + op).go(st, 'vc_c' + op, [p], post)
    return u
def u_cctor(E):
    for e in range(0, 6):
        n = 1 << e
        for ok in (True, False):
            st = State(); p = obj(E, st, 'cache', E.sz['c']); c = E.sym(st, 64, 'capacity', signed=False); C = zi(E.u(st, c)); st.pc += [C > n if ok else C <= n, C < BIG]
            def post(s2, r):
                cs = s2.g.get('caps', ()); ob(E, s2, f'2^{e} buckets', len(cs) == n); ob(E, s2, 'the capacities of the buckets add up to the capacity', z3.Sum(list(cs)) == C); ob(E, s2, 'every bucket can hold an entry', z3.And([x >= 1 for x in cs])); ob(E, s2, 'the capacity is shared out evenly, the last bucket takes the rest', z3.And([z3.And(x * n <= C, C < (x + 1) * n) for x in cs[:-1]]))
                for f, x in (('num', n), ('exp', e)): ob(E, s2, 'the number of buckets is kept', zi(E.u(s2, E.load(s2, quiet(E, s2, 'vc_c_' + f, p)[1], 'i32', 4))) == x)
            Run(E, CL + 'ConcurrentLRUCache').go(st, 'vc_cctor', [p, c, IV(32, e)], post, abort=not ok)
            if ok: ob(E, st, 'a legal capacity does not end the program', E.aborts == 0)
def u_bucket(E):
    st = State(); b = obj(E, st, 'bucket', E.sz['b']); n = E.sym(st, 64, 'capacity', signed=False); N_ = zi(E.u(st, n))
    def made(s2, r, what='a new bucket'):
        l = E.load(s2, Ptr(b.obj, E.lruoff), 'ptr', 8); ob(E, s2, f'{what} has a cache of the capacity given', isinstance(l, Ptr) and l.obj is not None and s2.mem[l.obj].g.get('capacity') is not None and s2.mem[l.obj].g['capacity'] == N_)
        c = obj(E, s2, 'moved bucket', E.sz['b'])
        def moved(s3, r):
            m = E.load(s3, Ptr(c.obj, E.lruoff), 'ptr', 8); o = E.load(s3, Ptr(b.obj, E.lruoff), 'ptr', 8); ob(E, s3, 'a bucket that is moved takes its cache along', isinstance(m, Ptr) and isinstance(l, Ptr) and m.obj == l.obj and isinstance(o, Ptr) and o.obj is None)
        Run(E, CL + 'Bucket::Bucket').go(s2, 'vc_bmove', [c, b], moved)
    Run(E, CL + 'Bucket::Bucket').go(st, 'vc_bctor', [b, n], made)
class PROP(Property):
    id = 'C35'; budget = 250
    assumptions = ['std::list, std::unordered_map, std::vector, std::mutex by contract; equality and hash of keys are lawful; special members of K and V do what their names say and do not throw', 'capacity at least 1 (the constructor of the cache guarantees it); counts below 2^56',
                   'bounded: the constructor, clear and the counters loop over the buckets and are checked for every number of buckets 1, 2, 4, ..., 32; the index of a bucket for 2^0..2^12, 2^20 and 2^30 buckets', LOGNOTE]
    def units(self):
        P, C = engine(), engine(True)
        return [('LRU ' + n, P, f) for n, f in (('constructor', u_ctor), ('insert', u_insert), ('get', u_get), ('contains', u_contains), ('evict', u_evict), ('clear', u_clear), ('reading', u_read))] + [('cache ' + o, C, u_keyed(o)) for o in ('contains', 'insert', 'get', 'put', 'evict')] + [('cache ' + o, C, u_all(o)) for o in ('clear', 'total', 'hits', 'evicts')] + [('cache constructor', C, u_cctor), ('bucket', C, u_bucket)]
    def search(self, failed, tier):
        prog = build_replay([VERIF + '/harness/lru_search.cpp', SRC + 'base/Status.cpp', VERIF + '/shim/folly_shim.cpp'], 'lru_search', ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), ('-lglog', '-lgflags', '-lpthread'))
        return run_search(prog, ['200000' if tier == 'thorough' else '20000'], timeout=300)
