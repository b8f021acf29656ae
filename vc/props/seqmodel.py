"""Vectors as sequences, and loops over them. A vector holds a sequence (a length and a function from positions to contents); its elements
are an address space of their own, so iterators are pointers and the real iterator code runs. A loop is cut at its head: every location it
changes gets a closed form in the number k of iterations (found by trial from what one iteration does, then proved on entry and at the back edge)."""
from graphrec import *
from loops import Probe
import itertools, os
def opaque(v):
    v.src = 'opaque'; return v
class Seq:
    """n, and get(field, position) -> term"""
    def __init__(s, n, get, nm=None): s.n = n; s.get = get; s.nm = nm
    def tid(s): return z3.Int('id:' + s.nm) if s.nm else z3.Int(f'id:seq{id(s)}')
    def __str__(s): return f'sequence {s.nm or id(s)}'
    __repr__ = __str__
class Prefix:
    """a set that holds the first m keys of the unit"""
    def __init__(s, m): s.m = m
def divide(E, t, m):
    """[(condition, quotient, remainder)] of t by m"""
    c, d = E.lin(t)
    if all(q % m == 0 for q, l in d.values()): return [(z3.BoolVal(True), zi(E.unlin(c // m, {k: (q // m, l) for k, (q, l) in d.items()})), c % m)]
    return [(t % m == r, t / m, z3.IntVal(r)) for r in range(m)]
def base(nm, n): return Seq(n, lambda f, j: uf(f'{nm}[].{f}' if f else f'{nm}[]', [zi(j)], IN), nm)
EMPTY = Seq(z3.IntVal(0), lambda f, j: z3.IntVal(0))
def cat(a, b): return Seq(z3.simplify(zi(a.n) + zi(b.n)), lambda f, j: z3.If(zi(j) < a.n, a.get(f, j), b.get(f, zi(j) - a.n)))
def upd(a, f0, i, x): return Seq(a.n, lambda f, j: z3.If(zi(j) == i, tid(x), a.get(f, j)) if f == f0 else a.get(f, j))
def app(a, vals): return Seq(z3.simplify(zi(a.n) + 1), lambda f, j: z3.If(zi(j) == a.n, tid(vals[f]), a.get(f, j)))
def rev(a): return Seq(a.n, lambda f, j: a.get(f, a.n - 1 - zi(j)))
def husk(a, ty): return Seq(a.n, lambda f, j: uf('husk', [a.get(f, j)], IN))
def flat(E, ty):
    """leaves of an element type: (path, offset, type)"""
    c = E.flatc.get(ty)
    if c is None:
        c = []
        if ty in REC and ty in E.own2:
            p = Ptr(obj(E, State(), 'layout', E.sizes[ty]).obj, 0)
            for f, t in REC[ty]:
                st = State(); q = obj(E, st, 'layout', E.sizes[ty]); o = at(E, st, ty, q, f).off; t2 = FT.get((ty, f), t)
                if t2 in E.own2: c += [(f + '.' + x if x else f, o + y, z) for x, y, z in flat(E, t2)]
                else: c.append((f, o, t))
        else: c.append(('', 0, ty))
        E.flatc[ty] = c
    return c
FT = {('Step', 'dst'): 'Vertex', ('Path', 'src'): 'Vertex'}
ELT = {('Path', 'steps'): 'Step', ('Vertex', 'tags'): 'Tag', ('List', 'values'): 'Value', ('DataSet', 'colNames'): 'Str', ('DataSet', 'rows'): 'List'}
def elty(dem):
    m = re.match(r'(?:.* )?std::vector<(.*?), ?std::allocator<', dem)
    if 'std::vector<std::__cxx11::basic_string' in dem.split('::vector<')[0] + '::vector<' + dem.split('::vector<', 1)[1][:40]: return 'Str'
    if m.group(1).startswith('std::pair<std::__cxx11::basic_string') and 'nebula::Expression*' in dem.split('::vector<')[0] + dem.split('::vector<', 1)[1][:200]: return 'Pair'
    x = m.group(1).strip()
    if x.startswith('std::reference_wrapper'): return 'Ref'
    return {'nebula::Row': 'List'}.get(x, x.split('::')[-1])
def esize(E, t): return E.sizes[t]
def seqsetup(E, own):
    """own: the records whose members are visible"""
    setup(E, own, True); E.own2 = set(own); E.flatc = {}; E.folds = []; E.bounds = []; E.lens = []; E.facts = None; E.plans = {}; E.keys = None; E.range_of = None; E.rect = None; E.ptr_of = None; E.term_of = None; E.conds = []; E.on_round = None
    get, put, live = E.g_get, E.g_put, E.g_live
    def seqof(E, st, v):
        if isinstance(v, Seq): return v
        if isinstance(v, tuple) and v[0] == 'moved': return EMPTY
        if isinstance(v, str) and v == 'empty': return EMPTY
        n = size(E, st, 'vector', v); x = tid(v)
        if E.rect is not None: E.rect(st, x, n)
        s = Seq(n, lambda f, j: uf('at_' + (f or 'vector'), [x, zi(j)], IN)); s.of = v; return s
    E.seqof = seqof
    def owner(st, p):
        o = st.mem[p.obj]; return o.g['own']
    def place(E, st, p, ty, w=None):
        """(path, position) of what is accessed in the elements"""
        vp, et = owner(st, p); es = esize(E, et)
        for path, off, t in flat(E, et):
            if (t != ty if w is None else t != w): continue
            r = p.off - off
            if isinstance(r, int):
                if r % es == 0: return path, z3.IntVal(r // es)
            else:
                r = z3.simplify(r); c0, d = E.lin(r)
                if c0 % es == 0 and all(q % es == 0 for q, _ in d.values()): return path, z3.simplify(z3.Sum([z3.IntVal(c0 // es)] + [l * (q // es) for q, l in d.values()]))
        raise Unsupported(f'access to {ty or w} in {st.mem[p.obj].name} at {str(p.off)[:60]}')
    def eget(E, st, p, ty):
        vp, et = owner(st, p); path, i = place(E, st, p, ty); s = seqof(E, st, get(st, vp, 'vector', 'elements')); return T(s.get(path, i))
    def eput(E, st, p, ty, v):
        vp, et = owner(st, p); path, i = place(E, st, p, ty); s = seqof(E, st, get(st, vp, 'vector', 'elements')); E.oblige(st, not st.mem[vp.obj].ro, 'frame', 'the elements may be written')
        E.elem_write = True
        try: setv(st, vp, upd(s, path, i, v))
        finally: E.elem_write = False
    E.elem_write = False
    def setv(st, vp, s):
        if 'own' in st.mem[vp.obj].g: eput(E, st, vp, 'vector', s)
        else: st.rw(vp.obj).g[('lt', vp.off)] = ('vector', s)
    def inval(E, st, p, ty):
        if ty != 'vector' or E.elem_write: return
        k = ('els', p.obj, str(p.off)); e = st.g.get(k)
        if e is not None: st.rw(e).alive = False; st.g.pop(k)
    E.elem = (eget, eput, inval)
    def onload(et):
        def h(E, st, o, off, sz, ty):
            if ty == 'ptr' and E.ptr_of is not None:
                vp, _ = o.g['own']; path, i = place(E, st, Ptr(o.id, off), None, 'ptr'); return E.ptr_of(E, st, path, z3.simplify(seqof(E, st, get(st, vp, 'vector', 'elements')).get(path, i)))
            w = tw(ty)
            if not w: return None
            vp, _ = o.g['own']; path, i = place(E, st, Ptr(o.id, off), None, w); x = seqof(E, st, get(st, vp, 'vector', 'elements')).get(path, i)
            if E.range_of is not None: E.range_of(st, path, x)
            return E.rng(st, IV(w, x, -(1 << (w - 1)), (1 << (w - 1)) - 1))
        return h
    def onstore(et):
        def h(E, st, o, off, sz, v):
            vp, _ = o.g['own']; p = Ptr(o.id, off); isp = isinstance(v, Ptr); path, i = place(E, st, p, None, 'ptr' if isp else sz * 8); s = seqof(E, st, get(st, vp, 'vector', 'elements')); E.oblige(st, not st.mem[vp.obj].ro, 'frame', 'the elements may be written')
            setv(st, vp, upd(s, path, i, E.term_of(E, st, v) if isp else zi(E.s(st, v)))); return True
        return h
    def els(E, st, p, et):
        k = ('els', p.obj, str(p.off)); e = st.g.get(k)
        if e is None:
            s = seqof(E, st, get(st, p, 'vector', 'elements')); n = z3.simplify(zi(s.n) * esize(E, et)); o = E.new_obj(st, f'elements of {st.mem[p.obj].name}', n.as_long() if z3.is_int_value(n) else n, 'heap')
            o.g['own'] = (p, et); o.g['onload'] = onload(et); o.g['onstore'] = onstore(et); st.g[k] = e = o.id
        return e
    def vs(E, st, p): return seqof(E, st, get(st, p, 'vector', 'vector'))
    V = CT['vector'] + '::'; on = E.on_first
    def pt(E, st, p, et, i):
        o = z3.simplify(zi(i) * esize(E, et)); return Ptr(els(E, st, p, et), o.as_long() if z3.is_int_value(o) else o)
    E.elptr = pt
    on(V + r'c?begin\(\)( const)?', lambda E, st, a, f, i: pt(E, st, a[0], elty(f['dem']), 0))
    on(V + r'data\(\)( const)?', lambda E, st, a, f, i: pt(E, st, a[0], elty(f['dem']), 0))
    on(V + r'c?end\(\)( const)?', lambda E, st, a, f, i: pt(E, st, a[0], elty(f['dem']), vs(E, st, a[0]).n))
    on(V + r'size\(\) const', lambda E, st, a, f, i: E.rng(st, IV(64, zi(vs(E, st, a[0]).n), 0, (1 << 40))))
    on(V + r'empty\(\) const', lambda E, st, a, f, i: zi(vs(E, st, a[0]).n) == 0)
    def idx(E, st, a, f, i):
        n = vs(E, st, a[0]).n; j = E.u(st, a[1]); E.oblige(st, zi(j) < n, 'bounds', 'the position is below the size of the vector'); return pt(E, st, a[0], elty(f['dem']), j)
    on(V + r'operator\[\]\(unsigned long\)( const)?', idx)
    def atx(E, st, a, f, i):
        n = vs(E, st, a[0]).n; j = E.u(st, a[1]); s2 = st.fork(); s2.pc.append(zi(j) >= n); out = []
        if E.feasible(s2, True): out.append((s2, Exc('std::out_of_range', NULL)))
        st.pc.append(zi(j) < n); return out + [(st, pt(E, st, a[0], elty(f['dem']), j))]
    on(V + r'at\(unsigned long\)( const)?', atx)
    def end1(last):
        def h(E, st, a, f, i):
            n = vs(E, st, a[0]).n; E.oblige(st, zi(n) > 0, 'precondition', ('back' if last else 'front') + '() of a vector that has elements'); return pt(E, st, a[0], elty(f['dem']), zi(n) - 1 if last else 0)
        return h
    on(V + r'front\(\)( const)?', end1(False)); on(V + r'back\(\)( const)?', end1(True))
    def change(E, st, p, s): put(st, p, 'vector', s)
    on(V + r'(__)?clear\(\)', lambda E, st, a, f, i: (get(st, a[0], 'vector', 'clear'), change(E, st, a[0], 'empty'), None)[2])
    on(V + r'reserve\(unsigned long\)', lambda E, st, a, f, i: (change(E, st, a[0], get(st, a[0], 'vector', 'reserve')), None)[1])
    on(V + r'pop_back\(\)', lambda E, st, a, f, i: pop(E, st, a[0]))
    def pop(E, st, p): s = vs(E, st, p); E.oblige(st, zi(s.n) > 0, 'precondition', 'pop_back() of a vector that has elements'); change(E, st, p, Seq(z3.simplify(zi(s.n) - 1), s.get)); return None
    def leaves(E, st, p, et):
        out = {}
        for path, off, t in flat(E, et):
            q = E.gep(st, p, off, [])
            out[path] = zi(E.s(st, E.load(st, q, f'i{t}', t // 8))) if isinstance(t, int) else E.term_of(E, st, E.load(st, q, 'ptr', 8)) if t == 'ptr' else tid(get(st, q, t, 'element'))
        return out
    E.leaves = leaves
    def take(E, st, p, et):
        for path, off, t in flat(E, et):
            if not isinstance(t, int) and t != 'ptr': q = E.gep(st, p, off, []); x = get(st, q, t, 'element'); put(st, q, t, x if isinstance(x, tuple) and x[0] == 'moved' else ('moved', x))
    def push(E, st, a, f, i):
        et = elty(f['dem']); arg = f['dem'].rstrip(')'); s = vs(E, st, a[0])
        if len(a) != 2: raise Unsupported('emplace_back with several arguments')
        want = {'Str': 'basic_string', 'Value': 'nebula::Value', 'List': 'nebula::List', 'Step': 'nebula::Step', 'Tag': 'nebula::Tag'}[et]; at_ = f['dem'][f['dem'].rindex('('):]
        other = E.mkel(E, st, et, at_, a) if want not in at_ and getattr(E, 'mkel', None) else None
        if other is not None: change(E, st, a[0], app(s, other)); return pt(E, st, a[0], et, s.n) if 'emplace_back' in f['dem'] else None
        if want not in at_: raise Unsupported('an element made of another type: ' + f['dem'][-80:])
        v = leaves(E, st, a[1], et); change(E, st, a[0], app(s, v))
        if '&&' in at_: take(E, st, a[1], et)
        return pt(E, st, a[0], et, s.n) if 'emplace_back' in f['dem'] else None
    on(r'(.*& )?' + V + r'emplace_back<.*>\(.*\)', push); on(V + r'push_back\(.*\)', push)
    def rng(E, st, p, q, et):
        """the sequence of an iterator range"""
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and p.obj is not None and 'own' in st.mem[p.obj].g): E.oblige(st, False, 'precondition', 'the iterators are of one vector'); raise DropPath()
        o = st.mem[p.obj]
        if not o.alive: E.oblige(st, False, 'use-after-free', 'the iterator is still valid'); raise DropPath()
        vp, t = o.g['own']; s = vs(E, st, vp)
        whole = (p.off == 0 if isinstance(p.off, int) else E.valid(st, p.off == 0)) and E.valid(st, zi(q.off) == zi(s.n) * esize(E, t))
        if not whole: raise Unsupported('a part of a vector as a range')
        return vp, t, s
    def insert(E, st, a, f, i):
        et = elty(f['dem']); s = vs(E, st, a[0]); p = a[1]; e = els(E, st, a[0], et)
        if not (isinstance(p, Ptr) and p.obj == e): E.oblige(st, False, 'precondition', 'the position is a valid iterator of the vector'); raise DropPath()
        vp, t, x = rng(E, st, a[2], a[3], et)
        if vp.obj == a[0].obj and str(vp.off) == str(a[0].off): raise Unsupported('a vector inserted into itself')
        if t != et: raise Unsupported('elements of another type inserted')
        es = esize(E, et); atend = E.valid(st, zi(p.off) == zi(s.n) * es); atbeg = E.valid(st, zi(p.off) == 0)
        if not atend and not atbeg: raise Unsupported('insertion in the middle')
        old, new = (getattr(s, 'of', None), getattr(x, 'of', None)); mv = 'move_iterator' in f['dem']
        if 'own' in st.mem[a[0].obj].g:
            # nested: the content is one term
            u = lambda y: tid(get(st, y, 'vector', 'insert'))
            A, B = u(a[0]), u(vp); r = T(uf('cat', [A, B] if atend else [B, A], IN))
        else: r = cat(s, x) if atend else cat(x, s)
        if mv: setv_moved(st, vp, x)
        change(E, st, a[0], r); return pt(E, st, a[0], et, zi(s.n) if atend else 0)
    def setv_moved(st, vp, x):
        E.elem_write = True
        try:
            if 'own' in st.mem[vp.obj].g: eput(E, st, vp, 'vector', T(uf('husks', [tid(get(st, vp, 'vector', 'insert'))], IN)))
            else: E.oblige(st, not st.mem[vp.obj].ro, 'frame', 'the vector that is moved from may be written'); setv(st, vp, husk(x, None))
        finally: E.elem_write = False
    on(r'(.* )?' + V + r'insert<.*>\(.*\)', insert)
    def reverse(E, st, a, f, i): vp, t, s = rng(E, st, a[0], a[1], None); E.oblige(st, not st.mem[vp.obj].ro, 'frame', 'the elements may be written'); setv(st, vp, rev(s)); return None
    on(r'(void )?std::reverse<.*>\(.*\)', reverse)
    def find(E, st, a, f, i):
        vp, t, s = rng(E, st, a[0], a[1], None); k = get(st, a[2], t, 'find'); r = uf('find', [tid(s) if s.nm else tid(get(st, vp, 'vector', 'find')), tid(k)], IN); st.pc += [r >= 0, r <= s.n, z3.Implies(r < s.n, zb2(eq(E, st, t, T(s.get('', r)), k)))]
        return Ptr(a[0].obj, z3.simplify(r * esize(E, t)))
    on(r'(.* )?std::find<.*>\(.*\)', find)
    # Values made of records whose members are visible
    for c in ('Vertex', 'List', 'Path', 'DataSet'):
        if c in own: on(rf'nebula::Value::Value\(nebula::{c} const&\)', lambda E, st, a, f, i, c=c: (E.g_start(E, st, a[0], 'Value', ('of', c + '*', tuple((t, v) for (path, off, t), v in zip(flat(E, c), leaves(E, st, a[1], c).values()))), 'construction of Value'), None)[1])
    # hashing of visible records, and of elements
    def hs(c):
        def h(E, st, a, f, i):
            r = uf('hash_' + c, [zi(x) for x in leaves(E, st, a[1], c).values()], IN); st.pc.append(z3.And(r >= 0, r < 1 << 64)); return opaque(IV(64, r, 0, (1 << 64) - 1))
        return h
    for c in HASH:
        if c in own and c != E.root: on(rf'std::hash<nebula::{c} ?>::operator\(\)\(nebula::{c} const&\) const', hs(c))
    # a local set that takes the keys of the unit one by one
    def emplace(E, st, a, f, i):
        g = E.g_get(st, a[0], 'set', 'emplace'); K = E.keys; m = z3.IntVal(0) if isinstance(g, str) and g == 'empty' else g.m if isinstance(g, Prefix) else None
        if m is None or K is None: raise Unsupported('emplace into a set')
        ts = re.search(r'unordered_set<(std::tuple<)?', f['dem']); vals = []
        for p, t in zip(a[1:], K['types']): vals.append(tid(E.g_get(st, p, t, 'key')) if not isinstance(t, int) else E.s(st, E.load(st, p, f'i{t}', t // 8)))
        want = K['at'](m); E.oblige(st, z3.And([zi(x) == zi(y) for x, y in zip(vals, want)] + [m < K['n']]), 'postcondition', 'the keys are put into the set one after the other', assume=False)
        d = K['dup'](m); K['know'](st, m, d); E.g_put(st, a[0], 'set', Prefix(z3.simplify(m + 1))); return Agg([obj(E, st, 'arg position', 8), E.cast_bool(z3.Not(d)) if hasattr(E, 'cast_bool') else z3.Not(d)])
    on(CT['set'] + r'::emplace<.*>\(.*\)', emplace); on(r'(.* )?' + CT['set'] + r'::emplace<.*>\(.*\)', emplace); on(r'(.* )?' + CT['set'] + r'::insert\(.*\)', emplace); on(CT['set'] + r'::reserve\(unsigned long\)', lambda E, st, a, f, i: (E.g_get(st, a[0], 'set', 'reserve'), None)[1])
    E.loopspecs.append((re.compile('.*'), lambda E, f, idx, bid, blocks, env, st: SeqLoop()))
def zb2(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def first(E, K, n, nm='D'):
    """D: the first position below n where a predicate holds, or n; pred(st, j, cond) states what is known of position j"""
    D = z3.Int(nm)
    def know(st, j, c): st.pc += [D >= 0, D <= n, z3.Implies(z3.And(c, zi(j) >= 0, zi(j) < n), D <= j), z3.Implies(zi(j) < D, z3.Not(c)), z3.Implies(z3.And(zi(j) == D, D < n), c)]
    return D, know
# ------------------------------------------------------------------ loops
def same_ghost(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return all(same_ghost(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and isinstance(a, (str, int, T, bool)) and a == b
def consts(t):
    out = set(); seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        todo += x.children()
    return out
class SeqLoop:
    cnt = itertools.count()
    def locs(self, b, env, st):
        """every location: phis, cells and ghosts"""
        out = {}
        for i in b['insts']:
            if i['op'] == 'phi': out[('phi', i['id'])] = env[i['id']]
        for o in st.mem.values():
            if not o.alive and o.kind != 'stack': continue
            for off, c in o.cells.items(): out[('cell', o.id, off)] = c
            for k, v in o.g.items():
                if isinstance(k, tuple) and k[0] == 'lt': out[('lt', o.id, k[1])] = v
        return out
    def changed(self, a, b):
        out = []
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if k[0] == 'cell':
                if x is None or y is None or x[0] != y[0] or not self.eqv(x[1], y[1]): out.append(k)
            elif k[0] == 'phi':
                if not self.eqv(x, y): out.append(k)
            elif not same_ghost(x, y): out.append(k)
        return out
    def eqv(self, x, y):
        if x is y: return True
        if isinstance(x, IV) and isinstance(y, IV): return x.w == y.w and zi(x.t).eq(zi(y.t))
        if isinstance(x, Ptr) and isinstance(y, Ptr): return x.obj == y.obj and (str(x.off) == str(y.off))
        if isinstance(x, bool) or isinstance(y, bool): return isinstance(x, bool) and isinstance(y, bool) and x == y
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef): return x.eq(y)
        return False
    def options(self, E, st, loc, init, known):
        """closed forms in k: [(name, fn(k) -> value)]"""
        v = init[1] if loc[0] in ('cell', 'lt') and init is not None else init
        if loc[0] != 'lt':
            if isinstance(v, IV):
                x = E.s(st, v); h = 1 << (v.w - 1)
                mk = lambda t: IV(v.w, z3.simplify(t), -h, h - 1)
                o = [('counts up', lambda k: mk(zi(x) + k)), ('counts down', lambda k: mk(zi(x) - k))]
                if E.fold and v.w == 64: o += self.foldopts(E, st, v)
                def step(k):
                    e = known[loc][0]; e = e[1] if loc[0] == 'cell' and e is not None else e
                    d = z3.simplify(zi(E.s(st, e)) - zi(x)) if isinstance(e, IV) else None
                    return mk(zi(x) + (d * k if d is not None and z3.is_int_value(d) else 0))
                o.append(('steps', step))
                def new():
                    e = known[loc][0]; e = e[1] if loc[0] == 'cell' and e is not None else e; t = z3.simplify(zi(E.s(st, e))) if isinstance(e, IV) else None; return t if t is not None and z3.is_int_value(t) else zi(x)
                for nm, c in E.conds: o.append((nm, (lambda c: lambda k: mk(z3.If(c(k), new(), zi(x))))(c)))
                for nm, fn in E.plans.get(f'i{v.w}', []): o.append((nm, (lambda fn: lambda k: mk(fn(zi(x), k)))(fn)))
                return o + [('any', None)]
            if isinstance(v, Ptr) and v.obj is not None and v.obj in st.mem and 'own' in st.mem[v.obj].g:
                es = esize(E, st.mem[v.obj].g['own'][1]); mp = lambda t: Ptr(v.obj, z3.simplify(t))
                def stride(k):
                    e = known[loc][0]; e = e[1] if loc[0] == 'cell' and e is not None else e
                    d = z3.simplify(zi(e.off) - zi(v.off)) if isinstance(e, Ptr) and e.obj == v.obj else None
                    if d is None or not z3.is_int_value(d): return mp(zi(v.off))
                    if d.as_long() % es == 0 and d.as_long() > es: self.strides.add(d.as_long() // es)
                    return mp(zi(v.off) + d * k)
                return [('walks up', lambda k: mp(zi(v.off) + es * k)), ('walks down', lambda k: mp(zi(v.off) - es * k)), ('walks in strides', stride), ('any', None)]
            return [('any', None)]
        if init is None: return [('dead', lambda k: None)]
        ty = init[0]; u = lambda: known[loc]
        if isinstance(v, Prefix) or ty == 'set' and 'set' not in E.plans:
            m = v.m if isinstance(v, Prefix) else z3.IntVal(0); return [('one more key', lambda k: (ty, Prefix(z3.simplify(m + k)))), ('unchanged', lambda k: init)]
        sub = lambda t, j: z3.substitute(t, (u()[1], zi(j)))
        if ty == 'vector':
            s = E.seqof(E, st, v); o = [('unchanged', lambda k: init)]
            def se():
                e = u()[0]; return E.seqof(E, st, e[1]) if e is not None else s
            comp = self.comp.setdefault(loc, {})
            def fields(k):
                x = se()
                def g(f, j):
                    j = zi(j); c = comp.get(f, 0)
                    if c == 1: return z3.If(j < k, sub(x.get(f, j), j), s.get(f, j))
                    if c == 2: return z3.If(j < k, s.get(f, j + 1), z3.If(j == k, s.get(f, z3.IntVal(0)), s.get(f, j)))
                    return s.get(f, j)
                return ty, Seq(s.n, g)
            def more(k):
                # m more elements in every round
                x = se(); m = z3.simplify(zi(x.n) - zi(s.n))
                if not z3.is_int_value(m) or m.as_long() < 2: return init
                m = m.as_long()
                def g(f, j):
                    cs = divide(E, z3.simplify(zi(j) - zi(s.n)), m); v = [(c, sub(x.get(f, z3.simplify(zi(s.n) + r)), q)) for c, q, r in cs]; t = v[-1][1]
                    for c, w in v[:-1]: t = z3.If(c, w, t)
                    return z3.If(zi(j) < s.n, s.get(f, j), t)
                return ty, Seq(z3.simplify(zi(s.n) + m * zi(k)), g)
            o += [('field by field: unchanged, changed in turn, or carried on', fields),
                  ('one more element', lambda k: (ty, (lambda x: Seq(z3.simplify(zi(s.n) + k), lambda f, j: z3.If(zi(j) < s.n, s.get(f, j), sub(x.get(f, s.n), zi(j) - s.n))))(se()))), ('more elements', more)]
            for nm, fn in E.plans.get('vector', []): o.append((nm, (lambda fn: lambda k: (ty, fn(s, k)))(fn)))
            return o
        def last(k):
            e = u()[0]; return init if e is None else (ty, T(z3.If(zi(k) == 0, tid(v), z3.substitute(tid(e[1]), (u()[1], zi(k) - 1)))))
        return [('unchanged', lambda k: init), ('of the last element', last)] + [(nm, (lambda fn: lambda k: (ty, T(fn(tid(v), k))))(fn)) for nm, fn in E.plans.get(ty, [])]
    def foldopts(self, E, st, v):
        x = E.u(st, v); o = []
        for F in E.folds:
            if F['init'] is None or E.valid(st, F['f'](z3.IntVal(0)) == x): o.append(('the same fold', self.foldfn(E, F)))
        return o + [('a new fold', ('newfold', x))]
    def foldfn(self, E, F): return lambda k: opaque(IV(64, F['f'](zi(k)), 0, (1 << 64) - 1))
    def build(self, E, b, env, st, k, plan, init, chosen):
        """the state at the head of iteration k"""
        for loc, opts in plan.items():
            nm, fn = opts[chosen[loc]]; x = None
            if isinstance(fn, tuple):
                F = dict(f=z3.Function(fresh_name('fold'), IN, IN), init=fn[1], step=None, k=None); F['init'] = fn[1]; E.folds.append(F); st.pc.append(F['f'](z3.IntVal(0)) == fn[1]); opts[chosen[loc]] = (nm, self.foldfn(E, F)); fn = opts[chosen[loc]][1]; self.newf[loc] = F
            if fn is not None: x = fn(k)
            if loc[0] == 'phi':
                if fn is None: x = self.any(E, st, init[loc])
                env[loc[1]] = x if not isinstance(x, IV) else E.rng(st, x)
            elif loc[0] == 'cell':
                if loc[1] not in st.mem: continue
                o = st.rw(loc[1]); c = init.get(loc)
                if c is None: o.cells.pop(loc[2], None); continue
                if fn is None: x = self.any(E, st, c[1])
                o.cells[loc[2]] = (c[0], x if not isinstance(x, IV) else E.rng(st, x))
            else:
                if loc[1] not in st.mem: continue
                st.rw(loc[1]).g[('lt', loc[2])] = x
        st.pc.append(zi(k) >= 0)
        for F in E.folds: st.pc.append(z3.And(F['f'](zi(k)) >= 0, F['f'](zi(k)) < 1 << 64))
    def any(self, E, st, v):
        if isinstance(v, IV): return E.rng(st, E.fresh_int(v.w, 'any'))
        if isinstance(v, (bool, z3.BoolRef)): return z3.Bool(fresh_name('any'))
        return Undef('ptr')
    def holds(self, E, st, loc, want, got):
        """-> condition that the location has the value"""
        if loc[0] == 'lt':
            if want is None: return got is None
            if got is None or want[0] != got[0]: return False
            x, y = want[1], got[1]
            if same_ghost(x, y): return True
            pf = lambda z: Prefix(z3.IntVal(0)) if want[0] == 'set' and 'set' not in E.plans and isinstance(z, str) and z == 'empty' else z
            x, y = pf(x), pf(y)
            if isinstance(x, Prefix) or isinstance(y, Prefix): return isinstance(x, Prefix) and isinstance(y, Prefix) and x.m == y.m
            if want[0] == 'vector':
                a, c = E.seqof(E, st, x), E.seqof(E, st, y); et = self.ety(E, st, loc); q = z3.Int(fresh_name('q')); return z3.And([zi(a.n) == zi(c.n)] + [z3.Implies(z3.And(q >= 0, q < a.n), a.get(f, q) == c.get(f, q)) for f, _, _ in flat(E, et)])
            return tid(x) == tid(y)
        if loc[0] == 'cell': got = got[1] if got is not None else None
        if isinstance(want, IV):
            if not isinstance(got, IV): return False
            return E.u(st, want) == E.u(st, got)
        if isinstance(want, Ptr): return isinstance(got, Ptr) and got.obj == want.obj and zb2(zi(got.off) == zi(want.off))
        return True
    def advance(self, E, st, loc, want, got):
        """try the next closed form for the fields that do not keep theirs"""
        if got is None or got[0] != 'vector': return False
        a, c = E.seqof(E, st, want[1]), E.seqof(E, st, got[1]); q = z3.Int(fresh_name('q')); comp = self.comp[loc]; some = False
        if not E.valid(st, zi(a.n) == zi(c.n)): return False
        for f, _, _ in flat(E, self.ety(E, st, loc)):
            if E.valid(st, z3.Implies(z3.And(q >= 0, q < a.n), a.get(f, q) == c.get(f, q)), 6000): continue
            comp[f] = comp.get(f, 0) + 1; some = True
            if comp[f] > 2: return False
        return some
    def ety(self, E, st, loc):
        for k, e in st.g.items():
            if isinstance(k, tuple) and k[0] == 'els' and k[1] == loc[1] and k[2] == str(loc[2]): return st.mem[e].g['own'][1]
        return E.etys.get((loc[1], loc[2])) or 'Value'
    def run(self, E, f, b, env, st, lctx, blocks, depth):
        p = Probe(b['id'], blocks); l2 = dict(lctx); l2['probe'] = p; n = len([i for i in b['insts'] if i['op'] == 'phi']); work = [('run', b['id'], n, env, st, l2)]; outs = []; E.quiet += 1; save = E.npaths
        try:
            while work:
                kind, bid, x, e, s, l = work.pop()
                try:
                    if kind == 'edge': E.enter(f, bid, x, e, s, l, work, depth)
                    else: E.run(f, bid, x, e, s, l, work, outs, depth)
                except DropPath: pass
        finally: E.quiet -= 1; E.npaths = save
        return p.ends
    def factlist(self, E, k):
        out = [(f'k <= {n}', zi(k) <= zi(x)) for n, x in E.bounds + E.lens]
        for d in self.strides: out += [(f'{d} k <= {n}', d * zi(k) <= zi(x)) for n, x in E.bounds + E.lens]
        if E.facts: out += E.facts(k)
        return out
    def fold_facts(self, E, st, k):
        if E.on_round is not None: E.on_round(st, zi(k))
        for F in E.folds:
            if F['init'] is not None: st.pc.append(F['f'](z3.IntVal(0)) == F['init'])
            if F['step'] is not None: st.pc.append(F['f'](zi(k) + 1) == z3.substitute(F['step'], (F['k'], zi(k))))
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        ini = self.locs(b, env, st); plan = {}; chosen = {}; known = {}; self.newf = {}; self.comp = {}; self.strides = set(); facts = None; E.fold = getattr(E, 'fold', False)
        ids = set(st.mem); nstr = 0
        for it in range(60):
            k = z3.Int(f'iter{next(SeqLoop.cnt)}'); s2 = st.fork(); e2 = dict(env); self.build(E, b, e2, s2, k, plan, ini, chosen); F0 = self.factlist(E, k)
            if facts is None or len(self.strides) > nstr: facts = [n for n, c in self.factlist(E, z3.IntVal(0)) if E.valid(st, c)]; nstr = len(self.strides)
            for n, c in F0:
                if n in facts: s2.pc.append(zb2(c))
            start = self.locs(b, e2, s2); ends = self.run(E, f, b, e2, s2, lctx, blocks, depth); again = False
            for e3, s3 in ends:
                E.npaths += 0; end = self.locs(b, e3, s3)
                for loc in self.changed(start, end):
                    if loc[0] != 'phi' and loc[1] not in ids: continue
                    if loc not in plan: plan[loc] = None; again = True; known[loc] = (end.get(loc), k)
            if again:
                for loc in plan:
                    if plan[loc] is None: plan[loc] = self.options(E, st, loc, ini.get(loc), known); chosen[loc] = 0
                continue
            # preserved?
            for e3, s3 in ends:
                end = self.locs(b, e3, s3)
                for loc, F in self.newf.items():
                    if F['step'] is None and plan[loc][chosen[loc]][0] == 'a new fold':
                        if len(ends) != 1: raise Unsupported('a fold with several paths')
                        g = end[loc]; g = g[1] if loc[0] == 'cell' else g; t = zi(E.u(s3, g)); bad = {c for c in consts(t) if c.startswith(('any', 'iter')) and c != k.decl().name()}
                        if bad: raise Unsupported(f'the fold depends on {sorted(bad)[:3]}')
                        F['step'] = t; F['k'] = k
                self.fold_facts(E, s3, k)
                for loc in sorted(plan, key=lambda x: x[0] == 'lt'):
                    if loc[0] == 'lt':
                        if again: break         # contents are judged once the variables are settled
                        if chosen[loc] == 0: known[loc] = (end.get(loc), k)
                    nm, fn = plan[loc][chosen[loc]]
                    if fn is None: continue
                    c = self.holds(E, s3, loc, fn(k + 1), end.get(loc))
                    if not (c is True or c is not False and E.valid(s3, c, 6000)):
                        if os.environ.get('SEQDBG'): print('no:', loc, nm, [n for n, _ in plan[loc]], str(end.get(loc))[:300], '|', str(fn(k + 1))[:300])
                        if nm.startswith('field by field') and self.advance(E, s3, loc, fn(k + 1), end.get(loc)): again = True; continue
                        if chosen[loc] + 1 >= len(plan[loc]): raise Unsupported(f'no closed form for {self.name(st, loc)} in a loop of {f["dem"].split("(")[0]}')
                        chosen[loc] += 1; again = True
                for n, c in [] if again else self.factlist(E, k + 1):
                    if n in facts and not E.valid(s3, zb2(c), 6000): facts.remove(n); again = True
                if again: break
            if not again: break
        else: raise Unsupported('the closed forms of a loop do not settle')
        # on entry
        self.fold_facts(E, st, z3.IntVal(0))
        for loc in plan:
            nm, fn = plan[loc][chosen[loc]]
            if fn is not None: E.oblige(st, self.holds(E, st, loc, fn(z3.IntVal(0)), ini.get(loc)), 'invariant', f'on entry: {self.name(st, loc)} {nm}', assume=False)
        for n, c in self.factlist(E, z3.IntVal(0)):
            if n in facts: E.oblige(st, zb2(c), 'invariant', f'on entry: {n}', assume=False)
        k = z3.Int(f'iter{next(SeqLoop.cnt)}'); self.build(E, b, env, st, k, plan, ini, chosen)
        for n, c in self.factlist(E, k):
            if n in facts: st.pc.append(zb2(c))
        self.fold_facts(E, st, k)
        E.loopinv = getattr(E, 'loopinv', []) + [f'{f["dem"].split("(")[0]}: after k rounds ' + '; '.join(f'{self.name(st, l)} {plan[l][chosen[l]][0]}' for l in plan) + '; ' + ', '.join(facts)]
        return dict(strides=self.strides, plan=plan, chosen=chosen, facts=facts, k=k, newf=dict(self.newf))
    def name(self, st, loc):
        if loc[0] == 'phi': return 'a loop variable'
        o = st.mem.get(loc[1]); return (o.name if o is not None else '?').split('::')[-1] if o is not None else '?'
    def back(self, E, f, b, env, st, data, depth):
        self.strides = data['strides']; k = data['k']; end = self.locs(b, env, st); plan, chosen = data['plan'], data['chosen']; self.fold_facts(E, st, k)
        for loc in plan:
            nm, fn = plan[loc][chosen[loc]]
            if fn is not None: E.oblige(st, self.holds(E, st, loc, fn(k + 1), end.get(loc)), 'invariant', f'in every round: {self.name(st, loc)} {nm}', assume=False)
        for n, c in self.factlist(E, k + 1):
            if n in data['facts']: E.oblige(st, zb2(c), 'invariant', f'in every round: {n}', assume=False)
        E.oblige(st, any(n.startswith('k <= ') for n in data['facts']), 'termination', 'the number of rounds is bounded', assume=False)
# ------------------------------------------------------------------ records whose vectors are sequences
def seqengine(own, root=None):
    mk0 = std_engine(module())
    def mk():
        E = mk0(); E.root = root; seqsetup(E, own); E.own = root; E.etys = {}; return E
    return mk
def fillseq(E, st, c, p, nm):
    """arbitrary members; -> {path: content}"""
    out = {}
    for f, t in REC[c]:
        q = at(E, st, c, p, f); t2 = FT.get((c, f))
        if t2 in E.own2: out.update({f + '.' + x: y for x, y in fillseq(E, st, t2, q, nm + '.' + f).items()}); continue
        if isinstance(t, int):
            x = z3.Int(f'{nm}.{f}'); st.pc.append(z3.And(x >= -(1 << (t - 1)), x < 1 << (t - 1))); E.store(st, q, IV(t, x, -(1 << (t - 1)), (1 << (t - 1)) - 1), f'i{t}', t // 8); out[f] = x; continue
        v = f'{nm}.{f}'
        if t == 'vector' and c == E.root:
            n = z3.Int(f'{nm}.{f}.n'); st.pc += [n >= 0, n < 1 << 40]; v = base(v, n); E.lens.append((f'size of {nm}.{f}', n)); E.etys[(q.obj, q.off)] = ELT[(c, f)]
        st.rw(q.obj).g[('lt', q.off)] = (t, v); out[f] = v
    return out
def readseq(E, st, c, p):
    out = {}
    for f, t in REC[c]:
        q = at(E, st, c, p, f); t2 = FT.get((c, f))
        if t2 in E.own2: out.update({f + '.' + x: y for x, y in readseq(E, st, t2, q).items()}); continue
        if isinstance(t, int): v = E.load(st, q, f'i{t}', t // 8); out[f] = None if isinstance(v, Undef) else E.s(st, v); continue
        g = st.mem[q.obj].g.get(('lt', q.off)); out[f] = g[1] if g else None
    return out
def newrec(E, st, c, nm, ro=False): p = obj(E, st, nm, E.sizes[c]); v = fillseq(E, st, c, p, nm); st.rw(p.obj).ro = ro; return p, v
def expseq(E, st, c, p, want, what, skip=()):
    got = readseq(E, st, c, p)
    for f, w in want.items():
        if f in skip: continue
        g = got[f]; nm = f'{what}: {f} is as specified'
        if g is None: ob(E, st, nm, False); continue
        if isinstance(w, Seq): eqseq(E, st, ELT[(c, f)], g, w, nm)
        elif isinstance(w, z3.ArithRef): ob(E, st, nm, g == w)
        else: ob(E, st, nm, tid(g) == tid(w))
def eqseq(E, st, et, g, w, nm):
    a = E.seqof(E, st, g); q = z3.Int('position'); ob(E, st, nm + ': size', zi(a.n) == zi(w.n)); s2 = st.fork(); s2.pc += [q >= 0, q < w.n]
    for x, _, t in flat(E, et): ob(E, s2, nm + (f': {x} of every element' if x else ': every element'), a.get(x, q) == w.get(x, q))
