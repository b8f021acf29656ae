"""Cord: representation predicate over the real fields and heap blocks, contracts of every public member."""
from framework import *
import loops
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([SRC + 'base/Cord.cpp', VERIF + '/harness/cord_driver.cpp'], 'cord')
    return _js['m']
def engine():
    mk0 = std_engine(module(), timeout_ms=20000)
    def mk():
        E = mk0()
        def malloc(E, st, a, f, i):
            n = E.u(st, a[0]); p = E.alloc(st, 'malloc', n, 'heap')
            st.rw(p.obj).rope = [Sl(('undef',), 0, n)]; st.rw(p.obj).g['blk'] = True
            return p
        E.on_first('malloc', malloc)
        E.assumed = ['malloc succeeds and returns memory distinct from every live object']
        return E
    return mk
def acc(E, st, name, *args):
    E.quiet += 1
    try:
        outs = E.exec_fn(st, E.mod.find(name), list(args))
        if len(outs) != 1: raise Unsupported(f'{name} has {len(outs)} paths')
        return outs[0][1]
    finally: E.quiet -= 1
SHAPES = ('empty', 'one', 'two', 'many')
def sizes(E, st, nm, fixed=None):
    if fixed: return IV(32, fixed), IV(32, fixed - 8)
    B = z3.Int(nm + '.B'); st.pc.append(z3.And(B >= 9, B <= 0x7fffffff)); E.set_rg(st, B, 9, 0x7fffffff)
    return IV(32, B, 9, 0x7fffffff), IV(32, B - 8, 1, 0x7fffffff)
def new_cord(E, st, nm):
    o = E.new_obj(st, nm, E.u(st, acc(E, st, 'vc_cord_sizeof')), 'stack')
    return Ptr(o.id, 0)
def fill(E, st, p, nm, shape, B, C):
    """give the cord at p an arbitrary content of the given shape: -> content rope"""
    Bt, Ct = B.t, C.t
    full, last = ('full', nm), ('last', nm)
    if shape == 'empty':
        acc(E, st, 'vc_cord_set', p, B, C, C, IV(64, 0), NULL, NULL); st.g[('cord', p.obj)] = nm; return []
    pt = z3.Int(nm + '.pt'); st.pc.append(z3.And(pt >= 1, pt <= Ct)); E.set_rg(st, pt, 1, 0x7fffffff)
    def blk(n, rope):
        o = E.new_obj(st, f'{nm}.{n}', Bt, 'heap'); o.rope = rope; o.g['blk'] = True
        return Ptr(o.id, 0)
    T = blk('tail', [Sl(last, 0, pt), Sl(('undef',), 0, Bt - pt)])
    F = 0; head = T
    if shape == 'two':
        F = Ct; head = blk('b0', [Sl(full, 0, Ct)] + E.val_rope(st, T, 8))
    elif shape == 'many':
        F = z3.Int(nm + '.F'); st.pc.append(z3.And(F >= 2 * Ct, F < (1 << 61))); E.set_rg(st, F, 2, 1 << 61)
        so = E.new_obj(st, f'{nm}.rest', Bt, 'heap'); so.g.update(blk=True, noaccess=True, seg=(full, Ct, F, T))
        head = blk('b0', [Sl(full, 0, Ct)] + E.val_rope(st, Ptr(so.id, 0), 8))
    n = F + pt
    acc(E, st, 'vc_cord_set', p, B, C, IV(32, pt, 1, 0x7fffffff), IV(64, n, 0, 1 << 62), head, T)
    st.g[('cord', p.obj)] = nm; st.g[('F', nm)] = F; st.g[('T', nm)] = T.obj
    return ([Sl(full, 0, F)] if shape != 'one' else []) + [Sl(last, 0, pt)]
def walk(E, st, p):
    """content of the concrete cord at p; -> (rope, [(name, cond)], block ids)"""
    bad = []
    a = st.g.get(('abs', p.obj))
    if a is not None: return list(a[0]), [], set(a[1])
    B, C, pt, ln = (E.s(st, acc(E, st, 'vc_cord_' + k, p)) for k in ('bs', 'bc', 'pt', 'len'))
    h, t = acc(E, st, 'vc_cord_head', p), acc(E, st, 'vc_cord_tail', p)
    bad.append(('block size exceeds the content size by one pointer', And_(I_(B) == C + 8, I_(C) > 0)))
    isnull = lambda x: isinstance(x, Ptr) and x.obj is None
    if isnull(h) or isnull(t):
        bad += [('head and tail are both null or both set', isnull(h) and isnull(t)), ('an empty cord asks for a block on the next write', I_(pt) == C), ('an empty cord has length 0', I_(ln) == 0)]
        return [], bad, set()
    if not isinstance(h, Ptr) or not isinstance(t, Ptr): raise Unsupported('cord head/tail is not a known pointer')
    rope = []; seen = set(); cur = h
    while True:
        o = st.mem.get(cur.obj)
        if o is None or cur.obj in seen: bad.append(('the chain of blocks is acyclic and known', False)); return rope, bad, seen
        seen.add(cur.obj)
        if not o.alive or not E.eqt(st, cur.off, 0): bad.append(('every block of the chain is alive', False)); return rope, bad, seen
        if not E.eqt(st, o.size, B): bad.append(('every block has the block size', False)); return rope, bad, seen
        if cur.obj == t.obj:
            bad += [('the fill of the last block is within its content area', And_(I_(pt) >= 1, I_(pt) <= C))]
            if not E.valid(st, And_(I_(pt) >= 1, I_(pt) <= C)): return rope, bad, seen
            rope += E.rope_read(st, o.rope, 0, pt); break
        if 'seg' in o.g:
            full, lo, hi, T = o.g['seg']; rope.append(Sl(full, lo, hi)); cur = T; continue
        rope += E.rope_read(st, o.rope, 0, C)
        nx = E.load(st, Ptr(cur.obj, C), 'ptr', 8)
        if not isinstance(nx, Ptr) or nx.obj is None: bad.append(('every full block links to the next', False)); return rope, bad, seen
        cur = nx
    rope = norm(E, st, rope)
    bad.append(('the recorded length is the length of the content', I_(ln) == E.rope_len(rope)))
    return rope, bad, seen
def I_(x): return z3.IntVal(x) if isinstance(x, int) else x
def And_(*a): return z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in a])
def norm(E, st, rope):
    """normal form modulo the ghost equations introduced at loop heads"""
    rope = E.rope_norm(st, rope)
    for lhs, rhs in st.g.get('alias', []):
        k = len(lhs)
        for i in range(len(rope) - k + 1):
            w = rope[i:i + k]
            if all(x.atom == y.atom for x, y in zip(w, lhs)) and all(E.eqt(st, x.lo, y.lo) for x, y in zip(w, lhs)) and all(E.eqt(st, x.hi, y.hi) for x, y in zip(w, lhs)):
                rope = E.rope_norm(st, rope[:i] + list(rhs) + rope[i + k:]); return norm(E, st, rope)
    return rope
def same(E, st, a, b): return E.rope_eq_cond(st, norm(E, st, a), norm(E, st, b))
def leak(E, st, keep):
    """heap blocks that are alive and not in keep"""
    return [o.name for o in st.mem.values() if o.g.get('blk') and o.alive and o.id not in keep]
def oblige_cord(E, st, p, want, what, keep=(), noleak=True):
    rope, bad, seen = walk(E, st, p)
    for n, c in bad: ob(E, st, f'{what}: {n}', c)
    ob(E, st, f'{what}: the content is exactly the expected byte sequence', same(E, st, rope, want))
    if noleak:
        ob(E, st, f'{what}: no block is lost', not leak(E, st, seen | set(keep)))
    return seen
def ob(E, st, n, c):
    try: E.oblige(st, c, 'postcondition', n)
    except DropPath: pass
def set_abstract(E, st, p, rope):
    """forget the representation of the cord, keep its content"""
    a = st.g.get(('abs', p.obj))
    seen = set(a[1]) if a is not None else walk(E, st, p)[2]
    B, C = acc(E, st, 'vc_cord_bs', p), acc(E, st, 'vc_cord_bc', p)
    for x in seen: o = st.rw(x); o.g['noaccess'] = True
    n = E.rope_len(rope)
    und = Undef('ptr')
    pt = E.fresh_int(32, 'apt'); E.rng(st, pt)
    acc(E, st, 'vc_cord_set', p, B, C, pt, IV(64, n, 0, 1 << 63), und, und)
    st.g[('abs', p.obj)] = (rope, frozenset(seen))
def write_handler(E, st, a, f, inst):
    p = a[0]; n = E.u(st, a[2])
    rope, bad, _ = walk(E, st, p)
    for nm, c in bad: E.oblige(st, c, 'precondition', 'write is called on a well-formed cord: ' + nm)
    E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
    if E.eqt(st, n, 0): return p
    r = E.read_bytes(st, a[1], n)
    own = st.g.get(('cordblocks', p.obj))
    E.oblige(st, not (isinstance(a[1], Ptr) and a[1].obj in walk(E, st, p)[2]), 'precondition', 'the bytes written are not inside the cord itself')
    set_abstract(E, st, p, norm(E, st, rope + r))
    return p
WRITE = 'nebula::Cord::write(char const*, unsigned long)'
def install_write(E): E.on_first(re.escape(WRITE), write_handler)

def loop_locals(E, f, env, st, n, v):
    """locals that live in memory at the head of a writing loop: {object: 'left' (bytes left) | 'ptr' (into the bytes) | None (a temporary)}"""
    d = {}
    for b in f['blocks']:
        for i in b['insts']:
            if i['op'] != 'alloca' or not isinstance(env.get(i['id']), Ptr): continue
            o = st.mem.get(env[i['id']].obj)
            if o is None or o.rope is not None: continue
            if set(o.cells) <= {0}:
                c = o.cells.get(0); x = c[1] if c else None
                if isinstance(x, Ptr): d[o.id] = 'ptr' if x.obj == v.obj and E.eqt(st, x.off, 0) else 'fix'
                elif x is None or c[0] != 8: d[o.id] = None
                else: d[o.id] = 'left' if E.eqt(st, E.u(st, x), n) else None
    return {k: q for k, q in d.items() if q != 'fix'}
def locals_havoc(E, st, d, v, n, k):
    for o, q in d.items():
        st.rw(o).cells.clear()
        if q: E.store(st, Ptr(o, 0), Ptr(v.obj, k) if q == 'ptr' else IV(64, n - k, 0, 1 << 60), 'ptr' if q == 'ptr' else 'i64', 8)
    st.writes = set()
def locals_read(E, st, d, n):
    """bytes consumed according to each of them"""
    return [E.load(st, Ptr(o, 0), 'ptr', 8).off if q == 'ptr' else n - E.u(st, E.load(st, Ptr(o, 0), 'i64', 8)) for o, q in d.items() if q]
def locals_frame(E, st, known, may):
    for w in st.writes or ():
        if w[0] in known and w[0] not in may: E.oblige(st, False, 'frame', f'the loop writes only the cord and its own variables, not {st.mem[w[0]].name}', assume=False)
class Positions:
    """contract of a loop over the blocks of a cord: an arbitrary iteration starts at an arbitrary block boundary, having
       processed exactly the content before it. acc.set / acc.check describe 'processed'."""
    def __init__(self, p, accu): self.p = p; self.accu = accu
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        nm = st.g[('cord', self.p.obj)]
        phis = [(i['id'], env[i['id']], i['ty']) for i in b['insts'] if i['op'] == 'phi']
        h = acc(E, st, 'vc_cord_head', self.p) if ('abs', self.p.obj) not in st.g else None
        ptrs = [(pid, v) for pid, v, ty in phis if ty == 'ptr' and isinstance(v, Ptr) and h is not None and v.obj == h.obj]
        ints = [(pid, v) for pid, v, ty in phis if ty != 'ptr']
        others = [pid for pid, v, ty in phis if ty == 'ptr' and pid not in [x for x, _ in ptrs]]
        if others or len(ptrs) != 1: raise Unsupported('block loop with unexpected loop variables')
        pid = ptrs[0][0]
        if h.obj is None:
            # empty cord: run the loop as it is
            return [(env, st, dict(skip=True))]
        self.accu.check(E, st, 0, 'on entry')
        B, C = acc(E, st, 'vc_cord_bs', self.p), acc(E, st, 'vc_cord_bc', self.p)
        full = ('full', nm); F = st.g[('F', nm)]; Ct = E.s(st, C); Bt = E.s(st, B); T = Ptr(st.g[('T', nm)], 0)
        out = []
        def base(tag):
            s2 = st.fork(); e2 = dict(env); s2.writes = set(); s2.g['tag'] = tag
            return s2, e2
        # (a) at the last block
        s2, e2 = base('at the last block'); e2[pid] = T
        self.accu.set(E, s2, F, None, T.obj); out.append((s2, e2, F))
        if not (isinstance(F, int) and F == 0):
            for kind in ('b', 'c'):
                s2, e2 = base('before')
                lo = z3.Int(fresh_name(nm + '.pos'))
                s2.pc.append(z3.And(lo >= 0, lo + Ct <= F) if kind == 'b' else z3.And(lo >= 0, lo + 2 * Ct <= F))
                if kind == 'b': s2.pc.append(lo == F - Ct)
                if not E.feasible(s2): continue
                X = E.new_obj(s2, f'{nm}.cur', Bt, 'heap'); X.g['blk'] = True
                if kind == 'b': nx = T
                else:
                    so = E.new_obj(s2, f'{nm}.rest', Bt, 'heap'); so.g.update(blk=True, noaccess=True, seg=(full, lo + Ct, F, T)); nx = Ptr(so.id, 0)
                X.rope = [Sl(full, lo, lo + Ct)] + E.val_rope(s2, nx, 8)
                e2[pid] = Ptr(X.id, 0)
                self.accu.set(E, s2, lo, X.id, T.obj); out.append((s2, e2, lo))
        res = []
        for s2, e2, lo in out:
            for i, v in ints:
                v0 = E.s(st, v); d = I_(lo) if isinstance(v0, int) and v0 == 0 else None
                e2[i] = IV(E.iv(v).w, lo, -(1 << 63), 1 << 63) if d is not None else E.rng(s2, E.fresh_int(E.iv(v).w, 'lv'))
            known = set(s2.mem)
            res.append((e2, s2, dict(pid=pid, lo=lo, F=F, T=T, ints=[(i, E.s(st, v)) for i, v in ints], known=known, fields=self.fields(E, s2))))
        E.loopinv = getattr(E, 'loopinv', []) + [f"{f['dem'].split('(')[0]}: the block pointer is at a block boundary and the content before it has been processed"]
        return res
    def fields(self, E, st):
        if ('abs', self.p.obj) in st.g: return None
        return [acc(E, st, 'vc_cord_' + k, self.p) for k in ('bs', 'bc', 'pt', 'len', 'head', 'tail')]
    def back(self, E, f, b, env, st, data, depth):
        if data.get('skip'): raise Unsupported('loop over an empty cord iterates')
        cur = env[data['pid']]; lo = data['lo']; F = data['F']
        if not isinstance(cur, Ptr) or cur.obj not in st.mem: raise Unsupported('block loop: unknown pointer')
        o = st.mem[cur.obj]
        if cur.obj == data['T'].obj: pos = F
        elif 'seg' in o.g: pos = o.g['seg'][1]
        else:
            pos = lo if cur.obj in data['known'] else None
        E.oblige(st, pos is not None and E.eqt(st, cur.off, 0), 'invariant', 'the block pointer is at a block boundary', assume=False)
        if pos is None: return
        E.oblige(st, I_(pos) > lo, 'termination', 'the traversal advances', assume=False)
        for i, v0 in data['ints']:
            if isinstance(v0, int) and v0 == 0: E.oblige(st, I_(E.s(st, env[i])) == pos, 'invariant', 'the counter counts the bytes before the block', assume=False)
        self.accu.check(E, st, pos, 'is preserved')
        for w in st.writes or ():
            if w[0] in data['known'] and w[0] not in self.accu.may_write(): E.oblige(st, False, 'frame', f'the loop writes only what it accumulates, not {st.mem[w[0]].name}', assume=False)
