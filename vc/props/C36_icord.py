"""ICord: the cord whose first block lies inside the object. Representation predicate over the real fields, the inline block
and the heap blocks; contracts of every public member, for block contents of 16 and 1024 (the default) bytes."""
from cordcommon import *
_im = {}
def imodule():
    if 'm' not in _im: _im['m'] = compile_ir([VERIF + '/harness/icord_driver.cpp'], 'icord')
    return _im['m']
def iengine():
    mk0 = std_engine(imodule(), timeout_ms=20000)
    def mk():
        E = mk0()
        def malloc(E, st, a, f, i):
            n = E.u(st, a[0]); p = E.alloc(st, 'malloc', n, 'heap')
            st.rw(p.obj).rope = [Sl(('undef',), 0, n)]; st.rw(p.obj).g['blk'] = True
            return p
        E.on_first('malloc', malloc)
        E.assumed = ['malloc succeeds and returns memory distinct from every live object']
        return E
    return mk
class Cls:
    """one instantiation"""
    def __init__(self, pre, C): self.pre, self.C = pre, C; self.lbl = f'nebula::ICord<{C}ul>::'; self.write = self.lbl + 'write(char const*, unsigned long)'
    def acc(self, E, st, n, *a): return acc(E, st, f'{self.pre}_{n}', *a)
    def inl(self, E, st, p): return Ptr(p.obj, E.u(st, self.acc(E, st, 'inlineoff')))
    def new(self, E, st, nm):
        n = E.u(st, self.acc(E, st, 'sizeof')); o = E.new_obj(st, nm, n, 'stack'); o.rope = [Sl(('undef',), 0, n)]
        if E.u(st, self.acc(E, st, 'content')) != self.C: raise Unsupported('the block content size is not the template argument')
        return Ptr(o.id, 0)
    def put(self, E, st, p, rope): E.rope_write(st, st.rw(p.obj), self.inl(E, st, p).off, rope)
    def fill(self, E, st, p, nm, shape):
        C = self.C; full, last = ('full', nm), ('last', nm); I = self.inl(E, st, p); st.g[('cord', p.obj)] = nm
        if shape == 'empty':
            self.acc(E, st, 'set', p, IV(64, 0), I, I); st.g[('F', nm)] = 0; st.g[('T', nm)] = I; return []
        pt = z3.Int(nm + '.pt'); st.pc.append(z3.And(pt >= 1, pt <= C)); E.set_rg(st, pt, 1, C)
        tl = [Sl(last, 0, pt), Sl(('undef',), 0, C - pt), Sl(('undef',), 0, 8)]
        F = 0; T = I
        if shape == 'one': self.put(E, st, p, tl)
        else:
            o = E.new_obj(st, nm + '.tail', C + 8, 'heap'); o.rope = E.rope_norm(st, tl); o.g['blk'] = True; T = Ptr(o.id, 0); F = C; nx = T
            if shape == 'many':
                k = z3.Int(nm + '.k'); st.pc.append(z3.And(k >= 2, k < (1 << 40))); E.set_rg(st, k, 2, 1 << 40); F = C * k
                so = E.new_obj(st, nm + '.rest', C + 8, 'heap'); so.g.update(blk=True, noaccess=True, seg=(full, C, F, T)); nx = Ptr(so.id, 0)
            self.put(E, st, p, [Sl(full, 0, C)] + E.val_rope(st, nx, 8))
        self.acc(E, st, 'set', p, IV(64, F + pt, 0, 1 << 62), I, T)
        st.g[('F', nm)] = F; st.g[('T', nm)] = T; st.g[('PT', nm)] = pt
        return ([Sl(full, 0, F)] if shape != 'one' else []) + [Sl(last, 0, pt)]
    def walk(self, E, st, p):
        bad = []; a = st.g.get(('abs', p.obj))
        if a is not None: return list(a[0]), [], set(a[1])
        C = self.C; I = self.inl(E, st, p)
        ln = E.u(st, self.acc(E, st, 'len', p)); h, t = self.acc(E, st, 'head', p), self.acc(E, st, 'tail', p)
        at = lambda x, y: isinstance(x, Ptr) and x.obj is not None and x.obj == y.obj and E.eqt(st, x.off, y.off)
        if not at(h, I): bad.append(('the chain starts in the block inside the object', False)); return [], bad, set()
        if not isinstance(t, Ptr) or t.obj is None: bad.append(('the last block is known', False)); return [], bad, set()
        rope = []; seen = set(); cur = h; F = 0
        while True:
            o = st.mem.get(cur.obj)
            if o is None or cur.obj in seen: bad.append(('the chain of blocks is acyclic and known', False)); return rope, bad, seen
            inline = cur.obj == p.obj
            if not inline:
                seen.add(cur.obj)
                if not o.alive or not E.eqt(st, cur.off, 0): bad.append(('every block of the chain is alive', False)); return rope, bad, seen
                if not E.eqt(st, o.size, C + 8): bad.append(('every block has the block size', False)); return rope, bad, seen
            if at(t, cur):
                if inline and E.eqt(st, ln, 0): return [], bad, seen
                pt = z3.simplify(I_(ln) - F); c = And_(pt >= 1, pt <= C)
                bad.append(('the recorded length ends within the last block, which is not empty', c))
                if not E.valid(st, c): return rope, bad, seen
                if z3.is_int_value(pt): pt = pt.as_long()
                rope += E.rope_read(st, o.rope, cur.off, pt); break
            if 'seg' in o.g:
                full, lo, hi, T = o.g['seg']; rope.append(Sl(full, lo, hi)); F = F + (hi - lo); cur = T; continue
            rope += E.rope_read(st, o.rope, cur.off, C); F = F + C
            nx = E.load(st, Ptr(cur.obj, cur.off + C), 'ptr', 8)
            if not isinstance(nx, Ptr) or nx.obj is None: bad.append(('every full block links to the next', False)); return rope, bad, seen
            cur = nx
        return norm(E, st, rope), bad, seen
    def leak(self, E, st, keep): return leak(E, st, keep)
    def oblige(self, E, st, p, want, what, noleak=True):
        rope, bad, seen = self.walk(E, st, p)
        for n, c in bad: ob(E, st, f'{what}: {n}', c)
        ob(E, st, f'{what}: the content is exactly the expected byte sequence', same(E, st, rope, want))
        if noleak: ob(E, st, f'{what}: no block is lost', not leak(E, st, seen))
    def set_abstract(self, E, st, p, rope):
        a = st.g.get(('abs', p.obj)); seen = set(a[1]) if a is not None else self.walk(E, st, p)[2]
        for x in seen: st.rw(x).g['noaccess'] = True
        n = E.rope_len(rope)
        to = E.new_obj(st, fresh_name('abstail'), self.C + 8, 'heap'); to.g['noaccess'] = True
        self.put(E, st, p, [Sl(('undef',), 0, self.C + 8)])
        self.acc(E, st, 'set', p, IV(64, n, 0, 1 << 63), self.inl(E, st, p), Ptr(to.id, 0))
        st.g[('abs', p.obj)] = (rope, frozenset(seen))
    def write_handler(self, E, st, a, f, inst):
        p = a[0]; n = E.u(st, a[2]); rope, bad, _ = self.walk(E, st, p)
        for nm, c in bad: E.oblige(st, c, 'precondition', 'write is called on a well-formed cord: ' + nm)
        E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
        if E.eqt(st, n, 0): return p
        r = E.read_bytes(st, a[1], n)
        E.oblige(st, not (isinstance(a[1], Ptr) and (a[1].obj == p.obj or a[1].obj in self.walk(E, st, p)[2])), 'precondition', 'the bytes written are not inside the cord itself')
        self.set_abstract(E, st, p, norm(E, st, rope + r)); return p
    def install_write(self, E): E.on_first(re.escape(self.write), self.write_handler)
    def loop_all(self, E, spec): E.loopspecs.append((re.compile(re.escape(self.lbl) + '.*'), lambda E, f, idx, bid, blocks, env, st: spec))
    def start(self, E, shape, nm='c'):
        st = State(); p = self.new(E, st, nm); return st, p, self.fill(E, st, p, nm, shape)
    def run(self, E, st, root, args, label, post):
        E.curfn = label = self.lbl + label
        outs = E.exec_fn(st, E.mod.find(f'{self.pre}_{root}'), args); E.curfn = label; E.curloc = ''; n = 0
        for s2, r in outs:
            if isinstance(r, Exc): ob(E, s2, 'no exception leaves ' + label, False); continue
            n += 1
            try: post(s2, r)
            except DropPath: pass
        if not n and not any(o.status != 'discharged' for o in E.obligs): raise Unsupported('vacuous: no path of %s returns' % label)
        E.verified = getattr(E, 'verified', []) + [label]; E.covers = getattr(E, 'covers', 0) + 1
END = 'behind the last block'
def before(st, nm, pos):
    """the content before a position"""
    if isinstance(pos, str): return [Sl(('full', nm), 0, st.g[('F', nm)]), Sl(('last', nm), 0, st.g[('PT', nm)])]
    return [Sl(('full', nm), 0, pos)]
class Blocks:
    """contract of a loop over the blocks: an arbitrary iteration starts at an arbitrary block, having processed exactly the content before it"""
    to_null = saw_null = False       # whether the loop runs on until the block pointer is null
    def __init__(self, k, p, accu): self.k, self.p, self.accu = k, p, accu
    def where(self, E, st, v, extra=None):
        nm = st.g[('cord', self.p.obj)]; T = st.g[('T', nm)]; F = st.g[('F', nm)]
        if not isinstance(v, Ptr) or v.obj not in st.mem: return None
        if v.obj == T.obj: return F if E.eqt(st, v.off, T.off) else None
        if v.obj == self.p.obj: return 0 if E.eqt(st, v.off, self.k.inl(E, st, self.p).off) else None
        if not E.eqt(st, v.off, 0): return None
        if 'seg' in st.mem[v.obj].g: return st.mem[v.obj].g['seg'][1]
        return extra.get(v.obj) if extra else None
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        C = self.k.C; nm = st.g[('cord', self.p.obj)]; T = st.g[('T', nm)]; F = st.g[('F', nm)]
        phis = [(i['id'], env[i['id']], i['ty']) for i in b['insts'] if i['op'] == 'phi']
        if [1 for i, v, ty in phis if ty == 'ptr' and isinstance(v, Ptr) and v.obj is None] and len(phis) == 1: return [(env, st, dict(skip=True))]
        ptrs = [(i, v) for i, v, ty in phis if ty == 'ptr' and self.where(E, st, v) is not None]
        ints = [(i, v) for i, v, ty in phis if ty != 'ptr']
        if len(ptrs) != 1 or len(ptrs) + len(ints) != len(phis): raise Unsupported('block loop with unexpected loop variables')
        for i, v in ints:
            if not E.eqt(st, E.s(st, v), 0): raise Unsupported('block loop with unexpected integer variable')
        pid, v0 = ptrs[0]; p0 = self.where(E, st, v0)
        self.accu.check(E, st, p0, 'on entry')
        out = []
        if Blocks.to_null and not ints and ('PT', nm) in st.g: s2 = st.fork(); e2 = dict(env); s2.writes = set(); e2[pid] = NULL; self.accu.set(E, s2, END, None, None); out.append((s2, e2, END, {}))
        s2 = st.fork(); e2 = dict(env); s2.writes = set(); e2[pid] = T; self.accu.set(E, s2, F, None, T.obj); out.append((s2, e2, F, {}))
        if isinstance(p0, int) and p0 == 0 and not E.eqt(st, F, 0):
            s2 = st.fork(); s2.writes = set(); out.append((s2, dict(env), 0, {}))
        if not isinstance(F, int):
            for kind in ('b', 'c'):
                s2 = st.fork(); e2 = dict(env); s2.writes = set()
                j = z3.Int(fresh_name(nm + '.pos')); lo = C * j
                s2.pc.append(z3.And(j >= 1, lo == F - C) if kind == 'b' else z3.And(j >= 1, lo + 2 * C <= F))
                if not E.feasible(s2): continue
                X = E.new_obj(s2, f'{nm}.cur', C + 8, 'heap'); X.g['blk'] = True
                if kind == 'b': nx = T
                else:
                    so = E.new_obj(s2, f'{nm}.rest', C + 8, 'heap'); so.g.update(blk=True, noaccess=True, seg=(('full', nm), lo + C, F, T)); nx = Ptr(so.id, 0)
                X.rope = [Sl(('full', nm), lo, lo + C)] + E.val_rope(s2, nx, 8)
                e2[pid] = Ptr(X.id, 0); self.accu.set(E, s2, lo, X.id, T.obj); out.append((s2, e2, lo, {X.id: lo}))
        res = []
        for s2, e2, lo, extra in out:
            for i, v in ints: e2[i] = IV(E.iv(v).w, lo, -(1 << 63), 1 << 63)
            res.append((e2, s2, dict(pid=pid, lo=lo, extra=extra, ints=[i for i, _ in ints], known=set(s2.mem))))
        E.loopinv = getattr(E, 'loopinv', []) + [f"{f['dem'].split('(')[0]}: the block pointer is at a block boundary and the content before it has been processed"]
        return res
    def back(self, E, f, b, env, st, data, depth):
        if data.get('skip'): raise Unsupported('loop over no block iterates')
        pos = self.where(E, st, env[data['pid']], data['extra']); nm = st.g[('cord', self.p.obj)]
        v = env[data['pid']]
        if isinstance(v, Ptr) and v.obj is None and not isinstance(data['lo'], str):
            Blocks.saw_null = True
            E.oblige(st, I_(data['lo']) == st.g[('F', nm)], 'invariant', 'the traversal ends behind the last block', assume=False); self.accu.check(E, st, END, 'is preserved'); self.frame(E, st, data); return
        E.oblige(st, pos is not None, 'invariant', 'the block pointer is at a block boundary', assume=False)
        if pos is None: return
        E.oblige(st, not isinstance(data['lo'], str) and I_(pos) > data['lo'], 'termination', 'the traversal advances', assume=False)
        for i in data['ints']: E.oblige(st, I_(E.s(st, env[i])) == pos, 'invariant', 'the counter counts the bytes before the block', assume=False)
        self.accu.check(E, st, pos, 'is preserved'); self.frame(E, st, data)
    def frame(self, E, st, data):
        for w in st.writes or ():
            if w[0] in data['known'] and w[0] not in self.accu.may_write(): E.oblige(st, False, 'frame', f'the loop writes only what it accumulates, not {st.mem[w[0]].name}', assume=False)
def buf(E, st, nm, n):
    o = E.new_obj(st, nm, n, 'input'); o.rope = [Sl(('buf', nm), 0, n)]; o.ro = True; return Ptr(o.id, 0)
class ILoop:
    """if the writing is done by a loop: content so far = old content + the first k bytes"""
    def __init__(self, k, p, rope, v, n): self.k, self.p, self.rope, self.v, self.n = k, p, rope, v, n
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        d = {}
        for i in b['insts']:
            if i['op'] != 'phi': continue
            v = env[i['id']]
            if i['ty'] == 'ptr':
                if not (isinstance(v, Ptr) and v.obj == self.v.obj): raise Unsupported('write loop with unexpected pointer variable')
                d[i['id']] = 'ptr'
            else:
                t = E.u(st, v); d[i['id']] = 'left' if E.eqt(st, t, self.n) else 'done' if E.eqt(st, t, 0) else None
                if d[i['id']] is None: raise Unsupported('write loop with unexpected integer variable')
        loc = loop_locals(E, f, env, st, self.n, self.v)
        rope, bad, _ = self.k.walk(E, st, self.p)
        for nm, c in bad: E.oblige(st, c, 'invariant', 'the cord is well-formed at the loop head: ' + nm)
        E.oblige(st, same(E, st, rope, self.rope), 'invariant', 'content at the loop head = old content + the bytes consumed')
        out = []
        for shape in SHAPES:
            s2 = st.fork(); e2 = dict(env); nm = fresh_name('w')
            for x in self.k.walk(E, s2, self.p)[2]: s2.rw(x).alive = False
            q = z3.Int(nm + '.q'); s2.pc.append(z3.And(q >= 0, q <= self.n)); E.set_rg(s2, q, 0, 1 << 60)
            r = self.k.fill(E, s2, self.p, nm, shape); so_far = list(self.rope) + [Sl(('buf', 'v'), 0, q)]
            s2.pc.append(I_(E.rope_len(so_far)) == E.rope_len(r))
            if r: s2.g['alias'] = s2.g.get('alias', []) + [(r, so_far)]
            if not E.feasible(s2): continue
            for i, kind in d.items(): e2[i] = Ptr(self.v.obj, q) if kind == 'ptr' else IV(64, self.n - q if kind == 'left' else q, 0, 1 << 60)
            locals_havoc(E, s2, loc, self.v, self.n, q)
            out.append((e2, s2, dict(d=d, q=q, loc=loc, known=set(s2.mem), may=set(loc) | {self.p.obj} | self.k.walk(E, s2, self.p)[2])))
        return out
    def back(self, E, f, b, env, st, data, depth):
        ks = [env[i].off if kind == 'ptr' else (self.n - E.u(st, env[i]) if kind == 'left' else E.u(st, env[i])) for i, kind in data['d'].items()] + locals_read(E, st, data['loc'], self.n)
        locals_frame(E, st, data['known'], data['may'])
        k = ks[0]
        for x in ks[1:]: E.oblige(st, I_(x) == k, 'invariant', 'the loop variables agree on the bytes consumed', assume=False)
        E.oblige(st, And_(I_(k) > data['q'], I_(k) <= self.n), 'termination', 'every round consumes at least one byte', assume=False)
        rope, bad, seen = self.k.walk(E, st, self.p)
        for nm, c in bad: E.oblige(st, c, 'invariant', 'the cord is well-formed after a round: ' + nm, assume=False)
        E.oblige(st, same(E, st, rope, self.rope + [Sl(('buf', 'v'), 0, k)]), 'invariant', 'content = old content + the bytes consumed', assume=False)
        E.oblige(st, not leak(E, st, seen), 'invariant', 'no block is lost', assume=False)
def u_write(k, shape):
    def u(E):
        st, p, rope = k.start(E, shape)
        n = z3.Int('v.len'); st.pc.append(z3.And(n >= 0, n < (1 << 60))); E.set_rg(st, n, 0, 1 << 60); v = buf(E, st, 'v', n)
        def h(E2, s2, a, f, inst):
            if s2.g.get('depth', 0) == 0: s2.g['depth'] = 1; return E.exec_fn(s2, f['name'], a)
            E.oblige(s2, And_(I_(E.u(s2, a[2])) < n, True), 'termination', 'the recursive call has fewer bytes left')
            return k.write_handler(E, s2, a, f, inst)
        E.on_first(re.escape(k.write), h); k.loop_all(E, ILoop(k, p, rope, v, n))
        def post(s2, r):
            k.oblige(E, s2, p, rope + [Sl(('buf', 'v'), 0, n)], 'after write')
            ob(E, s2, 'write returns the cord itself', isinstance(r, Ptr) and r.obj == p.obj and r.off == 0)
        k.run(E, st, 'write', [p, v, IV(64, n, 0, 1 << 60)], 'write', post)
    return u
def u_typed(k, shape):
    def u(E):
        for root, w, sg, kind in (('i8', 8, 1, ''), ('u8', 8, 0, ''), ('i16', 16, 1, ''), ('u16', 16, 0, ''), ('i32', 32, 1, ''), ('u32', 32, 0, ''), ('i64', 64, 1, ''), ('u64', 64, 0, ''), ('char', 8, 1, ''), ('bool', 8, 0, 'bool'), ('float', 32, 1, 'fp'), ('double', 64, 1, 'fp')):
            st, p, rope = k.start(E, shape); k.install_write(E)
            if kind == 'fp': a = FPV(z3.FP('v', E.FS['float' if w == 32 else 'double'])); want = E.val_rope(st, a, w // 8)
            elif kind == 'bool': a = z3.Bool('v'); want = E.val_rope(st, E.iv(a, 8), 1)
            else: a = E.sym(st, w, 'v', bool(sg)); want = E.val_rope(st, a, w // 8)
            k.run(E, st, root, [p, a], f'operator<<({root})', lambda s2, r: (k.oblige(E, s2, p, rope + want, 'after <<', False), ob(E, s2, '<< returns the cord itself', isinstance(r, Ptr) and r.obj == p.obj)))
    return u
def u_strings(k, shape):
    def u(E):
        st, p, rope = k.start(E, shape); k.install_write(E)
        so = E.new_obj(st, 's', 32, 'stack'); n = stdlib.str_len_sym(st, 's'); sr = [Sl(('str', 's'), 0, n)]; stdlib.str_set(E, st, Ptr(so.id, 0), sr)
        k.run(E, st, 'string', [p, Ptr(so.id, 0)], 'operator<<(std::string const&)', lambda s2, r: k.oblige(E, s2, p, rope + sr, 'after << string', False))
        st, p, rope = k.start(E, shape)
        n = z3.Int('z.len'); st.pc.append(z3.And(n >= 0, n < (1 << 60))); r = [Sl(('cstr', 'z'), 0, n)]
        v = buf(E, st, 'z', n + 1); o = st.rw(v.obj); o.rope = r + [Sl(('lit', b'\0'), 0, 1)]; o.g['cstr'] = r
        k.run(E, st, 'cstr', [p, v], 'operator<<(char const*)', lambda s2, rr: k.oblige(E, s2, p, rope + r, 'after << C string', False))
    return u
class AccString:
    def __init__(self, find, base): self.find, self.base = find, base
    def cut(self, st, pos): return list(self.base) + before(st, 'c', pos)
    def check(self, E, st, pos, what): E.oblige(st, same(E, st, stdlib.str_get(E, st, self.find(st)), self.cut(st, pos)), 'invariant', 'string = old string + content before the block ' + what, assume=False)
    def set(self, E, st, pos, cur, tail): stdlib.str_set(E, st, self.find(st), self.cut(st, pos))
    def may_write(self): return {self.obj} if hasattr(self, 'obj') else set()
def found(a, but=None):
    def find(s):
        c = [Ptr(o.id, q[1]) for o in s.mem.values() for q, r in o.g.items() if isinstance(q, tuple) and q[0] == 'str' and o.id != but and r is not None]
        if len(c) != 1: raise Unsupported('cannot identify the accumulating string')
        a.obj = c[0].obj; return c[0]
    return find
def u_read(k, shape):
    def u(E):
        st, p, rope = k.start(E, shape); st.rw(p.obj).ro = True
        so = E.new_obj(st, 's', 32, 'stack'); sp = Ptr(so.id, 0); n = stdlib.str_len_sym(st, 's'); sr = [Sl(('str', 's'), 0, n)]; stdlib.str_set(E, st, sp, sr)
        a = AccString(lambda s: sp, sr); a.obj = so.id; k.loop_all(E, Blocks(k, p, a))
        def post(s2, r):
            ob(E, s2, 'the string is the old string followed by the content', same(E, s2, stdlib.str_get(E, s2, sp), sr + rope))
            ob(E, s2, 'the number of bytes appended is returned', I_(E.u(s2, r)) == E.rope_len(rope))
            ob(E, s2, 'no block was freed', all(s2.mem[x].alive for x, o in st.mem.items() if o.g.get('blk')))
        k.run(E, st, 'appendTo', [p, sp], 'appendTo', post)
    return u
def u_str(k, shape):
    def u(E):
        st, p, rope = k.start(E, shape); st.rw(p.obj).ro = True
        so = E.new_obj(st, 's', 32, 'stack'); sp = Ptr(so.id, 0); stdlib.str_set(E, st, sp, [])
        a = AccString(None, []); a.find = found(a, so.id); k.loop_all(E, Blocks(k, p, a))
        k.run(E, st, 'str', [p, sp], 'str', lambda s2, r: ob(E, s2, 'the result is the content', same(E, s2, stdlib.str_get(E, s2, sp), rope)))
        st, p, rope = k.start(E, shape); st.rw(p.obj).ro = True
        k.run(E, st.fork(), 'size', [p], 'size', lambda s2, r: ob(E, s2, 'size is the number of bytes', I_(E.u(s2, r)) == E.rope_len(rope)))
        k.run(E, st.fork(), 'empty', [p], 'empty', lambda s2, r: ob(E, s2, 'empty exactly when there is no byte', (lambda rv: rv == (shape == 'empty') if isinstance(rv, bool) else rv == z3.BoolVal(shape == 'empty'))(E.boolv(r))))
    return u
class AccTrace:
    def check(self, E, st, pos, what): E.oblige(st, same(E, st, st.g['trace'], before(st, 'c', pos)) and st.g['go'] is True, 'invariant', 'the visitor has seen exactly the content before the block, and said yes ' + what, assume=False)
    def set(self, E, st, pos, cur, tail): st.g['trace'] = norm(E, st, before(st, 'c', pos)); st.g['go'] = True
    def may_write(self): return set()
def u_applyTo(k, shape):
    def u(E):
        st, p, rope = k.start(E, shape); st.rw(p.obj).ro = True; st.g['trace'] = []; st.g['go'] = True
        fo = E.new_obj(st, 'visitor', 32, 'stack'); FN = r'std::function<bool \(char const\*, int\)>::'
        E.on_first(FN + r'function\(std::function<bool \(char const\*, int\)> const&\)', ret_undef)
        E.on_first(FN + r'(~function)\(\)', ret_undef)
        def callv(E, s2, a, f, inst):
            E.oblige(s2, s2.g['go'] is True, 'postcondition', 'nothing is visited after the visitor said stop')
            n = E.s(s2, a[2]); E.oblige(s2, I_(n) > 0, 'postcondition', 'the visitor gets a nonempty piece')
            s2.g['trace'] = norm(E, s2, s2.g['trace'] + E.read_bytes(s2, a[1], n))
            b = z3.Bool(fresh_name('visit')); sf = s2.fork(); sf.pc.append(z3.Not(b)); sf.g['go'] = False; s2.pc.append(b)
            return [(s2, True), (sf, False)]
        E.on_first(FN + r'operator\(\)\(char const\*, int\) const', callv)
        k.loop_all(E, Blocks(k, p, AccTrace()))
        def post(s2, r):
            rv = E.boolv(r); go = s2.g['go']
            ob(E, s2, 'the result is true exactly when the visitor never said stop', rv == go if isinstance(rv, bool) else rv == z3.BoolVal(go))
            if go: ob(E, s2, 'the pieces visited are exactly the content in order', same(E, s2, s2.g['trace'], rope)); return
            try: c = same(E, s2, s2.g['trace'], E.rope_split(s2, norm(E, s2, rope), E.rope_len(s2.g['trace']))[0])
            except Unsupported: c = False
            ob(E, s2, 'the pieces visited are a prefix of the content', c)
        k.run(E, st, 'applyTo', [p, Ptr(fo.id, 0)], 'applyTo', post)
    return u
class AccFree:
    """blocks before the current one are freed, the current one and the rest are alive (the inline block is never freed)"""
    def __init__(self, p): self.p = p
    def check(self, E, st, pos, what):
        T = st.g[('T', 'c')].obj; F = st.g[('F', 'c')]
        ok = {o.id for o in st.mem.values() if o.g.get('blk') and o.alive}; rest = [st.mem[x] for x in ok if x != T]
        if isinstance(pos, str): cond = not ok
        elif E.eqt(st, pos, F): cond = not rest and T in ok
        else:
            starts = [o for o in rest if ('seg' in o.g and E.eqt(st, o.g['seg'][1], pos)) or ('seg' not in o.g and o.rope and o.rope[0].atom == ('full', 'c') and E.eqt(st, o.rope[0].lo, pos))]
            cond = len(starts) == 1 and T in ok
            if cond:
                reach = {starts[0].id, T}
                if 'seg' not in starts[0].g:
                    nx = Engine.valtab.get(starts[0].rope[-1].atom[1]) if starts[0].rope[-1].atom[0] == 'val' else None
                    if isinstance(nx, Ptr): reach.add(nx.obj)
                cond = ok <= reach
        E.oblige(st, cond, 'invariant', 'exactly the heap blocks before the current one have been freed ' + what, assume=False)
    def set(self, E, st, pos, cur, tail):
        keep = {tail} - {None}
        if cur is not None: keep.add(cur); keep.add(Engine.valtab.get(st.mem[cur].rope[-1].atom[1]).obj)
        for o in list(st.mem.values()):
            if o.g.get('blk') and o.alive and o.id not in keep: st.rw(o.id).alive = False
    def may_write(self): return {self.p.obj}
def u_clear(k, root, lab, shape):
    def u(E):
        st, p, rope = k.start(E, shape); k.loop_all(E, Blocks(k, p, AccFree(p)))
        def post(s2, r):
            if root == 'clear': k.oblige(E, s2, p, [], 'after clear')
            else: ob(E, s2, 'every heap block is freed', not leak(E, s2, set()))
        k.run(E, st, root, [p], lab, post)
    return u
def u_ctor(k):
    def u(E):
        st = State(); p = k.new(E, st, 'c')
        k.run(E, st, 'ctor0', [p], 'ICord', lambda s2, r: k.oblige(E, s2, p, [], 'a new cord'))
    return u
class AccCord:
    def __init__(self, k, dst, base): self.k, self.dst, self.base = k, dst, base
    def check(self, E, st, pos, what):
        rope, bad, _ = self.k.walk(E, st, self.dst)
        for n, c in bad: E.oblige(st, c, 'invariant', f'the target is well-formed {what}: {n}', assume=False)
        E.oblige(st, same(E, st, rope, self.base + before(st, 'r', pos)), 'invariant', 'target = old content + content of the source before the block ' + what, assume=False)
    def set(self, E, st, pos, cur, tail): self.k.set_abstract(E, st, self.dst, norm(E, st, self.base + before(st, 'r', pos)))
    def may_write(self): return {self.dst.obj}
def u_cord(k, shape, rshape):
    def u(E):
        st, p, rope = k.start(E, shape); q = k.new(E, st, 'r'); rr = k.fill(E, st, q, 'r', rshape); st.rw(q.obj).ro = True
        k.install_write(E); k.loop_all(E, Blocks(k, q, AccCord(k, p, rope)))
        def post(s2, r):
            k.oblige(E, s2, p, rope + rr, 'after << cord', False)
            ob(E, s2, 'the source keeps its content', same(E, s2, k.walk(E, s2, q)[0], rr))
        k.run(E, st, 'cord', [p, q], 'operator<<(ICord const&)', post)
    return u
def u_self(k, shape):
    def u(E):
        st, p, rope = k.start(E, shape); k.install_write(E)
        a = AccString(None, []); a.find = found(a); k.loop_all(E, Blocks(k, p, a))
        k.run(E, st, 'cord', [p, p], 'operator<<(ICord const&) with itself', lambda s2, r: k.oblige(E, s2, p, rope + rope, 'after << itself', False))
    return u
def either(u):
    """the loop invariant without, then with the state behind the last block (for loops that end at a null pointer)"""
    def v(E):
        snap = {k: list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else set(x) if isinstance(x, set) else x for k, x in E.__dict__.items()}
        Blocks.to_null = Blocks.saw_null = False; err = None
        try: u(E)
        except Unsupported as x: err = x
        if Blocks.saw_null:
            E.__dict__.clear(); E.__dict__.update(snap); Blocks.to_null = True; u(E); return
        if err: raise err
    return v
class PROP(Property):
    id = 'C36'
    budget = 400
    assumptions = ['contents shorter than 2^40 blocks', 'the bytes passed to write do not lie inside the cord (other than through cord << cord)', 'the instantiations with blocks of 16 and of 1024 bytes; a cord is not copied (its implicit copy would share blocks)']
    def units(self):
        mk = iengine(); U = []
        for k in (Cls('vc_ic16', 16), Cls('vc_ic', 1024)):
            t = f'<{k.C}> '; U.append((t + 'constructor', mk, u_ctor(k)))
            for s in SHAPES:
                U += [(t + f'write[{s}]', mk, u_write(k, s)), (t + f'appendTo[{s}]', mk, u_read(k, s)), (t + f'str[{s}]', mk, u_str(k, s)), (t + f'applyTo[{s}]', mk, u_applyTo(k, s)), (t + f'clear[{s}]', mk, u_clear(k, 'clear', 'clear', s)),
                      (t + f'destructor[{s}]', mk, u_clear(k, 'dtor', '~ICord', s)), (t + f'strings[{s}]', mk, u_strings(k, s)), (t + f'self[{s}]', mk, u_self(k, s)), (t + f'<<[{s}]', mk, u_typed(k, s))]
                for r in SHAPES: U.append((t + f'cord[{s},{r}]', mk, u_cord(k, s, r)))
        return [(n, m, either(u)) for n, m, u in U]
    search = search_prog([], 'icord_search', lambda tier: [3000 if tier == 'quick' else 30000])
