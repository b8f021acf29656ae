from cordcommon import *
LBL = 'nebula::Cord::'
def run(E, st, root, args, label, post):
    E.curfn = label
    outs = E.exec_fn(st, E.mod.find(root), args)
    E.curfn = label; E.curloc = ''; n = 0
    for s2, r in outs:
        if isinstance(r, Exc): ob(E, s2, 'no exception leaves ' + label, False); continue
        n += 1
        try: post(s2, r)
        except DropPath: pass
    if not n and not any(o.status != 'discharged' for o in E.obligs): raise Unsupported('vacuous: no path of %s returns' % label)
    E.verified = getattr(E, 'verified', []) + [label]; E.covers = getattr(E, 'covers', 0) + 1
def start(E, shape, nm='c', B=None):
    st = State(); p = new_cord(E, st, nm); BC = B or sizes(E, st, nm); rope = fill(E, st, p, nm, shape, *BC)
    return st, p, rope
def buf(E, st, nm='v', rope=None, n=None):
    if rope is None:
        n = z3.Int(nm + '.len'); st.pc.append(z3.And(n >= 0, n < (1 << 60))); E.set_rg(st, n, 0, 1 << 60)
        rope = [Sl(('buf', nm), 0, n)]
    o = E.new_obj(st, nm, n, 'input'); o.rope = rope; o.ro = True
    return Ptr(o.id, 0), n, rope
def fields_unchanged(E, st, p, want): pass

# ---- write: verified against its own contract (recursive calls use the contract; the measure is the number of bytes left)
class WriteLoop:
    """if the writing is done by a loop: content so far = old content + the first k bytes"""
    def __init__(self, p, rope, v, n): self.p, self.rope, self.v, self.n = p, rope, v, n
    def classify(self, E, st, phis):
        d = {}
        for i, v, ty in phis:
            if ty == 'ptr':
                if isinstance(v, Ptr) and v.obj == self.v.obj: d[i] = 'ptr'
                else: raise Unsupported('write loop with unexpected pointer variable')
            else:
                t = E.u(st, v)
                d[i] = 'left' if E.eqt(st, t, self.n) else 'done' if E.eqt(st, t, 0) else None
                if d[i] is None: raise Unsupported('write loop with unexpected integer variable')
        return d
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        phis = [(i['id'], env[i['id']], i['ty']) for i in b['insts'] if i['op'] == 'phi']
        d = self.classify(E, st, phis); loc = loop_locals(E, f, env, st, self.n, self.v)
        rope, bad, _ = walk(E, st, self.p)
        for nm, c in bad: E.oblige(st, c, 'invariant', 'the cord is well-formed at the loop head: ' + nm)
        E.oblige(st, same(E, st, rope, self.rope), 'invariant', 'content at the loop head = old content + the bytes consumed')
        out = []
        for shape in SHAPES:
            s2 = st.fork(); e2 = dict(env); nm = fresh_name('w')
            for x in walk(E, s2, self.p)[2]: s2.rw(x).alive = False
            k = z3.Int(nm + '.k'); s2.pc.append(z3.And(k >= 0, k <= self.n)); E.set_rg(s2, k, 0, 1 << 60)
            B, C = acc(E, s2, 'vc_cord_bs', self.p), acc(E, s2, 'vc_cord_bc', self.p)
            r = fill(E, s2, self.p, nm, shape, B, C)
            so_far = list(self.rope) + [Sl(('buf', 'v'), 0, k)]
            s2.pc.append(I_(E.rope_len(so_far)) == E.rope_len(r))
            if r: s2.g['alias'] = s2.g.get('alias', []) + [(r, so_far)]
            else: so_far = []
            if not E.feasible(s2): continue
            for i, kind in d.items():
                e2[i] = Ptr(self.v.obj, k) if kind == 'ptr' else IV(64, self.n - k if kind == 'left' else k, 0, 1 << 60)
            locals_havoc(E, s2, loc, self.v, self.n, k)
            out.append((e2, s2, dict(d=d, k=k, loc=loc, known=set(s2.mem), may=set(loc) | {self.p.obj} | walk(E, s2, self.p)[2])))
        return out
    def back(self, E, f, b, env, st, data, depth):
        ks = []
        for i, kind in data['d'].items():
            v = env[i]
            ks.append(v.off if kind == 'ptr' else (self.n - E.u(st, v) if kind == 'left' else E.u(st, v)))
        ks += locals_read(E, st, data['loc'], self.n); locals_frame(E, st, data['known'], data['may'])
        k = ks[0]
        for x in ks[1:]: E.oblige(st, I_(x) == k, 'invariant', 'the loop variables agree on the bytes consumed', assume=False)
        E.oblige(st, And_(I_(k) > data['k'], I_(k) <= self.n), 'termination', 'every round consumes at least one byte', assume=False)
        rope, bad, seen = walk(E, st, self.p)
        for nm, c in bad: E.oblige(st, c, 'invariant', 'the cord is well-formed after a round: ' + nm, assume=False)
        E.oblige(st, same(E, st, rope, self.rope + [Sl(('buf', 'v'), 0, k)]), 'invariant', 'content = old content + the bytes consumed', assume=False)
        E.oblige(st, not leak(E, st, seen), 'invariant', 'no block is lost', assume=False)
def u_write(shape):
    def u(E):
        st, p, rope = start(E, shape); v, n, _ = buf(E, st)
        def h(E2, s2, a, f, inst):
            if s2.g.get('depth', 0) == 0: s2.g['depth'] = 1; return E.exec_fn(s2, f['name'], a)
            E.oblige(s2, And_(I_(E.u(s2, a[2])) < n, True), 'termination', 'the recursive call has fewer bytes left')
            return write_handler(E, s2, a, f, inst)
        E.on_first(re.escape(WRITE), h)
        sp = WriteLoop(p, rope, v, n)
        E.loopspecs.append((re.compile(re.escape(LBL) + '.*'), lambda E, f, idx, bid, blocks, env, st: sp))
        def post(s2, r):
            oblige_cord(E, s2, p, rope + [Sl(('buf', 'v'), 0, n)], 'after write')
            ob(E, s2, 'write returns the cord itself', isinstance(r, Ptr) and r.obj == p.obj and r.off == 0)
        run(E, st, 'vc_cord_write', [p, v, IV(64, n, 0, 1 << 60)], WRITE, post)
    return u
# ---- typed appends
def typed(root, w, sgn, kind, shape):
    def u(E):
        st, p, rope = start(E, shape); install_write(E)
        if kind == 'fp':
            v = FPV(z3.FP('v', E.FS['float' if w == 32 else 'double'])); want = E.val_rope(st, v, w // 8); a = v
        elif kind == 'bool':
            a = z3.Bool('v'); want = E.val_rope(st, E.iv(a, 8), 1)
        else:
            a = E.sym(st, w, 'v', sgn); want = E.val_rope(st, a, w // 8)
        run(E, st, root, [p, a], LBL + 'operator<<(' + root[8:] + ')', lambda s2, r: (oblige_cord(E, s2, p, rope + want, 'after <<'), ob(E, s2, '<< returns the cord itself', isinstance(r, Ptr) and r.obj == p.obj)))
    return u
def u_string(shape):
    def u(E):
        st, p, rope = start(E, shape); install_write(E)
        so = E.new_obj(st, 's', 32, 'stack'); n = stdlib.str_len_sym(st, 's'); sr = [Sl(('str', 's'), 0, n)]; stdlib.str_set(E, st, Ptr(so.id, 0), sr)
        run(E, st, 'vc_cord_string', [p, Ptr(so.id, 0)], LBL + 'operator<<(std::string const&)', lambda s2, r: oblige_cord(E, s2, p, rope + sr, 'after << string', keep=[o.id for o in s2.mem.values() if 'strbufof' in o.g]))
    return u
def u_cstr(shape):
    def u(E):
        st, p, rope = start(E, shape); install_write(E)
        n = z3.Int('z.len'); st.pc.append(z3.And(n >= 0, n < (1 << 60))); r = [Sl(('cstr', 'z'), 0, n)]
        v, _, _ = buf(E, st, 'z', r + [Sl(('lit', b'\0'), 0, 1)], n + 1); st.rw(v.obj).g['cstr'] = r
        run(E, st, 'vc_cord_cstr', [p, v], LBL + 'operator<<(char const*)', lambda s2, rr: oblige_cord(E, s2, p, rope + r, 'after << C string'))
    return u
# ---- traversals
class AccString:
    def __init__(self, find, base, rope): self.find, self.base, self.rope = find, base, rope
    def cut(self, E, st, pos): return [Sl(a.atom, a.lo, a.hi) for a in self.base] + ([Sl(('full', 'c'), 0, pos)])
    def check(self, E, st, pos, what):
        E.oblige(st, same(E, st, stdlib.str_get(E, st, self.find(st)), self.cut(E, st, pos)), 'invariant', 'string = old string + content before the block ' + what, assume=False)
    def set(self, E, st, pos, cur, tail): stdlib.str_set(E, st, self.find(st), self.cut(E, st, pos))
    def may_write(self): return {self.obj} if hasattr(self, 'obj') else set()
def loop_all(E, spec): E.loopspecs.append((re.compile(re.escape(LBL) + '.*'), lambda E, f, idx, bid, blocks, env, st: spec))
def u_appendTo(shape):
    def u(E):
        st, p, rope = start(E, shape)
        so = E.new_obj(st, 's', 32, 'stack'); sp = Ptr(so.id, 0); n = stdlib.str_len_sym(st, 's'); sr = [Sl(('str', 's'), 0, n)]; stdlib.str_set(E, st, sp, sr)
        a = AccString(lambda st: sp, sr, rope); a.obj = so.id; loop_all(E, Positions(p, a))
        st.rw(p.obj).ro = True
        def post(s2, r):
            ob(E, s2, 'the string is the old string followed by the content', same(E, s2, stdlib.str_get(E, s2, sp), sr + rope))
            ob(E, s2, 'the number of bytes appended is returned', I_(E.u(s2, r)) == E.rope_len(rope))
            frame(E, s2, p, st, shape)
        run(E, st, 'vc_cord_appendTo', [p, sp], LBL + 'appendTo', post)
    return u
def frame(E, s2, p, st, shape):
    # const members do not free blocks (writes to the cord object are excluded by marking it read-only)
    ob(E, s2, 'no block was freed or changed', all(s2.mem[x].alive and s2.mem[x].rope is not None and E.rope_eq_cond(s2, s2.mem[x].rope, o.rope) if o.rope is None or not any(q.atom == ('undef',) for q in o.rope) else s2.mem[x].alive for x, o in st.mem.items() if o.g.get('blk') and 'seg' not in o.g))
def u_str(shape):
    def u(E):
        st, p, rope = start(E, shape); st.rw(p.obj).ro = True
        so = E.new_obj(st, 's', 32, 'stack'); sp = Ptr(so.id, 0); stdlib.str_set(E, st, sp, [])
        # the accumulating string is whichever string the code appends to: the only empty one constructed inside
        def find(s):
            c = [Ptr(o.id, k[1]) for o in s.mem.values() for k, r in o.g.items() if isinstance(k, tuple) and k[0] == 'str' and o.id != so.id and r is not None]
            if len(c) != 1: raise Unsupported('cannot identify the accumulating string')
            a.obj = c[0].obj; return c[0]
        a = AccString(find, [], rope); loop_all(E, Positions(p, a))
        def post(s2, r): ob(E, s2, 'the result is the content', same(E, s2, stdlib.str_get(E, s2, sp), rope))
        run(E, st, 'vc_cord_str', [p, sp], LBL + 'str', post)
    return u
class AccTrace:
    def check(self, E, st, pos, what):
        E.oblige(st, same(E, st, st.g['trace'], [Sl(('full', 'c'), 0, pos)]) and st.g['go'] is True, 'invariant', 'the visitor has seen exactly the content before the block, and said yes ' + what, assume=False)
    def set(self, E, st, pos, cur, tail): st.g['trace'] = norm(E, st, [Sl(('full', 'c'), 0, pos)]); st.g['go'] = True
    def may_write(self): return set()
def u_applyTo(shape):
    def u(E):
        st, p, rope = start(E, shape); st.rw(p.obj).ro = True
        st.g['trace'] = []; st.g['go'] = True; st.g['calls'] = 0
        fo = E.new_obj(st, 'visitor', 32, 'stack')
        FN = r'std::function<bool \(char const\*, int\)>::'
        E.on_first(FN + r'function\(std::function<bool \(char const\*, int\)> const&\)', ret_undef)
        E.on_first(FN + r'(~function)\(\)', ret_undef)
        def callv(E, s2, a, f, inst):
            E.oblige(s2, s2.g['go'] is True, 'postcondition', 'nothing is visited after the visitor said stop')
            n = E.s(s2, a[2]); E.oblige(s2, I_(n) > 0, 'postcondition', 'the visitor gets a nonempty piece')
            r = E.read_bytes(s2, a[1], n)
            s2.g['trace'] = norm(E, s2, s2.g['trace'] + r)
            b = z3.Bool(fresh_name('visit'))
            sf = s2.fork(); sf.pc.append(z3.Not(b)); sf.g['go'] = False
            s2.pc.append(b)
            return [(s2, True), (sf, False)]
        E.on_first(FN + r'operator\(\)\(char const\*, int\) const', callv)
        loop_all(E, Positions(p, AccTrace()))
        def post(s2, r):
            rv = E.boolv(r); go = s2.g['go']
            ob(E, s2, 'the result is true exactly when the visitor never said stop', rv == go if isinstance(rv, bool) else rv == z3.BoolVal(go))
            if go: ob(E, s2, 'the pieces visited are exactly the content in order', same(E, s2, s2.g['trace'], rope))
            else: ob(E, s2, 'the pieces visited are a prefix of the content', prefix(E, s2, s2.g['trace'], rope))
        run(E, st, 'vc_cord_applyTo', [p, Ptr(fo.id, 0)], LBL + 'applyTo', post)
    return u
def prefix(E, st, a, b):
    n = E.rope_len(a)
    try: return same(E, st, a, E.rope_split(st, norm(E, st, b), n)[0])
    except Unsupported: return False
class AccFree:
    """blocks before the current one are freed, the current one and the rest are alive"""
    def __init__(self, p): self.p = p
    def check(self, E, st, pos, what):
        al = [o for o in st.mem.values() if o.g.get('blk') and o.alive]
        ok = {o.id for o in al}
        good = []
        T = st.g[('T', 'c')]; F = st.g[('F', 'c')]
        rest = [o for o in al if o.id != T]
        if E.eqt(st, pos, F): cond = not rest and T in ok
        else:
            # exactly one chain start at pos is alive: a segment or block beginning there (and what it links to)
            starts = [o for o in rest if ('seg' in o.g and E.eqt(st, o.g['seg'][1], pos)) or (o.rope is not None and o.rope and o.rope[0].atom == ('full', 'c') and E.eqt(st, o.rope[0].lo, pos))]
            cond = len(starts) == 1 and T in ok
            if cond:
                reach = {starts[0].id, T}
                if 'seg' not in starts[0].g:
                    nx = Engine.valtab.get(starts[0].rope[-1].atom[1]) if starts[0].rope[-1].atom[0] == 'val' else None
                    if isinstance(nx, Ptr): reach.add(nx.obj)
                cond = ok <= reach
        E.oblige(st, cond, 'invariant', 'exactly the blocks before the current one have been freed ' + what, assume=False)
    def set(self, E, st, pos, cur, tail):
        keep = {tail}
        if cur is not None:
            keep.add(cur); nx = Engine.valtab.get(st.mem[cur].rope[-1].atom[1]); keep.add(nx.obj)
        for o in list(st.mem.values()):
            if o.g.get('blk') and o.alive and o.id not in keep: st.rw(o.id).alive = False
    def may_write(self): return {self.p.obj}
def u_clear(root, lab, shape):
    def u(E):
        st, p, rope = start(E, shape)
        loop_all(E, Positions(p, AccFree(p)))
        def post(s2, r):
            if root == 'vc_cord_clear': oblige_cord(E, s2, p, [], 'after clear')
            else: ob(E, s2, 'every block is freed', not leak(E, s2, set()))
        run(E, st, root, [p], LBL + lab, post)
    return u
def u_size(shape):
    def u(E):
        st, p, rope = start(E, shape); st.rw(p.obj).ro = True
        run(E, st.fork(), 'vc_cord_size', [p], LBL + 'size', lambda s2, r: ob(E, s2, 'size is the number of bytes', I_(E.u(s2, r)) == E.rope_len(rope)))
        run(E, st.fork(), 'vc_cord_empty', [p], LBL + 'empty', lambda s2, r: ob(E, s2, 'empty exactly when there is no byte', (lambda rv: rv == (shape == 'empty') if isinstance(rv, bool) else rv == z3.BoolVal(shape == 'empty'))(E.boolv(r))))
    return u
def u_ctor(E):
    st = State(); p = new_cord(E, st, 'c')
    run(E, st.fork(), 'vc_cord_ctor0', [p], LBL + 'Cord()', lambda s2, r: oblige_cord(E, s2, p, [], 'a new cord'))
    B, _ = sizes(E, st, 'c')
    def post(s2, r):
        oblige_cord(E, s2, p, [], 'a new cord')
    run(E, st.fork(), 'vc_cord_ctor1', [p, B], LBL + 'Cord(int)', post)
# ---- cord << cord
class AccCord:
    def __init__(self, dst, base): self.dst, self.base = dst, base
    def check(self, E, st, pos, what):
        rope, bad, _ = walk(E, st, self.dst)
        for n, c in bad: E.oblige(st, c, 'invariant', f'the target is well-formed {what}: {n}', assume=False)
        E.oblige(st, same(E, st, rope, self.base + [Sl(('full', 'r'), 0, pos)]), 'invariant', 'target = old content + content of the source before the block ' + what, assume=False)
    def set(self, E, st, pos, cur, tail): set_abstract(E, st, self.dst, norm(E, st, self.base + [Sl(('full', 'r'), 0, pos)]))
    def may_write(self): return {self.dst.obj}
def u_cord(shape, rshape):
    def u(E):
        st, p, rope = start(E, shape); q = new_cord(E, st, 'r'); rr = fill(E, st, q, 'r', rshape, *sizes(E, st, 'r')); st.rw(q.obj).ro = True
        install_write(E); loop_all(E, Positions(q, AccCord(p, rope)))
        keep = [o.id for o in st.mem.values() if o.name.startswith('r.')]
        def post(s2, r):
            oblige_cord(E, s2, p, rope + rr, 'after << cord', noleak=False)
            rope2, bad, _ = walk(E, s2, q)
            ob(E, s2, 'the source keeps its content', same(E, s2, rope2, rr))
        run(E, st, 'vc_cord_cord', [p, q], LBL + 'operator<<(Cord const&)', post)
    return u
def u_self(shape):
    def u(E):
        st, p, rope = start(E, shape); install_write(E)
        so = {}
        def find(s):
            c = [Ptr(o.id, k[1]) for o in s.mem.values() for k, r in o.g.items() if isinstance(k, tuple) and k[0] == 'str' and r is not None]
            if len(c) != 1: raise Unsupported('cannot identify the accumulating string')
            a.obj = c[0].obj; return c[0]
        a = AccString(find, [], rope); loop_all(E, Positions(p, a))
        run(E, st, 'vc_cord_cord', [p, p], LBL + 'operator<<(Cord const&) with itself', lambda s2, r: oblige_cord(E, s2, p, rope + rope, 'after << itself', noleak=False))
    return u
class PROP(Property):
    id = 'C06'
    budget = 400
    assumptions = ['block size larger than a pointer', 'contents shorter than 2^60 bytes', 'the bytes passed to write do not lie inside the cord (other than through cord << cord)']
    def units(self):
        mk = engine(); U = [('constructors', mk, u_ctor)]
        for s in SHAPES:
            U += [(f'write[{s}]', mk, u_write(s)), (f'appendTo[{s}]', mk, u_appendTo(s)), (f'str[{s}]', mk, u_str(s)), (f'applyTo[{s}]', mk, u_applyTo(s)), (f'clear[{s}]', mk, u_clear('vc_cord_clear', 'clear', s)),
                  (f'destructor[{s}]', mk, u_clear('vc_cord_dtor', '~Cord', s)), (f'size[{s}]', mk, u_size(s)), (f'string[{s}]', mk, u_string(s)), (f'cstr[{s}]', mk, u_cstr(s)), (f'self[{s}]', mk, u_self(s))]
            for r in SHAPES: U.append((f'cord[{s},{r}]', mk, u_cord(s, r)))
        for root, w, sg, k in (('i8', 8, 1, ''), ('u8', 8, 0, ''), ('i16', 16, 1, ''), ('u16', 16, 0, ''), ('i32', 32, 1, ''), ('u32', 32, 0, ''), ('i64', 64, 1, ''), ('u64', 64, 0, ''), ('char', 8, 1, ''), ('bool', 8, 0, 'bool'), ('float', 32, 1, 'fp'), ('double', 64, 1, 'fp')):
            U.append((f'<< {root}', mk, typed('vc_cord_' + root, w, bool(sg), k, 'many')))
        return U
    search = search_prog(['base/Cord.cpp'], 'cord_search', lambda tier: [3000 if tier == 'quick' else 30000])
