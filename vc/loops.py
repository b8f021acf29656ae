"""Loop contracts. An invariant is a conjunction of candidate facts over the loop's own header variables (so it does not
depend on how the variables are called or ordered); the candidates that are not inductive are discarded first (Houdini),
the survivors are then established on entry, assumed for an arbitrary iteration and re-proved at every back edge."""
import z3
from engine import *

class Probe:
    def __init__(self, bid, blocks): self.bid = bid; self.blocks = blocks; self.ends = []

class Houdini:
    """cands(E, env, st, phis, entry_phis) -> [(name, cond)]     phis: [(ssa id, value)]
       measures(E, st, phis) -> [(name, term)]; one of them has to decrease and stay >= 0
       defs(E, phis) -> alternatives [(p, q, value of p from q and the initial values, name, condition)]: an invariant that
                        determines variable p, used as a substitution
       havoc(E, st, env, phi id, old value, ty) -> fresh value or None (default: integers)"""
    def __init__(self, cands, measures=None, havoc=None, minimum=(), memhavoc=None, defs=None):
        self.decomp = False       # name 64-bit variables by their unique decomposition 400q + 100c + 4b + a
        self.cands = cands; self.measures = measures; self.havocv = havoc; self.defs = defs; self.memhavoc = memhavoc
    def phis(self, b, env): return [(i['id'], env[i['id']], i['ty']) for i in b['insts'] if i['op'] == 'phi']
    def scalars(self, st, writes):
        """memory cells holding integers that the loop overwrites: loop variables too"""
        out = []
        for x in sorted(writes, key=str):
            o = st.mem.get(x[0])
            if o is None or not o.alive or o.rope is not None or x[1] == 'sym' or x[1] not in o.cells: continue
            sz, v = o.cells[x[1]]
            if sz == x[2] and isinstance(v, (IV, Bits)): out.append((x[:2], v))
        return out
    def vars(self, E, st, b, env, writes): return [(p, v) for p, v, _ in self.phis(b, env)] + self.scalars(st, writes)
    def view(self, E, st, b, env, writes):
        e = dict(env); e.update(self.scalars(st, writes)); return e
    def fresh(self, E, st, ty, old):
        w = tw(ty)
        if w == 1: return z3.Bool(fresh_name('lb'))
        if w:
            if E.bv: return z3.BitVec(fresh_name('lv'), w)
            if self.decomp and w >= 16:
                nm = fresh_name('lv'); q, c, b, a = (z3.Int(f'{nm}.{x}') for x in ('q400', 'c100', 'b4', 'a1'))
                for v, lo, hi in ((c, 0, 3), (b, 0, 24), (a, 0, 3)): st.pc.append(z3.And(v >= lo, v <= hi)); E.set_rg(st, v, lo, hi)
                t = 400 * q + 100 * c + 4 * b + a; H = 1 << (w - 1)
                st.pc.append(z3.And(t >= -H, t < H)); E.set_rg(st, q, -H // 400, H // 400)
                return IV(w, t, -H, H - 1)
            return E.rng(st, E.fresh_int(w, 'lv'))
        if ty in E.FS: return FPV(z3.FP(fresh_name('lf'), E.FS[ty]))
        raise Unsupported('loop variable of type %s needs a contract' % ty)
    def havoc_head(self, E, st, b, env, writes, opt=None):
        ph = self.phis(b, env)
        for pid, v, ty in ph:
            if opt and pid == opt[0]: continue
            nv = self.havocv(E, st, env, pid, v, ty) if self.havocv else None
            if nv is None:
                self.decomp = bool(opt) and pid == opt[1]
                nv = self.fresh(E, st, ty, v)
            env[pid] = nv
        for oid, off, size in sorted(writes, key=str):
            o = st.mem.get(oid)
            if o is None or not o.alive: continue
            if self.memhavoc and self.memhavoc(E, st, o, off): continue
            if off == 'sym' or o.rope is not None: raise Unsupported(f'loop writes {o.name} at a symbolic position; it needs a contract')
            if off not in o.cells or o.cells[off][0] != size:
                if o.lazy in ('input', 'global'): raise Unsupported(f'loop writes a part of {o.name} that was not read as a whole before')
                E.kill_cells(st, st.rw(oid), off, size)
                continue
            sz, v = o.cells[off]
            o = st.rw(oid)
            if opt and opt[0] == (oid, off): continue
            if isinstance(v, (IV, Bits)):
                self.decomp = bool(opt) and opt[1] == (oid, off)
                nv = self.fresh(E, st, 'i%d' % (sz * 8), v)
            elif isinstance(v, Undef): nv = v
            elif isinstance(v, FPV): nv = FPV(z3.FP(fresh_name('lf'), v.t.sort()))
            else: raise Unsupported(f'loop overwrites a pointer in {o.name}')
            o.cells[off] = (sz, nv)
        if opt:
            nv = opt[2](E, st, self.view(E, st, b, env, writes), self.init)
            if isinstance(opt[0], tuple): st.rw(opt[0][0]).cells[opt[0][1]] = (st.mem[opt[0][0]].cells[opt[0][1]][0], nv)
            else: env[opt[0]] = nv
    def take(self, E, st, CC, alive):
        for k in alive:
            E.assume(st, CC[k][1])
            if len(CC[k]) > 2:
                t, lo, hi = CC[k][2]
                c0, d = E.lin(t) if not isinstance(t, int) else (t, {})
                if len(d) == 1:
                    (q, l), = d.values()
                    if q == 1: E.set_rg(st, l, lo - c0, hi - c0)
                elif self.decomp:
                    for q, l in d.values():
                        if q == 400: E.set_rg(st, l, (lo - 399) // 400, hi // 400)
    def probe(self, E, f, b, env, st, lctx, blocks, depth):
        """run one iteration from the head without recording; -> [(env, st)] at back edges"""
        p = Probe(b['id'], blocks)
        l2 = dict(lctx); l2['probe'] = p
        n = len([i for i in b['insts'] if i['op'] == 'phi'])
        work = [('run', b['id'], n, env, st, l2)]; outs = []
        E.quiet += 1; save = (E.npaths,)
        try:
            while work:
                kind, bid, x, e, s, l = work.pop()
                try:
                    if kind == 'edge': E.enter(f, bid, x, e, s, l, work, depth)
                    else: E.run(f, bid, x, e, s, l, work, outs, depth)
                except DropPath: pass
        finally:
            E.quiet -= 1; E.npaths = save[0]
        return p.ends
    def C(self, E, st, b, env, writes): return self.cands(E, self.view(E, st, b, env, writes), st, self.vars(E, st, b, env, writes), self.init)
    def entry(self, E, f, b, env, st, blocks, depth, lctx):
        self.init = {pid: v for pid, v, _ in self.phis(b, env)}
        writes = self.write_set(E, f, b, env, st, blocks, depth, lctx)
        self.init = dict(self.vars(E, st, b, env, writes))
        C = self.C(E, st, b, env, writes)
        alive0 = [k for k, (n, c, *_) in enumerate(C) if c is True or (c is not False and E.valid(st, c))]
        opts = (self.defs(E, self.vars(E, st, b, env, writes)) if self.defs else []) + [None]
        for opt in opts:
            alive = self.houdini(E, f, b, env, st, blocks, depth, lctx, list(alive0), opt, writes)
            if alive is not None: break
        if opt: E.oblige(st, opt[4](E, st, self.init, self.init), 'invariant', f'loop invariant holds on entry: {opt[3]}')
        for k in alive: E.oblige(st, C[k][1], 'invariant', f'loop invariant holds on entry: {C[k][0]}')
        self.havoc_head(E, st, b, env, writes, opt)
        CC = self.C(E, st, b, env, writes)
        self.take(E, st, CC, alive)
        head = self.vars(E, st, b, env, writes)
        E.loopinv = getattr(E, 'loopinv', []) + [f"{f['dem'].split('(')[0]}: " + '; '.join(([opt[3]] if opt else []) + [CC[k][0] for k in alive])]
        return dict(opt=opt, alive=alive, head=head, init=self.init, lctx=dict(lctx), blocks=blocks, writes=writes)
    def write_set(self, E, f, b, env, st, blocks, depth, lctx):
        writes = set()
        for _ in range(6):
            s2 = st.fork(); e2 = dict(env)
            self.havoc_head(E, s2, b, e2, writes, None)
            s2.writes = set()
            known = set(s2.mem)
            w = set()
            for _, s3 in self.probe(E, f, b, e2, s2, lctx, blocks, depth): w |= {x for x in (s3.writes or ()) if x[0] in known}
            if w <= writes: return writes
            writes |= w
        raise Unsupported('write set of a loop does not settle')
    def houdini(self, E, f, b, env, st, blocks, depth, lctx, alive, opt, writes):
        for _ in range(30):
            s2 = st.fork(); e2 = dict(env)
            self.havoc_head(E, s2, b, e2, writes, opt)
            CC = self.C(E, s2, b, e2, writes)
            self.take(E, s2, CC, alive)
            ends = self.probe(E, f, b, e2, s2, lctx, blocks, depth)
            drop = set()
            for e3, s3 in ends:
                if opt and not E.valid(s3, E.eqnorm(opt[4](E, s3, self.view(E, s3, b, e3, writes), self.init)), 4000): return None
                C3 = self.C(E, s3, b, e3, writes)
                for k in alive:
                    if k not in drop and not (C3[k][1] is True or C3[k][1] is not False and E.valid(s3, C3[k][1], 4000)): drop.add(k)
            if not drop: break
            alive = [k for k in alive if k not in drop]
        return alive
    def back(self, E, f, b, env, st, data, depth):
        self.init = data['init']; writes = data['writes']
        C = self.C(E, st, b, env, writes)
        for k in data['alive']: E.oblige(st, C[k][1], 'invariant', f'loop invariant is preserved: {C[k][0]}', assume=False)
        if data['opt']: E.oblige(st, data['opt'][4](E, st, self.view(E, st, b, env, writes), data['init']), 'invariant', f"loop invariant is preserved: {data['opt'][3]}", assume=False)
        if self.measures:
            ends = self.probe(E, f, b, dict(env), st.fork(), data['lctx'], data['blocks'], depth)
            now = self.vars(E, st, b, env, writes)
            # another iteration starts: some measure must have gone down
            for e3, s3 in ends:
                m0 = self.measures(E, s3, data['head']); m1 = self.measures(E, s3, now)
                cs = [And_(b_ < a, a >= 0) for (n, a), (_, b_) in zip(m0, m1)]
                best = next((c for c in cs if E.valid(s3, c, 8000)), None)
                E.oblige(s3, best if best is not None else z3.Or(cs), 'termination', 'the loop measure decreases: ' + ', '.join(n for n, _ in m0), assume=False)
def And_(*a): return z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in a])
