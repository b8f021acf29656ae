"""Symbolic-execution verification-condition generator over LLVM IR (JSON from tools/irdump).

Machine integers are mathematical integers with exact wrap / no-overflow obligations, objects are
separate (object, offset) regions, calls to functions under contract use the contract, loops are
cut by invariants (loopspecs) or unrolled until the path condition itself proves they stop.
"""
import json, re, itertools, time, hashlib
import z3

z3.set_param('smt.random_seed', 1)

class Unsupported(Exception):
    pass

class DropPath(Exception):
    """the current path ends here (callee never returns, path condition contradictory, ...)"""

_cnt = itertools.count()
def fresh_name(p):
    return f"{p}!{next(_cnt)}"

# ------------------------------------------------------------------ values
def isconst(t):
    return isinstance(t, (int, bool))

class IV:
    """integer of width w; t is congruent to its value mod 2^w and lo<=t<=hi on this path"""
    __slots__ = ('w', 't', 'lo', 'hi', 'b', 'src')
    def __init__(self, w, t, lo=None, hi=None, b=None, src=None):
        self.w = w
        if isinstance(t, bool): t = int(t)
        if z3.is_int_value(t) if isinstance(t, z3.ExprRef) else False: t = t.as_long()
        self.t = t
        if isinstance(t, int): lo = hi = t
        self.lo = -(1 << (w - 1)) if lo is None else lo
        self.hi = (1 << w) - 1 if hi is None else hi
        self.b = b
        self.src = src
    def __repr__(self): return f"i{self.w}:{self.t}"

class Bits:
    """integer as LSB-first list of (width, term in [0,2^width))"""
    __slots__ = ('parts',)
    def __init__(self, parts):
        out = []
        q = list(parts)[::-1]
        while q:
            w, t = q.pop()
            if w == 0: continue
            if isinstance(t, IV):
                if isinstance(t.t, int): t = t.t % (1 << w)
                elif t.lo >= 0 and t.hi.bit_length() < w:
                    m = t.hi.bit_length(); q.append((w - m, 0)); w = m; t = IV(m, t.t, t.lo, t.hi)
            if out and isinstance(t, int) and isinstance(out[-1][1], int):
                pw, pt = out[-1]
                out[-1] = (pw + w, pt | (t << pw))
            else: out.append((w, t))
        self.parts = out
    @property
    def w(self): return sum(w for w, _ in self.parts)
    def __repr__(self): return f"bits{self.parts}"

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=0):
        self.obj = obj; self.off = off   # obj: object id (int) ; None = null
    def __repr__(self): return f"&{self.obj}+{self.off}"
NULL = Ptr(None, 0)

class OPtr:
    """opaque pointer: never dereferenced, compared through its integer identity (0 = null)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"optr({self.t})"

class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return f"fn:{self.name}"

class FPV:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t

class Agg:
    __slots__ = ('els',)
    def __init__(self, els): self.els = els

class Undef:
    __slots__ = ('ty',)
    def __init__(self, ty=None): self.ty = ty
    def __repr__(self): return 'undef'

class Exc:
    """a C++ exception leaving a call"""
    __slots__ = ('ty', 'ptr')
    def __init__(self, ty, ptr): self.ty = ty; self.ptr = ptr
    def __repr__(self): return f"exc({self.ty})"

EXC_SEL = 7
EXC_BASES = {'std::regex_error': ['std::runtime_error'], 'std::runtime_error': ['std::exception'], 'std::out_of_range': ['std::logic_error'], 'std::logic_error': ['std::exception'],
             'std::length_error': ['std::logic_error'], 'std::bad_alloc': ['std::exception']}
EXC_TI = {'_ZTISt9exception': 'std::exception', '_ZTINSt7__cxx1111regex_errorE': 'std::regex_error', '_ZTISt11regex_error': 'std::regex_error', '_ZTISt13runtime_error': 'std::runtime_error',
          '_ZTISt12out_of_range': 'std::out_of_range', '_ZTISt11logic_error': 'std::logic_error', '_ZTISt12length_error': 'std::length_error', '_ZTISt9bad_alloc': 'std::bad_alloc'}
def exc_is(ty, base): return ty == base or any(exc_is(b, base) for b in EXC_BASES.get(ty, []))
def typeid_for(E, st, a, f, i):
    n = st.mem[a[0].obj].name if isinstance(a[0], Ptr) and a[0].obj in st.mem else None; x = st.g.get('exc')
    if n not in EXC_TI or (x not in EXC_BASES and x not in EXC_TI.values()): raise Unsupported(f'catch of {n} ({x})')
    k = EXC_SEL if exc_is(x, EXC_TI[n]) else EXC_SEL + 1; return IV(32, z3.IntVal(k), k, k)
def ti(t):
    """python int / z3 -> z3 or int (bool->int)"""
    return t

# ---- byte ropes: contents of raw buffers and strings ---------------------------------------
class Sl:
    """slice [lo,hi) of an atom. atom: hashable description; ('undef',) = indeterminate"""
    __slots__ = ('atom', 'lo', 'hi')
    def __init__(self, atom, lo, hi): self.atom = atom; self.lo = lo; self.hi = hi
    def __repr__(self): return f"{self.atom}[{self.lo}:{self.hi}]"

# ------------------------------------------------------------------ state
class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'rope', 'alive', 'kind', 'ro', 'g', 'lazy', 'tok', 'init0')
    def __init__(self, id, name, size, kind):
        self.id = id; self.name = name; self.size = size; self.kind = kind
        self.cells = {}; self.rope = None; self.alive = True; self.ro = False; self.g = {}; self.lazy = None; self.tok = None
        self.init0 = False
    def clone(self, tok):
        o = Obj.__new__(Obj)
        o.id = self.id; o.name = self.name; o.size = self.size; o.kind = self.kind
        o.cells = dict(self.cells); o.rope = list(self.rope) if self.rope is not None else None
        o.alive = self.alive; o.ro = self.ro; o.g = dict(self.g); o.lazy = self.lazy; o.tok = tok; o.init0 = self.init0
        return o

class State:
    def __init__(self):
        self.pc = []; self.mem = {}; self.g = {}; self.events = []; self.tok = object(); self.writes = None; self.trace = []
    def fork(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.mem = dict(self.mem); s.g = dict(self.g); s.events = list(self.events)
        s.tok = object(); self.tok = object()
        s.writes = None if self.writes is None else set(self.writes); s.trace = list(self.trace)
        return s
    def ro(self, oid): return self.mem[oid]
    def rw(self, oid):
        o = self.mem[oid]
        if o.tok is not self.tok:
            o = o.clone(self.tok); self.mem[oid] = o
        return o

class Oblig:
    __slots__ = ('kind', 'desc', 'fn', 'loc', 'status', 'model', 'ms', 'backend', 'smt')
    def __init__(self, **k):
        self.model = None; self.smt = None
        for a, b in k.items(): setattr(self, a, b)

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d['functions']; self.globals = d['globals']
        self.bydem = {}
        for n, f in self.funcs.items():
            f['name'] = n
            self.bydem.setdefault(f['dem'], []).append(n)
            if not f['decl']:
                f['bmap'] = {b['id']: b for b in f['blocks']}
                f['lheads'] = {}
                for i, l in enumerate(f['loops']):
                    f['lheads'][l['header']] = (i, set(l['blocks']))
    def find(self, dem, must=True):
        if dem in self.funcs: return dem
        r = self.bydem.get(dem)
        if not r:
            rx = re.compile(dem)
            r = [n for k, v in self.bydem.items() if rx.fullmatch(k) for n in v]
        if not r and must: raise Unsupported(f"no function {dem!r} in the module")
        return r[0] if r else None

def tw(ty):
    if isinstance(ty, str) and ty.startswith('i'): return int(ty[1:])
    return None

class Engine:
    def __init__(self, mod, timeout_ms=20000, unroll=40, bvmode=False):
        self.mod = mod
        self.obligs = []
        self.timeout = timeout_ms
        self.unroll = unroll
        self.bv = bvmode
        self.handlers = []        # (compiled regex on demangled name, fn)
        self.hcache = {}
        self.oload = None         # (st, opaque pointer, type, size): read of memory known only abstractly
        self.loopspecs = []; self.cutpoints = {}       # (regex, fn(engine, frame, info) -> spec)
        self.gobj = {}            # global name -> obj id
        self.oid = itertools.count(1)
        self.curfn = '?'; self.curloc = '?'
        self.qn = 0; self.qms = 0.0
        self.quiet = 0            # >0: obligations not recorded (loop frame inference)
        self.inlined = set(); self.contracted = set(); self.execd = set()
        self.maxpaths = 20000; self.npaths = 0
        self.axioms = []
        self.deadline = None
        self.prefix = ''
        self.pcache = {}
        self.keep_smt = False
        self.fail_fast = 60
        self.root_globals = {}
        self.wrap_ok = False      # treat signed overflow as wrapping (never by default)
        self.feas_timeout = 1500; self.vcache = {}
        self.lcache = {}; self.tables = {}
        self.globals_init = {}    # dem/name -> callable(engine, st, obj)

    # -------------------------------------------------------------- solver
    def solver(self, pc, timeout=None):
        s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for a in self.axioms: s.add(a)
        for p in pc: s.add(p)
        return s
    def feasible(self, st, cond=None):
        if cond is True or cond is None and False: return True
        if cond is False: return False
        key = None
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the proof unit exhausted')
        t0 = time.time()
        s = self.solver(st.pc, self.feas_timeout)
        if cond is not None: s.add(cond)
        r = s.check()
        self.qn += 1; self.qms += (time.time() - t0) * 1000
        return r != z3.unsat
    def valid(self, st, cond, timeout=3000):
        """quick internal query: is cond implied by the path condition"""
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return not self.feasible(st)
        key = (c.get_id(), tuple(p.get_id() for p in st.pc))
        if key in self.pcache: return self.pcache[key][0]
        t0 = time.time()
        s = self.solver(st.pc, timeout); s.add(z3.Not(c))
        r = s.check() == z3.unsat
        self.qn += 1; self.qms += (time.time() - t0) * 1000
        self.pcache[key] = (r, c, list(st.pc))
        return r
    def assume(self, st, c):
        if c is True: return
        if c is False: raise DropPath()
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise DropPath()
        st.pc.append(c)
    def oblige(self, st, cond, kind, desc, assume=True):
        """record + discharge an obligation, then assume it"""
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the proof unit exhausted')
        if self.quiet:
            if assume and not isinstance(cond, bool): st.pc.append(cond)
            if cond is False: raise DropPath()
            return True
        t0 = time.time(); model = None; smt = None
        if isinstance(cond, bool):
            if cond: status = 'discharged'; be = 'trivial'
            else:
                s = self.solver(st.pc); r = s.check(); self.qn += 1
                status = 'discharged' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
                if r == z3.sat: model = s.model()
                be = 'z3'
        else:
            cond = self.eqnorm(cond)
            c = z3.simplify(cond)
            if z3.is_true(c): status = 'discharged'; be = 'simplifier'
            else:
                r = self.rel_check(st, c); be = 'z3'
                if r != z3.unsat: r = self.abst_check(st, cond)
                else: self.abst_solver = self.rel_solver
                if r != z3.unsat:
                    s = self.solver(st.pc); s.add(z3.Not(c))
                    r = s.check(); self.qn += 1
                else: s = self.abst_solver
                if r == z3.unknown:
                    s2 = z3.SolverFor('QF_LIA') if False else z3.Then('simplify', 'solve-eqs', 'smt').solver()
                    s2.set('timeout', self.timeout)
                    for a in self.axioms: s2.add(a)
                    for p in st.pc: s2.add(p)
                    s2.add(z3.Not(c)); r = s2.check()
                    if r == z3.sat: s = s2
                if r == z3.unknown: r, be = self.escalate(st, c)
                status = 'discharged' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
                if r == z3.sat: model = s.model()
                if self.keep_smt: smt = s.to_smt2()
        ms = (time.time() - t0) * 1000; self.qms += ms
        o = Oblig(kind=kind, desc=desc, fn=self.prefix + self.curfn, loc=self.curloc, status=status, ms=ms, backend=be)
        o.model = model; o.smt = smt
        self.obligs.append(o)
        if status != 'discharged':
            o.smt = None
            if model is not None: self.on_fail(o, st)
            if sum(1 for x in self.obligs if x.status != 'discharged') > self.fail_fast:
                raise Unsupported('too many failed obligations; stopping this unit')
        if assume:
            if cond is False: raise DropPath()
            # a discharged obligation follows from the path condition already: nothing to add
            if not isinstance(cond, bool) and status != 'discharged': st.pc.append(cond)
            if status != 'discharged' and not self.feasible(st): raise DropPath()
        return status == 'discharged'
    def escalate(self, st, c):
        """an undecided obligation: the external solvers get a minute, side by side"""
        self.escalated = getattr(self, 'escalated', 0) + 1
        if self.escalated > 3: return z3.unknown, 'z3'
        import subprocess, tempfile, os
        s = self.solver(st.pc); s.add(z3.Not(c)); fd, path = tempfile.mkstemp('.smt2')
        with os.fdopen(fd, 'w') as fh: fh.write('(set-logic ALL)\n' + s.to_smt2())
        ps = []
        try:
            for cmd in (['cvc5', '--tlimit=60000', path], ['z3-new', '-T:60', path], ['z3', '-T:60', 'smt.random_seed=7', 'smt.arith.solver=2', path]):
                try: ps.append((cmd[0], subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError: pass
            end = time.time() + 65; left = list(ps)
            while left and time.time() < end:
                for x in list(left):
                    if x[1].poll() is None: continue
                    left.remove(x)
                    if x[1].stdout.read().split()[:1] == ['unsat']: return z3.unsat, x[0]
                time.sleep(0.05)
            return z3.unknown, 'z3'
        finally:
            for _, p in ps:
                if p.poll() is None: p.kill()
                p.wait()
            os.unlink(path)
    def eqnorm(self, c):
        """equalities between linear terms: everything on one side, divided by the common factor"""
        if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
            import math
            c0, d = self.lin(c.arg(0) - c.arg(1))
            g = 0
            for q, _ in d.values(): g = math.gcd(g, q)
            if g == 0: return z3.BoolVal(c0 == 0)
            if c0 % g: return z3.BoolVal(False)
            return self.unlin(c0 // g, {i: (q // g, l) for i, (q, l) in d.items()}) == 0
        return c
    def vars_of(self, t):
        k = t.get_id(); r = self.vcache.get(k)
        if r is None:
            seen = set(); out = set(); stack = [t]
            while stack:
                x = stack.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.get_id())
                stack += x.children()
            r = self.vcache[k] = (frozenset(out), t)
        return r[0]
    def rel_check(self, st, c):
        """the implication from the part of the path condition that speaks about the goal's own variables (a subset: sound)"""
        if self.bv: return z3.unknown
        vs = set(self.vars_of(c))
        prev = None
        for depth in (0, 1, 2):
            if depth == 0: sub = [p for p in st.pc if self.vars_of(p) <= vs]
            else:
                sub = [p for p in st.pc if self.vars_of(p) & vs]
                for p in sub: vs |= self.vars_of(p)
                sub = [p for p in st.pc if self.vars_of(p) <= vs]
            if len(sub) == prev: continue
            if len(sub) == len(st.pc): break
            prev = len(sub)
            s = self.solver(sub, 1000); s.add(z3.Not(c)); self.qn += 1; self.rel_solver = s
            if s.check() == z3.unsat: return z3.unsat
        return z3.unknown
    def abst_check(self, st, cond):
        """the same implication with table look-ups replaced by arbitrary values of their range (stronger, often much easier)"""
        if not self.tables: return z3.unknown
        sub = []
        for k, (t, lo, hi) in enumerate(self.tables.values()):
            sub.append((t, z3.Int(f'tab!{k}')))
        goal = z3.substitute(cond, *sub)
        if goal.eq(cond): return z3.unknown
        s = self.solver([z3.substitute(p, *sub) for p in st.pc], 4000)
        for (_, v), (t, lo, hi) in zip(sub, self.tables.values()): s.add(v >= lo, v <= hi)
        s.add(z3.Not(goal)); self.qn += 1
        self.abst_solver = s
        return s.check()
    def table(self, t, lo, hi):
        self.tables[t.get_id()] = (t, lo, hi); return t
    def on_fail(self, o, st):
        try:
            d = {}
            for v in o.model.decls():
                if v.arity() == 0: d[v.name()] = str(o.model[v])
            o.model = {k: v for k, v in d.items() if '!k' not in k}
        except Exception: o.model = {}

    # -------------------------------------------------------------- int helpers
    def iv(self, v, w=None):
        if isinstance(v, IV): return v
        if isinstance(v, Bits):
            t = 0; sh = 0
            hi = 0
            if len(v.parts) == 1 and isinstance(v.parts[0][1], IV): return v.parts[0][1]
            for pw, pt in v.parts:
                if isinstance(pt, IV): pt = self.upart(pt)
                t = t + (pt * (1 << sh) if not (isinstance(pt, int) and pt == 0) else 0); sh += pw
            return IV(v.w, t, 0, (1 << v.w) - 1)
        if isinstance(v, bool): return IV(w or 1, int(v))
        if z3.is_bool(v) if isinstance(v, z3.ExprRef) else False:
            return IV(w or 1, z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1, b=v)
        if isinstance(v, Undef):
            return self.fresh_int(w or tw(v.ty) or 64, 'undef')
        if isinstance(v, Ptr):
            if v.obj is None: return IV(64, 0)
            b = z3.Int(f'addr_{v.obj}')
            return IV(64, b + v.off, 0, (1 << 64) - 1, src=('ptr', v))
        if isinstance(v, OPtr): return IV(64, v.t, 0, (1 << 64) - 1, src=('ptr', v))
        if isinstance(v, FPV):
            return IV(v.t.sort().ebits() + v.t.sort().sbits(), z3.BV2Int(z3.fpToIEEEBV(v.t)), 0, (1 << 64) - 1, src=('fp', v))
        raise Unsupported(f'int expected, got {type(v).__name__} {v}')
    def upart(self, v):
        """unsigned view of an IV without a path condition"""
        w = v.w; M = 1 << w
        if isinstance(v.t, int): return v.t % M
        if v.lo >= 0 and v.hi < M: return v.t
        if v.lo >= -M and v.hi < M: return z3.If(v.t < 0, v.t + M, v.t)
        return v.t % M
    # -------------------------------------------------------------- linear terms, division
    def lin(self, t):
        """t = const + sum coef*leaf -> (const, {id: (coef, leaf)})"""
        if isinstance(t, int): return t, {}
        k = t.get_id(); c = self.lcache.get(k)
        if c is not None: return c[0], c[1]
        d = {}; c0 = 0
        kind = t.decl().kind()
        def addto(x, m):
            nonlocal c0
            c, e = self.lin(x)
            c0 += m * c
            for i, (q, l) in e.items():
                q2 = d.get(i, (0, l))[0] + m * q
                if q2: d[i] = (q2, l)
                else: d.pop(i, None)
        if z3.is_int_value(t): c0 = t.as_long()
        elif kind == z3.Z3_OP_ADD:
            for x in t.children(): addto(x, 1)
        elif kind == z3.Z3_OP_SUB:
            ch = t.children(); addto(ch[0], 1)
            for x in ch[1:]: addto(x, -1)
        elif kind == z3.Z3_OP_UMINUS: addto(t.arg(0), -1)
        elif kind == z3.Z3_OP_MUL:
            ch = t.children(); m = 1; rest = []
            for x in ch:
                cx, ex = self.lin(x)
                if not ex: m *= cx
                else: rest.append(x)
            if not rest: c0 = m
            elif len(rest) == 1: addto(rest[0], m)
            else: d[k] = (1, t)
        else: d[k] = (1, t)
        self.lcache[k] = (c0, d, t)
        return c0, d
    def unlin(self, c0, d):
        r = None
        for i in sorted(d):
            q, l = d[i]
            x = l if q == 1 else q * l
            r = x if r is None else r + x
        if r is None: return c0
        return r + c0 if c0 else r
    def rg_leaf(self, st, t):
        r = st.g.get(('rg', t.get_id()))
        if r is not None: return r[0], r[1]
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = self.rg_term(st, t.arg(1)), self.rg_term(st, t.arg(2))
            f = lambda op, x, y: None if x is None or y is None else op(x, y)
            return f(min, a[0], b[0]), f(max, a[1], b[1])
        if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)): return 0, t.arg(1).as_long() - 1
        return None, None
    def rg_term(self, st, t):
        c, d = self.lin(t)
        return self.rg_lin(st, c, d)
    def rg_lin(self, st, c, d):
        lo = hi = c
        for q, l in d.values():
            a, b = self.rg_leaf(st, l)
            if q < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + q * a
            hi = None if hi is None or b is None else hi + q * b
        return lo, hi
    def set_rg(self, st, t, lo, hi):
        k = ('rg', t.get_id()); o = st.g.get(k)
        if o: lo = max(lo, o[0]) if lo is not None and o[0] is not None else (lo if o[0] is None else o[0]); hi = min(hi, o[1]) if hi is not None and o[1] is not None else (hi if o[1] is None else o[1])
        st.g[k] = (lo, hi, t)
    def fdiv(self, st, t, k):
        """floor(t / k), k a positive constant: exact, by splitting multiples of k and naming the rest"""
        if isinstance(t, int): return t // k
        c, d = self.lin(t)
        Q = {}; R = {}; q0 = 0; r0 = c
        for i, (q, l) in d.items():
            a, b = divmod(q, k)
            if 2 * b > k: a, b = a + 1, b - k
            if a: Q[i] = (a, l)
            if b: R[i] = (b, l)
        lo, hi = self.rg_lin(st, r0, R)
        if not (lo is not None and hi is not None and lo // k == hi // k):
            # move whole multiples of the constant out
            q0, r0 = divmod(r0, k)
            lo, hi = self.rg_lin(st, r0, R)
        if lo is not None and hi is not None and lo // k == hi // k: q0 += lo // k; v = None
        else:
            key = ('fd', k, r0, tuple(sorted((i, q) for i, (q, _) in R.items())))
            m = st.g.get(key)
            if m is None:
                v = z3.Int(fresh_name('fd')); rt = self.unlin(r0, R)
                st.pc.append(z3.And(k * v <= rt, rt <= k * v + (k - 1)))
                self.set_rg(st, v, None if lo is None else lo // k, None if hi is None else hi // k)
                st.g[key] = (v, R)
            else: v = m[0]
        r = self.unlin(q0, Q)
        return r if v is None else v + r
    def fmod(self, st, t, k):
        if isinstance(t, int): return t % k
        c, d = self.lin(t)
        # reduce coefficients mod k first
        d2 = {i: (q % k, l) for i, (q, l) in d.items() if q % k}
        t2 = self.unlin(c % k, d2)
        if isinstance(t2, int): return t2
        q = self.fdiv(st, t2, k)
        c2, e2 = self.lin(t2 - k * q if not isinstance(q, int) else t2 - k * q)
        return self.unlin(c2, e2)
    def fresh_int(self, w, name, signed=True):
        t = z3.Int(fresh_name(name))
        return self.int_of(w, t, signed)
    def int_of(self, w, t, signed=True, st=None):
        if signed: return IV(w, t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return IV(w, t, 0, (1 << w) - 1)
    def rng(self, st, v):
        """assume the interval of v"""
        if not isconst(v.t):
            st.pc.append(z3.And(v.t >= v.lo, v.t <= v.hi)); self.set_rg(st, v.t, v.lo, v.hi)
        return v
    def sym(self, st, w, name, signed=True, exact=True):
        t = z3.Int(name if exact else fresh_name(name))
        v = self.int_of(w, t, signed)
        self.rng(st, v)
        return v
    def _norm(self, st, v, lo, hi):
        w = v.w; M = 1 << w
        if isinstance(v.t, int):
            r = (v.t - lo) % M + lo
            return r
        if v.lo >= lo and v.hi <= hi: return v.t
        key = ('n', v.t.get_id(), lo, w)
        c = st.g.get(key)
        if c is not None: return c[0]
        l, h = self.rg_term(st, v.t)
        l = v.lo if l is None else max(l, v.lo); h = v.hi if h is None else min(h, v.hi)
        if l >= lo and h <= hi: return v.t
        if (l, h) != (v.lo, v.hi): v = IV(w, v.t, l, h)
        if self.valid(st, z3.And(v.t >= lo, v.t <= hi)): r = v.t
        elif v.lo >= lo - M and v.hi <= hi + M:
            r = z3.If(v.t > hi, v.t - M, z3.If(v.t < lo, v.t + M, v.t))
            if v.lo >= lo: r = z3.If(v.t > hi, v.t - M, v.t)
            elif v.hi <= hi: r = z3.If(v.t < lo, v.t + M, v.t)
        else:
            r = self.fmod(st, v.t - lo, M) + lo
        st.g[key] = (r, v.t)
        return r
    def s(self, st, v):
        v = self.iv(v); return self._norm(st, v, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
    def u(self, st, v):
        v = self.iv(v); return self._norm(st, v, 0, (1 << v.w) - 1)
    def slo(self, v):
        """interval of the signed view"""
        w = v.w; a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return (v.lo, v.hi) if v.lo >= a and v.hi <= b else (a, b)
    def ulo(self, v):
        a, b = 0, (1 << v.w) - 1
        return (v.lo, v.hi) if v.lo >= a and v.hi <= b else (a, b)
    def mks(self, w, t, lo, hi): return IV(w, t, lo, hi)
    def bits(self, v):
        if isinstance(v, Bits): return v
        v = self.iv(v)
        if isinstance(v.t, int): return Bits([(v.w, v.t % (1 << v.w))])
        return None

    # -------------------------------------------------------------- binary ops
    def binop(self, st, op, a, b, ty, inst):
        w = tw(ty)
        if w is None: return self.fpop(st, op, a, b, ty)
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef): return self.bvop(st, op, a, b, w)
        if getattr(a, 'src', None) == 'opaque' or getattr(b, 'src', None) == 'opaque':
            # arithmetic on hash values: some function of its operands
            zi = lambda x: z3.IntVal(x) if isinstance(x, int) else x
            I = z3.IntSort(); r = z3.Function(f'{op}_{w}', I, I, I)(zi(self.u(st, self.iv(a, w))), zi(self.u(st, self.iv(b, w)))); st.pc.append(z3.And(r >= 0, r < 1 << w))
            v = IV(w, r, 0, (1 << w) - 1); v.src = 'opaque'; return v
        if w == 1:
            x, y = self.boolv(a), self.boolv(b)
            if op == 'and': return self.band(x, y)
            if op == 'or': return self.bor(x, y)
            if op == 'xor': return self.bxor(x, y)
            raise Unsupported('i1 ' + op)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'): return self.bitop(st, op, a, b, w, inst)
        a = self.iv(a, w); b = self.iv(b, w)
        S0, S1 = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op in ('add', 'sub', 'mul'):
            nsw = inst.get('nsw') and not self.wrap_ok
            if nsw:
                x, y = self.s(st, a), self.s(st, b)
                (al, ah), (bl, bh) = self.slo(a), self.slo(b)
            else:
                x, y = a.t, b.t; al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
            if op == 'add': t = x + y; lo, hi = al + bl, ah + bh
            elif op == 'sub': t = x - y; lo, hi = al - bh, ah - bl
            else:
                t = x * y; ps = [al * bl, al * bh, ah * bl, ah * bh]; lo, hi = min(ps), max(ps)
            if nsw:
                if lo < S0 or hi > S1:
                    self.oblige(st, z3.And(t >= S0, t <= S1) if not isinstance(t, int) else (S0 <= t <= S1), 'overflow', f'signed {op} does not overflow i{w}')
                    lo, hi = max(lo, S0), min(hi, S1)
                return IV(w, t, lo, hi)
            r = IV(w, t, lo, hi)
            if hi - lo > (1 << (w + 6)) or abs(lo) > (1 << (w + 6)) or abs(hi) > (1 << (w + 6)):
                r = IV(w, self.u(st, r), 0, (1 << w) - 1)
            return r
        if op in ('sdiv', 'srem'):
            x, y = self.s(st, a), self.s(st, b); (al, ah), (bl, bh) = self.slo(a), self.slo(b)
            if not (isinstance(y, int) and y not in (0, -1)):
                self.oblige(st, (y != 0), 'div0', 'divisor is not zero')
                self.oblige(st, z3.Not(z3.And(z3.IntVal(x) == S0 if isinstance(x, int) else x == S0, (y == -1) if not isinstance(y, int) else z3.BoolVal(y == -1))), 'overflow', f'signed {op} does not overflow (INT_MIN / -1)')
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return IV(w, q if op == 'sdiv' else x - q * y)
            if isinstance(y, int):
                ay = abs(y); srcr = None
                rl, rh = self.rg_term(st, x)
                if rl is not None: al = max(al, rl)
                if rh is not None: ah = min(ah, rh)
                if al >= 0: q = self.fdiv(st, x, ay); r = self.fmod(st, x, ay)
                elif ah <= 0: q = -self.fdiv(st, -x, ay); r = -self.fmod(st, -x, ay)
                else:
                    q = self.fdiv(st, x, ay); r = self.fmod(st, x, ay)
                    c = self.band(x < 0, r > 0) if not isinstance(r, int) else (x < 0 if r > 0 else False)
                    if c is not False:
                        up = z3.If(c, z3.IntVal(1), z3.IntVal(0)); m = r
                        q = q + up; r = r - ay * up; srcr = ('srem', m, c)
                if op == 'sdiv':
                    f = lambda v: abs(v) // ay * (1 if v >= 0 else -1)
                    lo, hi = f(al), f(ah)
                    if y < 0: q = -q; lo, hi = -hi, -lo
                    return IV(w, q, lo, hi)
                return IV(w, r, 0 if al >= 0 else -(ay - 1), 0 if ah <= 0 else ay - 1, src=srcr)
            # symbolic divisor: define q, r by the division theorem
            q = z3.Int(fresh_name('q')); r = z3.Int(fresh_name('r'))
            X = x if not isinstance(x, int) else z3.IntVal(x)
            ab = lambda e: z3.If(e >= 0, e, -e)
            Y = y if not isinstance(y, int) else z3.IntVal(y)
            st.pc.append(z3.And(X == q * Y + r, ab(r) < ab(Y), z3.Or(r == 0, (r < 0) == (X < 0))))
            st.g[('div', a.t if isinstance(a.t, int) else a.t.get_id())] = (q, r)
            t = q if op == 'sdiv' else r
            v = IV(w, t, S0, S1); self.rng(st, v); return v
        if op in ('udiv', 'urem'):
            x, y = self.u(st, a), self.u(st, b); (al, ah) = self.ulo(a)
            if not (isinstance(y, int) and y != 0): self.oblige(st, y != 0, 'div0', 'divisor is not zero')
            if isinstance(x, int) and isinstance(y, int): return IV(w, x // y if op == 'udiv' else x % y)
            X = x if not isinstance(x, int) else z3.IntVal(x)
            if isinstance(y, int):
                return IV(w, self.fdiv(st, X, y), al // y, ah // y) if op == 'udiv' else IV(w, self.fmod(st, X, y), 0, y - 1)
            return IV(w, X / y, 0, ah) if op == 'udiv' else IV(w, X % y, 0, ah)
        raise Unsupported('binop ' + op)

    def boolv(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, IV):
            if v.b is not None: return v.b
            if isinstance(v.t, int): return bool(v.t % 2)
            return (v.t % 2) == 1
        if isinstance(v, Undef): return z3.Bool(fresh_name('undefb'))
        raise Unsupported(f'bool expected: {v}')
    def band(self, x, y):
        if isinstance(x, bool): return y if x else False
        if isinstance(y, bool): return x if y else False
        return z3.And(x, y)
    def bor(self, x, y):
        if isinstance(x, bool): return True if x else y
        if isinstance(y, bool): return True if y else x
        return z3.Or(x, y)
    def bxor(self, x, y):
        if isinstance(x, bool): return (z3.Not(y) if not isinstance(y, bool) else not y) if x else y
        if isinstance(y, bool): return z3.Not(x) if y else x
        return z3.Xor(x, y)
    def bnot(self, x): return (not x) if isinstance(x, bool) else z3.Not(x)

    def slice(self, st, v, lo, n):
        """bits [lo,lo+n) of v as list of parts"""
        if isinstance(v, Bits):
            out = []; pos = 0
            for pw, pt in v.parts:
                a, b = max(lo, pos), min(lo + n, pos + pw)
                if a < b:
                    if a == pos and b == pos + pw: out.append((pw, pt))
                    elif isinstance(pt, int): out.append((b - a, (pt >> (a - pos)) & ((1 << (b - a)) - 1)))
                    else:
                        t = pt
                        if isinstance(t, IV): t = self.u(st, t)
                        if a > pos: t = self.fdiv(st, t, 1 << (a - pos))
                        if b < pos + pw: t = self.fmod(st, t, 1 << (b - a))
                        out.append((b - a, t))
                pos += pw
            return out
        v = self.iv(v)
        if isinstance(v.t, int): return [(n, (v.t >> lo) & ((1 << n) - 1))]
        l, h = self.ulo(v)
        if lo == 0 and n == v.w: return [(n, v)]
        if lo == 0 and n < v.w: return [(n, IV(n, v.t, v.lo, v.hi))]
        t = self.u(st, v)
        if lo and l >= 0 and h >> lo == 0: return [(n, 0)]
        if lo: t = self.fdiv(st, t, 1 << lo); h >>= lo
        if h > (1 << n) - 1: t = self.fmod(st, t, 1 << n)
        return [(n, t)]

    def bitop(self, st, op, a, b, w, inst):
        bc = None
        if isinstance(b, Bits) and len(b.parts) == 1 and isinstance(b.parts[0][1], int): bc = b.parts[0][1]
        if isinstance(b, IV) and isinstance(b.t, int): bc = b.t % (1 << w)
        if op in ('and', 'or', 'xor') and bc is None:
            ac = None
            if isinstance(a, IV) and isinstance(a.t, int): ac = a.t % (1 << w)
            if ac is not None: a, b, bc = b, a, ac
        if op in ('shl', 'lshr', 'ashr'):
            if bc is None:
                sh = self.iv(b, w)
                self.oblige(st, z3.And(self.u(st, sh) >= 0, self.u(st, sh) < w), 'shift', 'shift amount in range')
                return self.via_bv(st, op, a, b, w)
            k = bc
            if k >= w: raise Unsupported('shift >= width')
            if isinstance(a, Undef): a = self.iv(a, w)
            if op == 'shl':
                if isinstance(a, Bits): return Bits([(k, 0)] + self.slice(st, a, 0, w - k))
                if isinstance(a, IV) and isinstance(a.t, int): return IV(w, (a.t << k) % (1 << w))
                a = self.iv(a, w)
                if inst.get('nsw'):
                    x = self.s(st, a); l, h = self.slo(a)
                    t = x * (1 << k); lo, hi = l << k, h << k
                    S0, S1 = -(1 << (w - 1)), (1 << (w - 1)) - 1
                    if lo < S0 or hi > S1:
                        self.oblige(st, z3.And(t >= S0, t <= S1), 'overflow', 'shl does not overflow'); lo, hi = max(lo, S0), min(hi, S1)
                    return IV(w, t, lo, hi)
                return Bits([(k, 0)] + self.slice(st, a, 0, w - k))
            if isinstance(a, IV) and a.src and a.src[0] == 'shl' and a.src[2] == k:
                o = a.src[1]; v = IV(w - k, o.t, o.lo, o.hi)
                if op == 'ashr':
                    r = self.s(st, v); l, h = self.slo(v); return IV(w, r, l, h)
                r = self.u(st, v); l, h = self.ulo(v); return IV(w, r, l, h)
            if op == 'lshr':
                if isinstance(a, Bits): return Bits(self.slice(st, a, k, w - k) + [(k, 0)])
                a = self.iv(a, w); x = self.u(st, a); l, h = self.ulo(a)
                if isinstance(x, int): return IV(w, x >> k)
                return IV(w, self.fdiv(st, x, 1 << k), l >> k, h >> k)
            # ashr
            if isinstance(a, Bits):
                ps = self.slice(st, a, k, w - k)
                if len(ps) == 1 and not isinstance(ps[0][1], int):
                    n, t = ps[0]
                    if isinstance(t, IV):
                        x = self.s(st, t); l, h = self.slo(t); return IV(w, x, l, h)
                    return IV(w, z3.If(t >= (1 << (n - 1)), t - (1 << n), t), -(1 << (n - 1)), (1 << (n - 1)) - 1)
                top = ps[-1]
                if isinstance(top[1], int) and not (top[1] >> (top[0] - 1)) & 1:
                    return Bits(ps + [(k, 0)])
                v = self.iv(Bits(ps)); x = self.s(st, v); l, h = self.slo(v)
                return IV(w, x, l, h)
            a = self.iv(a, w); x = self.s(st, a); l, h = self.slo(a)
            if isinstance(x, int): return IV(w, x >> k)
            return IV(w, self.fdiv(st, x, 1 << k), l >> k, h >> k)
        # and/or/xor
        if bc is not None:
            if isinstance(a, Undef): a = self.iv(a, w)
            M = (1 << w) - 1
            if isinstance(a, IV) and isinstance(a.t, int):
                x = a.t & M
                return IV(w, {'and': x & bc, 'or': x | bc, 'xor': x ^ bc}[op])
            if op == 'and' and bc == M or op in ('or', 'xor') and bc == 0: return a
            if op == 'and' and bc == 0: return IV(w, 0)
            if isinstance(a, Bits) or op in ('and', 'or'):
                if not isinstance(a, Bits):
                    a = self.iv(a, w)
                    if op == 'and' and (bc & (bc + 1)) == 0:
                        n = bc.bit_length(); l, h = self.ulo(a)
                        if a.lo >= 0 and a.hi <= bc: return a
                        l, h = self.rg_term(st, a.t) if not isinstance(a.t, int) else (a.t, a.t)
                        l = a.lo if l is None else max(l, a.lo); h = a.hi if h is None else min(h, a.hi)
                        if l >= 0 and h <= bc: return IV(w, a.t, l, h)
                        if l >= -(1 << n) and h < (1 << n): return Bits([(n, IV(n, a.t, l, h)), (w - n, 0)])
                        return IV(w, self.fmod(st, a.t, 1 << n), 0, bc)
                out = []; pos = 0
                while pos < w:
                    bit = (bc >> pos) & 1; e = pos
                    while e < w and (bc >> e) & 1 == bit: e += 1
                    n = e - pos
                    if op == 'and': out += self.slice(st, a, pos, n) if bit else [(n, 0)]
                    elif op == 'or': out += [(n, (1 << n) - 1)] if bit else self.slice(st, a, pos, n)
                    else:
                        if not bit: out += self.slice(st, a, pos, n)
                        else: out += [(pw, ((1 << pw) - 1) - (self.u(st, pt) if isinstance(pt, IV) else pt)) for pw, pt in self.slice(st, a, pos, n)]
                    pos = e
                return Bits(out)
            a = self.iv(a, w)
            if op == 'xor' and bc == M:
                x = self.s(st, a); l, h = self.slo(a); return IV(w, -1 - x, -1 - h, -1 - l)
            if op == 'xor' and bc == 1 and a.lo >= 0 and a.hi <= 1:
                return IV(w, 1 - a.t, 0, 1)
            return self.via_bv(st, op, a, b, w)
        if op in ('or', 'xor') and (isinstance(a, Bits) or isinstance(b, Bits)):
            # disjoint combination
            cut = sorted(set(self.cuts(a)) | set(self.cuts(b)))
            out = []; ok = True
            for p, q in zip(cut, cut[1:]):
                x, y = self.slice(st, a, p, q - p), self.slice(st, b, p, q - p)
                if len(x) == 1 and x[0][1] == 0 if isinstance(x[0][1], int) else False: out += y
                elif len(y) == 1 and y[0][1] == 0 if isinstance(y[0][1], int) else False: out += x
                else: ok = False; break
            if ok: return Bits(out)
        if op in ('or', 'and') and isinstance(a, IV) and isinstance(b, IV):
            if a.b is not None and b.b is not None:
                c = self.bor(a.b, b.b) if op == 'or' else self.band(a.b, b.b)
                return self.iv(c, w)
        if op == 'and':
            # mask with symbolic left shift etc.
            pass
        if op == 'or' and isinstance(a, IV) and isinstance(b, IV):
            # a = x<<k , 0<=b<2^k
            for p, q in ((a, b), (b, a)):
                if p.src and p.src[0] == 'shl' and q.lo >= 0 and q.hi < (1 << p.src[2]):
                    return IV(w, self.u(st, p) + q.t, 0, (1 << w) - 1)
        return self.via_bv(st, op, a, b, w)
    def cuts(self, v):
        if isinstance(v, Bits):
            out = [0]; base = 0
            for pw, pt in v.parts:
                if isinstance(pt, int): out += [base + i for i in range(1, pw) if (pt >> i) & 1 != (pt >> (i - 1)) & 1]
                base += pw; out.append(base)
            return out
        v = self.iv(v)
        if v.lo >= 0 and v.hi.bit_length() < v.w: return [0, v.hi.bit_length(), v.w]
        return [0, v.w]
    def via_bv(self, st, op, a, b, w):
        x = self.tobv(st, a, w); y = self.tobv(st, b, w)
        r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
             'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return IV(w, z3.BV2Int(r), 0, (1 << w) - 1)
    def tobv(self, st, v, w):
        if isinstance(v, z3.BitVecRef): return v
        if isinstance(v, IV) and isinstance(v.t, int): return z3.BitVecVal(v.t, w)
        v = self.iv(v, w)
        if isinstance(v.t, int): return z3.BitVecVal(v.t, w)
        if z3.is_app(v.t) and v.t.decl().kind() == z3.Z3_OP_BV2INT and v.t.arg(0).size() == w: return v.t.arg(0)
        return z3.Int2BV(v.t, w)
    def bvop(self, st, op, a, b, w):
        x, y = self.tobv(st, a, w), self.tobv(st, b, w)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}
        if op in ('udiv', 'urem', 'sdiv', 'srem'): self.oblige(st, y != 0, 'div0', 'divisor is not zero')
        return f[op]()
    FS = {'float': z3.Float32(), 'double': z3.Float64()}
    def fp(self, v, ty=None):
        if isinstance(v, FPV): return v.t
        if isinstance(v, Undef): return z3.FP(fresh_name('undef'), self.FS[ty or v.ty])
        raise Unsupported(f'fp expected {v}')
    def fpop(self, st, op, a, b, ty):
        x, y = self.fp(a, ty), self.fp(b, ty); R = z3.RNE()
        if op == 'frem': return FPV(z3.Function('fmod_' + ty, self.FS[ty], self.FS[ty], self.FS[ty])(x, y))
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}
        if op not in f: raise Unsupported('fp ' + op)
        # exact IEEE semantics is only needed through congruence: keep as uninterpreted when asked
        if getattr(self, 'fp_uf', False):
            if op in ('fadd', 'fmul') and str(y) < str(x): x, y = y, x      # commutative
            return FPV(z3.Function(f'{op}_{ty}', self.FS[ty], self.FS[ty], self.FS[ty])(x, y))
        return FPV(f[op](R, x, y))

    def icmp(self, st, pred, a, b, ty):
        if ty == 'ptr': return self.pcmp(st, pred, a, b)
        w = tw(ty)
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            x, y = self.tobv(st, a, w), self.tobv(st, b, w)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                    'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        if w == 1:
            x, y = self.boolv(a), self.boolv(b)
            e = self.bnot(self.bxor(x, y))
            if pred == 'eq': return e
            if pred == 'ne': return self.bnot(e)
            if pred == 'ult': return self.band(self.bnot(x), y)
            if pred == 'ugt': return self.band(x, self.bnot(y))
        if isinstance(a, Bits) and isinstance(b, Bits) and [x[0] for x in a.parts] == [x[0] for x in b.parts] and pred in ('eq', 'ne'):
            cs = [(self.icmp(st, 'eq', IV(n, x, 0, (1 << n) - 1) if not isinstance(x, IV) else x, IV(n, y, 0, (1 << n) - 1) if not isinstance(y, IV) else y, f'i{n}')) for (n, x), (_, y) in zip(a.parts, b.parts)]
            r = z3.And([c if not isinstance(c, bool) else z3.BoolVal(c) for c in cs])
            return r if pred == 'eq' else z3.Not(r)
        if isinstance(a, IV) and a.b is not None and isinstance(b, IV) and isinstance(b.t, int) and pred in ('eq', 'ne'):
            if b.t == 0: return self.bnot(a.b) if pred == 'eq' else a.b
            if b.t == 1: return a.b if pred == 'eq' else self.bnot(a.b)
        a, b = self.iv(a, w), self.iv(b, w)
        if isinstance(b.t, int) and b.t == 0 and a.src and a.src[0] == 'srem':
            _, m, c = a.src       # remainder = m - k*[c], 0 <= m < k, c: dividend < 0 and m > 0
            if pred == 'eq': return m == 0
            if pred == 'ne': return m != 0
            if pred == 'slt': return c
            if pred == 'sge': return z3.Not(c)
        if pred in ('eq', 'ne'):
            S0, S1 = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if a.lo >= S0 and b.lo >= S0 and a.hi <= S1 and b.hi <= S1: x, y = a.t, b.t
            elif a.lo >= 0 and b.lo >= 0 and a.hi < 1 << w and b.hi < 1 << w: x, y = a.t, b.t
            elif a.lo >= 0 or b.lo >= 0: x, y = self.u(st, a), self.u(st, b)
            else: x, y = self.s(st, a), self.s(st, b)
            r = x == y
            return r if pred == 'eq' else self.bnot(r)
        if pred[0] == 's': x, y = self.s(st, a), self.s(st, b)
        else: x, y = self.u(st, a), self.u(st, b)
        p = pred[1:]
        return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()
    def ptr_id(self, p):
        if isinstance(p, OPtr): return p.t
        if isinstance(p, Ptr):
            if p.obj is None: return 0
            return z3.Int(f'addr_{p.obj}') + p.off
        if isinstance(p, Fn): return z3.Int(f'addr_fn_{p.name}')
        raise Unsupported(f'ptr id {p}')
    def pcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return z3.Bool(fresh_name('undefcmp'))
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): e = a.name == b.name
            elif isinstance(a, OPtr) or isinstance(b, OPtr):
                raise Unsupported('function pointer compared with opaque pointer')
            else: e = False
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is None or b.obj is None:
                if a.obj is None and b.obj is None: e = (a.off == b.off) if not (isinstance(a.off, int) and isinstance(b.off, int)) else a.off == b.off
                else: e = False
                if pred in ('ult', 'ule', 'ugt', 'uge') and e is False:
                    lt = a.obj is None
                    return {'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt}[pred]
            elif a.obj == b.obj:
                x, y = a.off, b.off
                r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y, 'ugt': lambda: x > y, 'uge': lambda: x >= y,
                     'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
                return r
            else: e = False
            if pred not in ('eq', 'ne'): raise Unsupported('relational compare of pointers to different objects')
        else:
            # opaque involved
            def addr(p):
                if isinstance(p, Ptr) and p.obj is not None:
                    a0 = z3.Int(f'addr_{p.obj}'); st.pc.append(a0 > 0); return a0 + p.off
                return self.ptr_id(p)
            x, y = addr(a), addr(b)
            if pred in ('eq', 'ne'): e = x == y
            else:
                return {'ult': lambda: x < y, 'ule': lambda: x <= y, 'ugt': lambda: x > y, 'uge': lambda: x >= y}[pred]()
        return e if pred == 'eq' else self.bnot(e)

    # -------------------------------------------------------------- memory
    def new_obj(self, st, name, size, kind):
        o = Obj(next(self.oid), name, size, kind); o.tok = st.tok
        st.mem[o.id] = o
        return o
    def alloc(self, st, name, size, kind='heap'):
        return Ptr(self.new_obj(st, name, size, kind).id, 0)
    def global_ptr(self, st, name):
        if name in self.mod.funcs and name not in self.mod.globals: return Fn(name)
        oid = self.gobj.get(name)
        if oid is None:
            oid = next(self.oid); self.gobj[name] = oid
        if oid not in st.mem:
            g = self.mod.globals.get(name)
            o = Obj(oid, name, g['size'] if g and g['size'] >= 0 else None, 'global'); o.tok = st.tok
            st.mem[oid] = o
            if g:
                if name in self.globals_init: self.globals_init[name](self, st, o)
                elif g['dem'] in self.globals_init: self.globals_init[g['dem']](self, st, o)
                elif 'init' in g and g['const']:
                    self.put_const(st, o, 0, g['init']); o.ro = True
                    o.lazy = 'zero'
                else: o.lazy = 'global'
        return Ptr(oid, 0)
    def put_const(self, st, o, off, c):
        k = c[0]
        if k == 'agg':
            ty = c[1]
            if ty['k'] == 'struct':
                for (eo, _), v in zip(ty['els'], c[2]): self.put_const(st, o, off + eo, v)
            else:
                for i, v in enumerate(c[2]): self.put_const(st, o, off + i * (ty.get('esize') or 1), v)
        elif k in ('zero', 'undef'): pass
        else:
            v = self.const(st, c)
            o.cells[off] = (self.vsize(v), v)
    def vsize(self, v):
        if isinstance(v, (IV, Bits)): return max(1, v.w // 8)
        if isinstance(v, (Ptr, OPtr, Fn)): return 8
        if isinstance(v, FPV): return (v.t.sort().ebits() + v.t.sort().sbits()) // 8
        if isinstance(v, z3.BitVecRef): return v.size() // 8
        if isinstance(v, (bool, z3.BoolRef)): return 1
        raise Unsupported(f'vsize {v}')
    def const(self, st, c):
        k = c[0]
        if k == 'c':
            w = c[2]; v = int(c[1])
            if w == 1: return v != 0
            if self.bv: return z3.BitVecVal(v, w)
            return IV(w, v)
        if k == 'null': return NULL
        if k == 'g': return self.global_ptr(st, c[1])
        if k == 'undef':
            if isinstance(c[1], dict) and c[1]['k'] in ('struct', 'array'): return self.zero_agg(c[1], undef=True)
            return Undef(c[1])
        if k == 'zero': return self.zero_agg(c[1])
        if k == 'f':
            s = self.FS.get(c[2])
            if s is None: return Undef(c[2])
            return FPV(z3.simplify(z3.fpBVToFP(z3.BitVecVal(int(c[1]), s.ebits() + s.sbits()), s)))
        if k == 'gep':
            return self.gep(st, self.const(st, c[1]['base']), c[1]['off'], [(self.const(st, v), m) for v, m in c[1]['vars']])
        if k == 'agg': return Agg([self.const(st, x) for x in c[2]])
        if k == 'ce':
            if c[1] in ('bitcast', 'addrspacecast'): return self.const(st, c[3][0])
            if c[1] == 'ptrtoint': return self.iv(self.const(st, c[3][0]))
            if c[1] == 'inttoptr':
                v = self.const(st, c[3][0])
                if isinstance(v, IV) and isinstance(v.t, int) and v.t == 0: return NULL
                return OPtr(v.t)
        if k in ('md', 'unk', 'asm'): return Undef()
        raise Unsupported(f'const {c}')
    def zero_agg(self, ty, undef=False):
        if isinstance(ty, dict) and ty['k'] == 'struct': return Agg([self.zero_agg(e[1], undef) for e in ty['els']])
        if isinstance(ty, dict) and ty['k'] == 'array': return Agg([self.zero_agg(ty['el'], undef) for _ in range(ty['n'])])
        if undef: return Undef(ty)
        if ty == 'ptr': return NULL
        if ty in self.FS: return FPV(z3.FPVal(0, self.FS[ty]))
        w = tw(ty)
        if w == 1: return False
        if w: return z3.BitVecVal(0, w) if self.bv else IV(w, 0)
        raise Unsupported(f'zero {ty}')
    def gep(self, st, base, off, vars):
        if isinstance(base, Undef): raise Unsupported('pointer arithmetic on undef')
        t = off
        for v, m in vars:
            if isinstance(v, z3.BitVecRef): v = IV(v.size(), z3.BV2Int(v, True) if not z3.is_bv_value(v) else v.as_signed_long())
            x = self.s(st, v); t = t + x * m
        if isinstance(t, z3.ExprRef):
            t = z3.simplify(t)
            if z3.is_int_value(t): t = t.as_long()
        if isinstance(base, OPtr):
            return OPtr(base.t + t) if not (isinstance(t, int) and t == 0) else base
        if isinstance(base, Fn): raise Unsupported('gep on function')
        if base.obj is None and not (isinstance(t, int) and t == 0): return Ptr(None, base.off + t)
        o = base.off + t
        if isinstance(o, z3.ExprRef):
            o = z3.simplify(o)
            if z3.is_int_value(o): o = o.as_long()
        return Ptr(base.obj, o)
    def check_access(self, st, p, size, what):
        if isinstance(p, OPtr): raise Unsupported(f'{what} through an opaque pointer')
        if isinstance(p, Undef):
            self.oblige(st, False, 'memory', f'{what} through an indeterminate pointer')
        if isinstance(p, Fn): raise Unsupported(f'{what} of function')
        if p.obj is None:
            self.oblige(st, False, 'null-deref', f'{what} through a null pointer'); raise DropPath()
        o = st.mem.get(p.obj)
        if o is None: raise Unsupported('unknown object')
        if o.g.get('noaccess'): raise Unsupported(f'{what}: {o.name} is only known abstractly here')
        if not o.alive:
            self.oblige(st, False, 'use-after-free', f'{what} of dead object {o.name}'); raise DropPath()
        if o.size is not None:
            lo, hi = p.off, p.off + size
            c1 = lo >= 0; c2 = hi <= o.size
            cs = [c for c in (c1, c2) if not (isinstance(c, bool) and c)]
            if any(c is False for c in cs):
                self.oblige(st, False, 'bounds', f'{what} outside {o.name}')
            elif cs: self.oblige(st, z3.And(*cs) if len(cs) > 1 else cs[0], 'bounds', f'{what} within {o.name}')
        return o
    def conv(self, st, v, ty, size):
        """reinterpret a cell value as ty"""
        if isinstance(v, Undef): return Undef(ty)
        if ty == 'ptr':
            if isinstance(v, (Ptr, OPtr, Fn)): return v
            if isinstance(v, IV):
                if v.src and v.src[0] == 'ptr': return v.src[1]
                if isinstance(v.t, int) and v.t == 0: return NULL
                return OPtr(self.u(st, v))
            raise Unsupported(f'load ptr from {v}')
        if ty in self.FS:
            if isinstance(v, FPV): return v
            if isinstance(v, IV) and v.src and v.src[0] == 'fp': return v.src[1]
            v = self.iv(v); s = self.FS[ty]
            return FPV(z3.fpBVToFP(self.tobv(st, v, v.w), s))
        w = tw(ty)
        if w == 1: return self.boolv(v)
        if w:
            if self.bv:
                if isinstance(v, z3.BitVecRef):
                    return v
                return self.tobv(st, v, w)
            if isinstance(v, Bits): return v
            if isinstance(v, IV): return v
            return self.iv(v, w)
        raise Unsupported(f'conv to {ty}')
    def lazy_val(self, st, o, off, size, ty):
        if callable(o.lazy):
            v = o.lazy(self, st, o, off, size, ty)
            return v
        if o.lazy == 'zero':
            return self.zero_agg(ty)
        if o.lazy in ('input', 'global'):
            nm = f'{o.name}.{off}' if o.lazy == 'input' else f'G_{o.name}.{off}'
            if ty == 'ptr': return OPtr(self._nonneg(st, z3.Int(nm)))
            if ty in self.FS: return FPV(z3.FP(nm, self.FS[ty]))
            w = tw(ty)
            if self.bv: return z3.BitVec(nm, w)
            return self.sym(st, w, nm)
        return Undef(ty)
    def _nonneg(self, st, t):
        st.pc.append(z3.And(t >= 0, t < (1 << 64))); return t
    def load(self, st, p, ty, size):
        if isinstance(ty, dict):
            if ty['k'] == 'struct': return Agg([self.load(st, self.gep(st, p, eo, []), ety, self.tysize(ety)) for eo, ety in ty['els']])
            if ty['k'] == 'array': return Agg([self.load(st, self.gep(st, p, i * ty['esize'], []), ty['el'], ty['esize']) for i in range(ty['n'])])
            raise Unsupported(f'load of {ty}')
        if isinstance(p, OPtr) and self.oload: return self.oload(st, p, ty, size)
        o = self.check_access(st, p, size, 'read')
        off = p.off
        if 'onload' in o.g:
            r = o.g['onload'](self, st, o, off, size, ty)
            if r is not None: return r
        if not isinstance(off, int):
            return self.load_sym(st, o, off, ty, size)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(st, c[1], ty, size)
        if o.rope is not None:
            return self.load_rope(st, o, off, ty, size)
        # wider cell containing it?
        for co, (cs, cv) in o.cells.items():
            if co <= off and off + size <= co + cs and isinstance(cv, (IV, Bits)):
                b = Bits(self.slice(st, cv, (off - co) * 8, size * 8))
                return self.conv(st, b if len(b.parts) > 1 else self.iv(b), ty, size)
            if co <= off and off + size <= co + cs and isinstance(cv, z3.BitVecRef):
                return z3.Extract((off - co + size) * 8 - 1, (off - co) * 8, cv)
            if co <= off and off + size <= co + cs and isinstance(cv, Undef): return Undef(ty)
        # assembled from smaller cells
        ov = sorted(x for x in o.cells if x < off + size and x + o.cells[x][0] > off)
        if ov and tw(ty):
            parts = []; pos = off; good = True
            while pos < off + size:
                c = o.cells.get(pos)
                if c is None or pos + c[0] > off + size:
                    # gap?
                    nxt = min([x for x in ov if x > pos] + [off + size])
                    if any(x < pos < x + o.cells[x][0] for x in ov): good = False; break
                    n = nxt - pos
                    if o.lazy == 'zero': parts.append((n * 8, 0))
                    else:
                        v = self.fresh_int(n * 8, f'gap_{o.name}_{pos}', False); self.rng(st, v)
                        parts.append((n * 8, v.t))
                        st.rw(o.id).cells[pos] = (n, v); o = st.ro(o.id)
                    pos = nxt; continue
                v = c[1]
                if isinstance(v, Undef): v = self.fresh_int(c[0] * 8, 'undef', False); self.rng(st, v)
                if not isinstance(v, (IV, Bits)):
                    if isinstance(v, (bool, z3.BoolRef)): v = self.iv(v, 8)
                    else: good = False; break
                parts += self.slice(st, v, 0, c[0] * 8); pos += c[0]
            if good: return self.conv(st, Bits(parts), ty, size)
        if ov: raise Unsupported(f'overlapping read of {o.name}+{off} size {size} as {ty}')
        v = self.lazy_val(st, o, off, size, ty)
        if not isinstance(v, Undef):
            st.rw(o.id).cells[off] = (size, v)
        return v
    def eqc(self, t, x):
        """t == x (constant), common factor divided out"""
        c, d = self.lin(t)
        import math
        g = 0
        for q, _ in d.values(): g = math.gcd(g, q)
        if g > 1 and (x - c) % g == 0:
            r = self.unlin(0, {i: (q // g, l) for i, (q, l) in d.items()})
            return r == (x - c) // g
        return t == x
    def load_sym(self, st, o, off, ty, size):
        if o.rope is not None: return self.load_rope(st, o, off, ty, size)
        # table lookup: every cell of that size
        cand = []
        n = o.size
        if n is None: raise Unsupported('symbolic index in unsized object')
        offs = sorted(x for x, (s, v) in o.cells.items() if s == size)
        if o.lazy == 'zero': offs = sorted(set(offs) | set(range(0, n - size + 1, size)))
        feas = []
        for x in offs:
            if self.feasible(st, off == x):
                v = o.cells[x][1] if x in o.cells else self.zero_agg(ty)
                feas.append((x, v))
        if not feas: raise Unsupported('symbolic read of unknown cells')
        if not self.valid(st, z3.Or([off == x for x, _ in feas])): raise Unsupported('symbolic read may hit unknown cells')
        vs = [self.conv(st, v, ty, size) for _, v in feas]
        if tw(ty):
            if tw(ty) == 1: raise Unsupported('sym read of i1')
            vs = [self.iv(v, tw(ty)) for v in vs]
            t = z3.IntVal(vs[-1].t) if isinstance(vs[-1].t, int) else vs[-1].t
            for (x, _), v in list(zip(feas, vs))[-2::-1]:
                t = z3.If(self.eqc(off, x), v.t, t)
            lo, hi = min(v.lo for v in vs), max(v.hi for v in vs)
            if not isinstance(t, int) and all(isinstance(v.t, int) for v in vs): self.table(t, lo, hi)
            return IV(tw(ty), t, lo, hi)
        if ty == 'ptr':
            return ('choice', [(off == x, v) for (x, _), v in zip(feas, vs)])
        raise Unsupported('symbolic read of ' + str(ty))
    def tysize(self, ty):
        if isinstance(ty, dict): return ty['size']
        if ty == 'ptr' or ty == 'double': return 8
        if ty == 'float': return 4
        w = tw(ty)
        return max(1, (w + 7) // 8)
    def store(self, st, p, v, ty, size):
        if isinstance(ty, dict) and ty['k'] in ('struct', 'array'):
            if isinstance(v, Undef): return
            els = ty['els'] if ty['k'] == 'struct' else [(i * ty['esize'], ty['el']) for i in range(ty['n'])]
            for (eo, ety), x in zip(els, v.els): self.store(st, self.gep(st, p, eo, []), x, ety, self.tysize(ety))
            return
        o = self.check_access(st, p, size, 'write')
        if o.ro: self.oblige(st, False, 'frame', f'write to read-only {o.name}')
        if st.writes is not None: st.writes.add((o.id, p.off if isinstance(p.off, int) else 'sym', size))
        o = st.rw(o.id)
        if o.g.get('frozen'): self.oblige(st, False, 'frame', f'write to {o.name}, outside the assigns clause'); 
        off = p.off
        if 'onstore' in o.g:
            if o.g['onstore'](self, st, o, off, size, v): return
        if tw(ty) == 1: v = self.iv(v, 8)
        if o.rope is not None:
            self.rope_write(st, o, off, self.val_rope(st, v, size)); return
        if not isinstance(off, int):
            raise Unsupported(f'symbolic-offset store into {o.name}')
        self.kill_cells(st, o, off, size)
        o.cells[off] = (size, v)
    def kill_cells(self, st, o, off, size):
        for x in list(o.cells):
            cs, cv = o.cells[x]
            if x < off + size and x + cs > off:
                if x >= off and x + cs <= off + size: del o.cells[x]
                elif isinstance(cv, (IV, Bits)):
                    del o.cells[x]
                    if x < off:
                        b = Bits(self.slice(st, cv, 0, (off - x) * 8)); o.cells[x] = (off - x, b if len(b.parts) > 1 else self.iv(b))
                    if x + cs > off + size:
                        b = Bits(self.slice(st, cv, (off + size - x) * 8, (x + cs - off - size) * 8))
                        o.cells[off + size] = (x + cs - off - size, b if len(b.parts) > 1 else self.iv(b))
                elif isinstance(cv, Undef): del o.cells[x]
                else:       # what is left of a pointer or a double: arbitrary bytes
                    del o.cells[x]
                    for b in list(range(x, min(off, x + cs))) + list(range(max(off + size, x), x + cs)):
                        t = z3.Int(fresh_name('rest')); st.pc.append(z3.And(t >= 0, t <= 255)); o.cells[b] = (1, IV(8, t, 0, 255))
    # ---- ropes
    def rlen(self, sl): 
        t = sl.hi - sl.lo
        if isinstance(t, z3.ExprRef):
            t = z3.simplify(t)
            if z3.is_int_value(t): t = t.as_long()
        return t
    def eqt(self, st, a, b):
        c = a == b
        if isinstance(c, bool): return c
        return self.valid(st, c)
    def le(self, st, a, b):
        c = a <= b
        if isinstance(c, bool): return c
        return self.valid(st, c)
    def rope_split(self, st, rope, pos):
        """split rope at byte position pos -> (left, right); needs order decidable on this path"""
        left = []; acc = 0
        for i, sl in enumerate(rope):
            if self.eqt(st, acc, pos): return left, rope[i:]
            n = self.rlen(sl)
            nxt = acc + n
            if self.le(st, nxt, pos):
                left.append(sl); acc = nxt; continue
            if self.le(st, pos, nxt) and self.le(st, acc, pos):
                d = pos - acc
                if isinstance(d, z3.ExprRef): d = z3.simplify(d); d = d.as_long() if z3.is_int_value(d) else d
                a = Sl(sl.atom, sl.lo, sl.lo + d); b = Sl(sl.atom, sl.lo + d, sl.hi)
                return left + [a], [b] + rope[i + 1:]
            raise Unsupported('cannot order a buffer position on this path')
        if self.eqt(st, acc, pos): return left, []
        raise Unsupported('buffer position beyond contents')
    def rope_read(self, st, rope, lo, n):
        _, r = self.rope_split(st, rope, lo)
        if isinstance(lo, int) and lo == 0: r = rope
        a, _ = self.rope_split(st, r, n)
        return a
    def rope_write(self, st, o, off, new):
        n = self.rope_len(new)
        l, r = self.rope_split(st, o.rope, off)
        _, r2 = self.rope_split(st, r, n)
        o.rope = self.rope_norm(st, l + new + r2)
    def rope_len(self, rope):
        t = 0
        for s in rope: t = t + self.rlen(s)
        if isinstance(t, z3.ExprRef):
            t = z3.simplify(t)
            if z3.is_int_value(t): t = t.as_long()
        return t
    def rope_norm(self, st, rope):
        out = []
        for s in rope:
            if self.eqt(st, s.lo, s.hi): continue
            if out and out[-1].atom == s.atom and self.eqt(st, out[-1].hi, s.lo):
                out[-1] = Sl(s.atom, out[-1].lo, s.hi)
            elif out and out[-1].atom == ('undef',) and s.atom == ('undef',):
                out[-1] = Sl(s.atom, 0, out[-1].hi - out[-1].lo + s.hi - s.lo)
            else: out.append(s)
        return out
    def rope_eq_cond(self, st, a, b):
        """True if provably equal under path, else False"""
        a = self.rope_norm(st, a); b = self.rope_norm(st, b)
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if x.atom == ('undef',) or y.atom == ('undef',): return False
            if x.atom != y.atom: return False
            if not (self.eqt(st, x.lo, y.lo) and self.eqt(st, x.hi, y.hi)): return False
        return True
    def val_rope(self, st, v, size):
        return [Sl(('val', self.vkey(st, v, size), size), 0, size)] if not isinstance(v, Undef) else [Sl(('undef',), 0, size)]
    valtab = {}
    def vkey(self, st, v, size):
        """hashable key for a value, remembering it"""
        if isinstance(v, Ptr): k = ('ptr', v.obj, v.off if isinstance(v.off, int) else v.off.get_id())
        elif isinstance(v, OPtr): k = ('optr', v.t if isinstance(v.t, int) else v.t.get_id())
        elif isinstance(v, FPV): k = ('fp', v.t.get_id())
        elif isinstance(v, Fn): k = ('fn', v.name)
        elif isinstance(v, z3.BitVecRef): k = ('bv', v.get_id())
        else:
            v = self.iv(v, size * 8); t = self.u(st, v)
            if isinstance(t, z3.ExprRef): t = z3.simplify(t)
            if isinstance(t, z3.ExprRef) and z3.is_int_value(t): t = t.as_long()
            k = ('int', t if isinstance(t, int) else t.get_id())
            v = IV(size * 8, t, 0, (1 << (size * 8)) - 1)
        Engine.valtab[k] = v
        return k
    def load_rope(self, st, o, off, ty, size):
        r = self.rope_norm(st, self.rope_read(st, o.rope, off, size))
        if len(r) == 1 and r[0].atom[0] == 'val' and r[0].atom[2] == size and self.eqt(st, r[0].lo, 0):
            return self.conv(st, Engine.valtab[r[0].atom[1]], ty, size)
        if len(r) == 1 and r[0].atom == ('undef',): return Undef(ty)
        if size == 1 and len(r) == 1:
            f = z3.Function('byte', z3.IntSort(), z3.IntSort(), z3.IntSort())
            a = self.atom_id(r[0].atom)
            t = f(a, r[0].lo)
            v = IV(8, t, 0, 255); self.rng(st, v); return v
        if tw(ty) and len(r) == 1:
            f = z3.Function('bytes%d' % size, z3.IntSort(), z3.IntSort(), z3.IntSort())
            if self.bv: return z3.Function('bvbytes%d' % size, z3.IntSort(), z3.IntSort(), z3.BitVecSort(size * 8))(self.atom_id(r[0].atom), z3.IntVal(r[0].lo) if isinstance(r[0].lo, int) else r[0].lo)
            v = IV(size * 8, f(self.atom_id(r[0].atom), z3.IntVal(r[0].lo) if isinstance(r[0].lo, int) else r[0].lo), 0, (1 << (8 * size)) - 1); self.rng(st, v); return v
        raise Unsupported(f'read of {size} bytes from mixed buffer contents')
    _atoms = {}
    def atom_id(self, atom):
        return Engine._atoms.setdefault(atom, len(Engine._atoms) + 1)
    def read_bytes(self, st, p, n):
        """rope of n bytes at p (n may be symbolic)"""
        if isinstance(n, int) and n == 0: return []
        o = self.check_access(st, p, n, 'read of a byte range')
        if o.rope is not None: return self.rope_read(st, o.rope, p.off, n)
        if isinstance(n, int) and isinstance(p.off, int):
            out = []; pos = p.off
            while pos < p.off + n:
                c = o.cells.get(pos)
                if c and pos + c[0] <= p.off + n: out += self.val_rope(st, c[1], c[0]); pos += c[0]
                else:
                    out.append(Sl(('undef',), 0, 1)) if o.lazy is None else out.append(Sl(('objbyte', o.id, pos), 0, 1)); pos += 1
            return out
        raise Unsupported('byte range of a structured object')
    def memcpy(self, st, dst, src, n):
        n = self.u(st, n) if not isinstance(n, int) else n
        if isinstance(n, z3.ExprRef):
            n = z3.simplify(n)
            if z3.is_int_value(n): n = n.as_long()
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int) and self.valid(st, n == 0): return
        so = self.check_access(st, src, n, 'memcpy source')
        do = self.check_access(st, dst, n, 'memcpy destination')
        if do.ro: self.oblige(st, False, 'frame', f'write to read-only {do.name}')
        if st.writes is not None: st.writes.add((do.id, dst.off if isinstance(dst.off, int) and isinstance(n, int) else 'sym', n if isinstance(n, int) else 0))
        if do.rope is None and so.rope is None:
            if not (isinstance(n, int) and isinstance(src.off, int) and isinstance(dst.off, int)): raise Unsupported('symbolic memcpy between structured objects')
            cells = {x: c for x, c in so.cells.items() if x >= src.off and x + c[0] <= src.off + n}
            for x, c in so.cells.items():
                if x < src.off + n and x + c[0] > src.off and x not in cells: raise Unsupported('memcpy cuts a cell')
            if so.lazy is not None:
                # materialise gaps
                pos = src.off
                covered = sorted((x, x + c[0]) for x, c in cells.items())
                gaps = []
                for a, b in covered + [(src.off + n, src.off + n)]:
                    if a > pos: gaps.append((pos, a - pos))
                    pos = max(pos, b)
                for a, ln in gaps:
                    while ln:
                        k = 8 if ln >= 8 and a % 8 == 0 else 4 if ln >= 4 and a % 4 == 0 else 2 if ln >= 2 and a % 2 == 0 else 1
                        v = self.load(st, Ptr(src.obj, a), f'i{k*8}', k); cells[a] = (k, v); a += k; ln -= k
            do = st.rw(do.id)
            self.kill_cells(st, do, dst.off, n)
            for x, c in cells.items(): do.cells[x - src.off + dst.off] = c
            return
        r = self.read_bytes(st, src, n)
        do = st.rw(do.id)
        if do.rope is not None: self.rope_write(st, do, dst.off, r); return
        r = self.rope_norm(st, r)
        if isinstance(n, int) and isinstance(dst.off, int) and len(r) == 1:
            a = r[0].atom
            self.kill_cells(st, do, dst.off, n)
            if a[0] == 'val' and a[2] == n: do.cells[dst.off] = (n, Engine.valtab[a[1]]); return
            if a == ('undef',): return
            if n in (1, 2, 4, 8):
                f = z3.Function('bytes%d' % n, z3.IntSort(), z3.IntSort(), z3.IntSort())
                v = IV(n * 8, f(self.atom_id(a), z3.IntVal(r[0].lo) if isinstance(r[0].lo, int) else r[0].lo), 0, (1 << (8 * n)) - 1); self.rng(st, v)
                do.cells[dst.off] = (n, v); return
        raise Unsupported('memcpy of raw bytes into a structured object')

    # -------------------------------------------------------------- execution
    def find_handler(self, name, dem):
        k = self.hcache.get(name)
        if k is None:
            k = (None,)
            for rx, h in self.handlers:
                if rx.fullmatch(dem) or rx.fullmatch(name): k = (h,); break
            self.hcache[name] = k
        return k[0]
    def on(self, rx, h):
        self.handlers.append((re.compile(rx, re.S), h)); self.hcache.clear()
    def on_first(self, rx, h):
        self.handlers.insert(0, (re.compile(rx, re.S), h)); self.hcache.clear()
    def call(self, st, name, args, inst=None, depth=0):
        """-> list of (state, retval)"""
        f = self.mod.funcs[name]
        h = self.find_handler(name, f['dem'])
        if h is not None:
            self.contracted.add(f['dem'])
            r = h(self, st, args, f, inst)
            if r is NotImplemented:      # the contract does not apply: the next one, or the code
                for rx, h2 in self.handlers:
                    if h2 is h or h2 in (getattr(h, 'tried', ()) or ()): continue
                    if rx.fullmatch(f['dem']) or rx.fullmatch(name):
                        r = h2(self, st, args, f, inst)
                        if r is not NotImplemented: break
            if r is not NotImplemented:
                if r is None: return [(st, None)]
                if isinstance(r, list): return r
                return [(st, r)]
        if f['decl']: raise Unsupported(f"call of external function without a contract: {f['dem']}")
        if depth > 60: raise Unsupported('call depth > 60 (recursion without contract?) in ' + f['dem'])
        return self.exec_fn(st, name, args, depth)
    def exec_fn(self, st, name, args, depth=0):
        f = self.mod.funcs[name]
        self.execd.add(f['dem'])
        env = {}
        for p, a in zip(f['params'], args): env[p['id']] = a
        env['frame'] = []
        save = (self.curfn, self.curloc)
        self.curfn = f['dem']
        return self.drive(f, [('edge', f['blocks'][0]['id'], None, env, st, {})], depth, save)
    def resume(self, f, bid, n, env, st):
        """execution of f from block bid on (after its n phis): for proofs that cut f at a block"""
        return self.drive(f, [('run', bid, n, env, st, {})], 0, (self.curfn, self.curloc))
    def drive(self, f, work, depth, save):
        outs = []
        while work:
            kind, bid, x, env, st, lctx = work.pop()
            try:
                if kind == 'edge':
                    self.enter(f, bid, x, env, st, lctx, work, depth)
                else:
                    self.run(f, bid, x, env, st, lctx, work, outs, depth)
            except DropPath:
                self.npaths += 1
        self.curfn, self.curloc = save
        return outs
    def enter(self, f, bid, prev, env, st, lctx, work, depth):
        b = f['bmap'][bid]
        # phis evaluated simultaneously
        vals = {}
        n = 0
        for ins in b['insts']:
            if ins['op'] != 'phi': break
            n += 1
            for pb, v in ins['in']:
                if pb == prev: vals[ins['id']] = self.val(st, env, v); break
        env.update(vals)
        lh = f['lheads'].get(bid)
        if self.cutpoints:
            cp = self.cutpoints.get((f['name'], bid))
            if cp is not None: cp(self, f, bid, n, env, st); raise DropPath()
        pr = lctx.get('probe')
        if pr is not None and True:
            if bid == pr.bid: pr.ends.append((env, st)); raise DropPath()
            if bid not in pr.blocks: raise DropPath()
        if lh is not None:
            idx, blocks = lh
            entry = prev not in blocks
            spec = None
            for rx, mk in self.loopspecs:
                if rx.fullmatch(f['dem']):
                    spec = mk(self, f, idx, bid, blocks, env, st)
                    if spec is not None: break
            if spec is None:
                c = 0 if entry else lctx.get(bid, 0) + 1
                if c > self.unroll:
                    if self.quiet: raise DropPath()
                    self.oblige(st, False, 'unwind', f'loop {idx} of {f["dem"]} stops within {self.unroll} iterations (no invariant given)')
                    raise DropPath()
                lctx = dict(lctx); lctx[bid] = c
                # inner loops restart
            else:
                key = ('inv', bid)
                if entry:
                    lctx = dict(lctx)
                    ok = spec.entry(self, f, b, env, st, blocks, depth, lctx)   # checks inv, havocs env/st in place; may return data
                    if isinstance(ok, list):       # several arbitrary iterations: (env, state, data) each
                        for e2, s2, d2 in ok:
                            l2 = dict(lctx); l2[key] = d2; work.append(('run', bid, n, e2, s2, l2))
                        return
                    lctx[key] = ok
                else:
                    spec.back(self, f, b, env, st, lctx.get(key), depth)
                    raise DropPath()
        work.append(('run', bid, n, env, st, lctx))
    def val(self, st, env, v):
        if v[0] == 'i':
            return env[v[1]]
        return self.const(st, v)
    def run(self, f, bid, i, env, st, lctx, work, outs, depth):
        b = f['bmap'][bid]; insts = b['insts']
        self.curfn = f['dem']
        while i < len(insts):
            ins = insts[i]; op = ins['op']
            if 'line' in ins: self.curloc = f"{ins.get('file','?')}:{ins['line']}"
            i += 1
            if op == 'br':
                if 'cond' not in ins:
                    work.append(('edge', ins['t'], bid, env, st, lctx)); return
                c = self.boolv(self.val(st, env, ins['cond']))
                if isinstance(c, bool):
                    work.append(('edge', ins['t'] if c else ins['f'], bid, env, st, lctx)); return
                c = z3.simplify(c)
                ft = self.feasible(st, c); ff = self.feasible(st, z3.Not(c))
                if ft and ff:
                    s2 = st.fork(); s2.pc.append(z3.Not(c)); work.append(('edge', ins['f'], bid, dict(env), s2, dict(lctx)))
                    st.pc.append(c); work.append(('edge', ins['t'], bid, env, st, lctx))
                elif ft: work.append(('edge', ins['t'], bid, env, st, lctx))
                elif ff: work.append(('edge', ins['f'], bid, env, st, lctx))
                return
            if op == 'switch':
                c = self.val(st, env, ins['cond'])
                if isinstance(c, (IV, Bits)):
                    c = self.iv(c)
                    isc = isinstance(c.t, int)
                    M = 1 << c.w
                    if isc:
                        for cv, tgt in ins['cases']:
                            if (int(cv[1]) - c.t) % M == 0: work.append(('edge', tgt, bid, env, st, lctx)); return
                        work.append(('edge', ins['default'], bid, env, st, lctx)); return
                neg = []; alts = []
                for cv, tgt in ins['cases']:
                    e = self.icmp(st, 'eq', c, self.const(st, cv), ins['oty'])
                    alts.append((e, tgt)); neg.append(self.bnot(e))
                alts.append((z3.And(*[n if not isinstance(n, bool) else z3.BoolVal(n) for n in neg]), ins['default']))
                live = [(e, t) for e, t in alts if self.feasible(st, e if not isinstance(e, bool) else z3.BoolVal(e))]
                for k, (e, tgt) in enumerate(live):
                    s2 = st.fork() if k < len(live) - 1 else st
                    s2.pc.append(e if not isinstance(e, bool) else z3.BoolVal(e))
                    work.append(('edge', tgt, bid, dict(env), s2, dict(lctx)))
                return
            if op == 'ret':
                self.npaths += 1
                if self.npaths > self.maxpaths: raise Unsupported('too many paths')
                r = self.val(st, env, ins['args'][0]) if ins['args'] else None
                for oid in env['frame']:
                    o = st.mem.get(oid)
                    if o is not None: st.rw(oid).alive = False
                outs.append((st, r)); return
            if op == 'unreachable':
                self.oblige(st, False, 'unreachable', 'unreachable code is not reached')
                raise DropPath()
            if op == 'resume':
                for oid in env['frame']:
                    if st.mem.get(oid) is not None: st.rw(oid).alive = False
                outs.append((st, env['exc'])); return
            if op == 'phi': raise Unsupported('phi in body')
            if op == 'select':
                c = self.boolv(self.val(st, env, ins['args'][0])); a = self.val(st, env, ins['args'][1]); bb = self.val(st, env, ins['args'][2])
                if isinstance(c, bool): env[ins['id']] = a if c else bb; continue
                r = self.ite(st, c, a, bb, ins['ty'])
                if r is not None: env[ins['id']] = r; continue
                ft = self.feasible(st, c); ff = self.feasible(st, z3.Not(c))
                if ft and ff:
                    s2 = st.fork(); s2.pc.append(z3.Not(c)); e2 = dict(env); e2[ins['id']] = bb
                    work.append(('run', bid, i, e2, s2, dict(lctx)))
                    st.pc.append(c); env[ins['id']] = a; continue
                env[ins['id']] = a if ft else bb
                continue
            if op in ('call', 'invoke'):
                outs2 = self.do_call(f, ins, env, st, depth)
                self.curfn = f['dem']
                if 'line' in ins: self.curloc = f"{ins.get('file','?')}:{ins['line']}"
                if any(isinstance(r, Exc) for _, r in outs2):
                    keep = []
                    for s2, r in outs2:
                        if not isinstance(r, Exc): keep.append((s2, r)); continue
                        if op == 'invoke':
                            e2 = dict(env); e2['exc'] = r
                            work.append(('edge', ins['unwind'], bid, e2, s2, dict(lctx)))
                        else:
                            for oid in env['frame']:
                                if s2.mem.get(oid) is not None: s2.rw(oid).alive = False
                            outs.append((s2, r))
                    outs2 = keep
                if not outs2: return
                if op == 'invoke':
                    for s2, r in outs2:
                        e2 = dict(env) if len(outs2) > 1 else env
                        e2[ins['id']] = r
                        work.append(('edge', ins['normal'], bid, e2, s2, dict(lctx)))
                    return
                if len(outs2) == 1:
                    st, r = outs2[0]; env[ins['id']] = r; continue
                for s2, r in outs2:
                    e2 = dict(env); e2[ins['id']] = r
                    work.append(('run', bid, i, e2, s2, dict(lctx)))
                return
            r = self.simple(f, ins, env, st)
            if isinstance(r, tuple) and r and r[0] == 'choice':
                ch = r[1]
                live = [(c, v) for c, v in ch if self.feasible(st, c)]
                for c, v in live:
                    s2 = st.fork(); s2.pc.append(c); e2 = dict(env); e2[ins['id']] = v
                    work.append(('run', bid, i, e2, s2, dict(lctx)))
                return
            env[ins['id']] = r
        raise Unsupported('fell off block')
    def ite(self, st, c, a, b, ty):
        w = tw(ty)
        if ty == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, z3.If(c, a.off, b.off) if not (isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off) else a.off)
            if isinstance(a, OPtr) and isinstance(b, OPtr): return OPtr(z3.If(c, a.t, b.t))
            return None
        if w == 1:
            x, y = self.boolv(a), self.boolv(b)
            return z3.If(c, z3.BoolVal(x) if isinstance(x, bool) else x, z3.BoolVal(y) if isinstance(y, bool) else y)
        if w:
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef): return z3.If(c, self.tobv(st, a, w), self.tobv(st, b, w))
            x, y = self.iv(a, w), self.iv(b, w)
            X = z3.IntVal(x.t) if isinstance(x.t, int) else x.t; Y = z3.IntVal(y.t) if isinstance(y.t, int) else y.t
            return IV(w, z3.If(c, X, Y), min(x.lo, y.lo), max(x.hi, y.hi))
        if ty in self.FS: return FPV(z3.If(c, self.fp(a, ty), self.fp(b, ty)))
        return None
    def do_call(self, f, ins, env, st, depth):
        cal = ins['callee']
        args = [self.val(st, env, a[0]) for a in ins['args']]
        for k, a in enumerate(ins['args']):
            if len(a) > 2:   # byval: copy
                o = self.new_obj(st, 'byval', a[2], 'stack'); p = Ptr(o.id, 0)
                self.memcpy(st, p, args[k], a[2]); args[k] = p
        if cal[0] == 'asm':
            h = self.find_handler('asm', 'asm')
            if h: 
                r = h(self, st, args, {'dem': 'asm', 'asm': cal[1], 'ret': ins['ty']}, ins)
                return r if isinstance(r, list) else [(st, r)]
            raise Unsupported('inline asm')
        if cal[0] == 'g' and cal[1] in self.mod.funcs: name = cal[1]
        else:
            v = self.val(st, env, cal)
            if isinstance(v, Fn): name = v.name
            else:
                h = self.find_handler('indirect-call', 'indirect-call')
                if h:
                    r = h(self, st, args, {'dem': 'indirect-call', 'callee': v, 'ret': ins['ty']}, ins)
                    return r if isinstance(r, list) else [(st, r)]
                raise Unsupported(f'indirect call through {v}')
        return self.call(st, name, args, ins, depth + 1)
    def simple(self, f, ins, env, st):
        op = ins['op']; ty = ins['ty']
        V = lambda x: self.val(st, env, x)
        if op == 'alloca':
            n = V(ins['count'])
            cnt = n.t if isinstance(n, IV) else (n.as_long() if isinstance(n, z3.BitVecRef) else 1)
            size = ins['size'] * cnt
            o = self.new_obj(st, f"{f['dem'].split('(')[0]}.%{ins['id']}", size, 'stack')
            env['frame'] = env['frame'] + [o.id]
            return Ptr(o.id, 0)
        if op == 'load':
            return self.load(st, V(ins['ptr']), ty, ins['size'])
        if op == 'store':
            self.store(st, V(ins['ptr']), V(ins['val']), ins['vty'], ins['size']); return None
        if op == 'getelementptr':
            g = ins['gep']
            if g is None: raise Unsupported('gep')
            return self.gep(st, V(g['base']), g['off'], [(V(v), m) for v, m in g['vars']])
        if op == 'icmp':
            return self.icmp(st, ins['pred'], V(ins['a']), V(ins['b']), ins['oty'])
        if op == 'fcmp':
            x, y = self.fp(V(ins['a']), ins['oty']), self.fp(V(ins['b']), ins['oty']); p = ins['pred']
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y),
                    'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))}
            if p == 'une': return z3.Not(z3.fpEQ(x, y))
            if p == 'uno': return un
            if p == 'ord': return z3.Not(un)
            if p[0] == 'o': return base[p[1:]]
            if p[0] == 'u': return z3.Or(un, base[p[1:]])
            raise Unsupported('fcmp ' + p)
        if op in ('zext', 'sext', 'trunc'):
            v = V(ins['args'][0]); w0 = tw(ins['oty']); w = tw(ty)
            if isinstance(v, z3.BitVecRef):
                if op == 'trunc':
                    r = z3.Extract(w - 1, 0, v)
                    return r == 1 if w == 1 else r
                return z3.ZeroExt(w - w0, v) if op == 'zext' else z3.SignExt(w - w0, v)
            if w0 == 1:
                b = self.boolv(v)
                if self.bv: return z3.If(b if not isinstance(b, bool) else z3.BoolVal(b), z3.BitVecVal(1 if op == 'zext' else -1, w), z3.BitVecVal(0, w))
                if isinstance(b, bool): return IV(w, (1 if op == 'zext' else -1) if b else 0)
                if op == 'zext': return IV(w, z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, b=b)
                return IV(w, z3.If(b, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
            if op == 'trunc':
                if w == 1: return self.boolv(v if isinstance(v, IV) else self.iv(v, w0))
                if isinstance(v, Bits):
                    b = Bits(self.slice(st, v, 0, w)); return b if len(b.parts) > 1 else self.iv(b)
                v = self.iv(v, w0)
                if isinstance(v.t, int): return IV(w, v.t % (1 << w))
                return IV(w, v.t, v.lo, v.hi, b=v.b)
            if isinstance(v, Bits) and op == 'zext': return Bits(v.parts + [(w - w0, 0)])
            v = self.iv(v, w0)
            if op == 'zext':
                if v.lo < 0 and not isinstance(v.t, int) and not self.valid(st, v.t >= 0): return Bits([(w0, v), (w - w0, 0)])
                t = self.u(st, v); l, h = self.ulo(v); return IV(w, t, l, h, b=v.b)
            t = self.s(st, v); l, h = self.slo(v); return IV(w, t, l, h, src=v.src if v.src and v.src[0] == 'srem' else None)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(ins['args'][0]), V(ins['args'][1])
            if op == 'sub' and isinstance(a, IV) and isinstance(b, IV) and a.src and b.src and a.src[0] == 'ptr' == b.src[0]:
                pa, pb = a.src[1], b.src[1]
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj == pb.obj:
                    d = pa.off - pb.off
                    if isinstance(d, int): return IV(64, d)
                    return IV(64, d, -(1 << 62), 1 << 62)
            return self.binop(st, op, a, b, ty, ins)
        if op == 'fneg': return FPV(z3.fpNeg(self.fp(V(ins['args'][0]))))
        if op in ('sitofp', 'uitofp'):
            v = V(ins['args'][0]); w0 = tw(ins['oty'])
            fs = self.FS.get(ty)
            if fs is None: return Undef(ty)
            if isinstance(v, IV) and isinstance(v.t, int): return FPV(z3.FPVal(v.t if op == 'sitofp' else v.t % (1 << w0), fs))
            t = self.s(st, v) if op == 'sitofp' else self.u(st, v)
            if getattr(self, 'on_itofp', None): return self.on_itofp(self, st, t, fs)
            fn = z3.Function(f'{op}_{ty}', z3.IntSort(), fs)
            r = fn(t)
            return FPV(r)
        if op in ('fptosi', 'fptoui'):
            x = self.fp(V(ins['args'][0])); w = tw(ty)
            fn = z3.Function(f'{op}_{ins["oty"]}_{ty}', x.sort(), z3.IntSort())
            hook = getattr(self, 'on_fptosi', None)
            if hook:
                hv = hook(self, st, x, w, op)
                if hv is not None: return hv
            v = IV(w, fn(x), -(1 << (w - 1)) if op == 'fptosi' else 0, (1 << (w - 1)) - 1 if op == 'fptosi' else (1 << w) - 1)
            self.rng(st, v); return v
        if op in ('fpext', 'fptrunc'):
            return FPV(z3.fpToFP(z3.RNE(), self.fp(V(ins['args'][0])), self.FS[ty])) if ty in self.FS else Undef(ty)
        if op == 'bitcast':
            v = V(ins['args'][0]); return self.conv(st, v, ty, 8)
        if op == 'ptrtoint': return self.iv(V(ins['args'][0]))
        if op == 'inttoptr': return self.conv(st, V(ins['args'][0]), 'ptr', 8)
        if op == 'extractvalue':
            a = V(ins['a'])
            for k in ins['idx']:
                a = a.els[k] if isinstance(a, Agg) else Undef()
            if isinstance(a, Undef): a = Undef(ty)
            return a
        if op == 'insertvalue':
            a = V(ins['a']); x = V(ins['b'])
            if isinstance(a, Undef): a = self.zero_agg(ty, undef=True)
            def ins_(a, idx):
                els = list(a.els)
                els[idx[0]] = x if len(idx) == 1 else ins_(els[idx[0]], idx[1:])
                return Agg(els)
            return ins_(a, ins['idx'])
        if op == 'freeze': return V(ins['args'][0])
        if op == 'landingpad':
            x = env.get('exc')
            st.g['exc'] = x.ty; return Agg([x.ptr, IV(32, z3.IntVal(EXC_SEL), EXC_SEL, EXC_SEL)])
        if op == 'fence': return None
        if op == 'atomicrmw':
            p = V(ins['ptr']); old = self.load(st, p, ty, ins['size']); x = V(ins['val']); k = ins['rmw']
            if k == 'xchg': nv = x
            elif k in ('add', 'sub', 'and', 'or', 'xor'): nv = self.binop(st, k, old, x, ty, {})
            else: raise Unsupported('atomicrmw ' + k)
            self.store(st, p, nv, ty, ins['size']); return old
        raise Unsupported(f'instruction {op}')

# ------------------------------------------------------------------ contract plumbing
def ret_undef(eng, st, args, f, inst): return None
