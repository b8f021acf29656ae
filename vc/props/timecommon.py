from framework import *
from timespec import *
import loops
NS = 'nebula::time::TimeConversion::'
DIFF = NS + 'dateTimeDiffSeconds(nebula::DateTime const&, nebula::DateTime const&)'
TOUNIX = NS + 'dateTimeToUnixSeconds(nebula::DateTime const&)'
FROMUNIX = NS + 'unixSecondsToDateTime(long)'
DTF = ('year', 'month', 'day', 'hour', 'minute', 'sec', 'microsec')
DF = ('year', 'month', 'day')
TF = ('hour', 'minute', 'sec', 'microsec')
RANGE = dict(month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), sec=(0, 59), microsec=(0, 999999))
W = dict(year=16, month=8, day=8, hour=8, minute=8, sec=8, microsec=32)
KIND = dict(dt=DTF, d=DF, t=TF)

_js = {}
def module():
    if 'm' not in _js:
        _js['m'] = compile_ir([SRC + 'time/TimeConversion.cpp', SRC + 'datatypes/Date.cpp', VERIF + '/harness/time_driver.cpp'], 'time')
    return _js['m']
def engine(**k): return std_engine(module(), timeout_ms=60000, **k)

def call(E, st, name, args):
    """run a harness accessor on the current memory; single path"""
    E.quiet_call = True
    outs = E.exec_fn(st, E.mod.find(name), args)
    if len(outs) != 1: raise Unsupported(f'{name} has {len(outs)} paths')
    return outs[0]
def new_struct(E, st, kind, nm):
    sz = E.u(st, call(E, st, f'vc_{kind}_size', [])[1])
    o = E.new_obj(st, nm, sz, 'stack')
    return Ptr(o.id, 0)
def arb_fields(E, st, kind, nm, valid=True):
    """arbitrary field values in the ranges of the fields"""
    f = {}
    for k in KIND[kind]:
        if k == 'year': v = year_term(E, st, nm)
        else:
            v = z3.Int(f'{nm}.{k}'); lo, hi = RANGE[k]
            st.pc.append(z3.And(v >= lo, v <= hi)); E.set_rg(st, v, lo, hi)
        f[k] = v
    if valid and 'year' in f: st.pc.append(Cal(E, st).valid_date(f['year'], f['month'], f['day']))
    return f
def put(E, st, kind, p, f):
    vals = [p] + [IV(W[k], f[k], *((-32768, 32767) if k == 'year' else RANGE[k])) for k in KIND[kind]]
    E.quiet += 1
    try: call(E, st, f'vc_{kind}_make', vals)
    finally: E.quiet -= 1
def arb(E, st, kind, nm, valid=True):
    p = new_struct(E, st, kind, nm); f = arb_fields(E, st, kind, nm, valid)
    put(E, st, kind, p, f)
    return p, f
def get(E, st, kind, p):
    E.quiet += 1
    try: return {k: E.s(st, call(E, st, f'vc_{kind}_{k}', [p])[1]) for k in KIND[kind]}
    finally: E.quiet -= 1
def freeze(st, *ps):
    for p in ps: st.rw(p.obj).ro = True
def unix_of(C, f): return C.unix(f['year'], f['month'], f['day'], f.get('hour', 0), f.get('minute', 0), f.get('sec', 0))
def seconds_arg(E, st, nm, lo, hi):
    v = z3.Int(nm); st.pc.append(z3.And(v >= lo, v <= hi)); E.set_rg(st, v, lo, hi)
    return IV(64, v, lo, hi)
SPLITS = dict(nonneg=((0, UMAX // 86400), (0, 86399)), neg_r=((UMIN // 86400, -1), (1, 86399)), neg_0=((UMIN // 86400, -1), (0, 0)))
def split_seconds(E, st, nm, case):
    """an arbitrary instant, named by its unique decomposition 86400 D + R; the three cases cover all instants"""
    t = 0
    for k, m, (lo, hi) in zip('DR', (86400, 1), SPLITS[case]):
        if lo == hi: t = t + m * lo; continue
        v = z3.Int(f'{nm}.{k}'); st.pc.append(z3.And(v >= lo, v <= hi)); E.set_rg(st, v, lo, hi); t = t + m * v
    return IV(64, t, UMIN, UMAX)
def epoch_setup(E, st):
    """run the real dynamic initialisers of TimeConversion.cpp"""
    for n, f in E.mod.funcs.items():
        if f['dem'].startswith('_GLOBAL__sub_I') and not f['decl']:
            E.quiet += 1
            try: call(E, st, f['dem'], [])
            finally: E.quiet -= 1

# --------------------------------------------------------------- contracts
class Diff(Contract):
    """dateTimeDiffSeconds(a, b) == unix(a) - unix(b) for all valid a, b"""
    dem = DIFF
    def make(self, E, st):
        self.pa, self.fa = arb(E, st, 'dt', 'a'); self.pb, self.fb = arb(E, st, 'dt', 'b')
        freeze(st, self.pa, self.pb)
        return [self.pa, self.pb]
    def post(self, E, st, a, old, ret):
        C = Cal(E, st)
        return [('result = seconds from the second to the first instant in the proleptic Gregorian calendar',
                 E.s(st, ret) == unix_of(C, self.fa) - unix_of(C, self.fb))]
    # at call sites
    def handler(self):
        def h(E, st, a, f, inst):
            C = Cal(E, st); fs = [get(E, st, 'dt', p) for p in a]
            for k, x in enumerate(fs):
                E.oblige(st, And(C.valid_date(x['year'], x['month'], x['day']), C.valid_time(x['hour'], x['minute'], x['sec'])), 'precondition', f'argument {k} of dateTimeDiffSeconds is a valid date-time')
            E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
            t = unix_of(C, fs[0]) - unix_of(C, fs[1])
            if isinstance(t, z3.ExprRef): c, d = E.lin(t); t = E.unlin(c, d)
            return IV(64, t, -(1 << 42), 1 << 42)
        return h

class FromUnix(Contract):
    """unixSecondsToDateTime(s): the unique valid date-time with unix == s and microsec == 0"""
    dem = FROMUNIX
    def __init__(self, case='nonneg'): self.case = case
    def setup(self, E, st):
        def cands(E, env, st2, phis, init):
            C = Cal(E, st2); out = []
            iv = [(p, v) for p, v in phis if isinstance(v, (IV, Bits)) and E.iv(v).w == 64]
            for p, v in iv:
                t = E.s(st2, v)
                for lo, hi in ((0, 86399), (-33000, 1970), (1970, 33000), (-33000, 33000), (-(1 << 25), 1 << 25)):
                    out.append((f'v{p} in [{lo},{hi}]', And(I(t) >= lo, I(t) <= hi), (t, lo, hi)))
            return out
        def measures(E, st2, phis):
            out = []
            for p, v in phis:
                if isinstance(v, (IV, Bits)):
                    t = E.s(st2, v); out.append((f'|v{p}|', If(t >= 0, t, -t) if not isinstance(t, int) else abs(t)))
            return out
        def defs(E, phis):
            iv = [(p, v) for p, v in phis if isinstance(v, (IV, Bits)) and E.iv(v).w == 64]
            out = []
            for p, v in iv:
                for q, w in iv:
                    if p == q: continue
                    def val(E, st2, env, init, p=p, q=q):
                        C = Cal(E, st2)
                        t = E.s(st2, init[p]) + C.days_before_year(E.s(st2, init[q])) - C.days_before_year(E.s(st2, env[q]))
                        c, d = E.lin(t) if not isinstance(t, int) else (t, {})
                        return IV(64, E.unlin(c, d), -(1 << 62), 1 << 62)
                    def cond(E, st2, env, init, p=p, q=q, val=val):
                        return E.s(st2, env[p]) == val(E, st2, env, init).t
                    out.append((p, q, val, f'v{p} + days_before_year(v{q}) is constant', cond))
            return out
        def mk(E, f, idx, bid, blocks, env, st2):
            if not re.fullmatch(r'.*unixSecondsToDateTime.*', f['dem']): return None
            if st2.g.get(('loopspec', bid)): return st2.g[('loopspec', bid)]
            # only the loop that cannot be unrolled: decided by whether its trip count is bounded by a small constant
            if not self.is_year_loop(E, f, bid, env): return None
            st2.g[('loopspec', bid)] = sp = loops.Houdini(cands, measures, defs=defs)
            return sp
        E.loopspecs.append((re.compile('.*'), mk))
    def is_year_loop(self, E, f, bid, env):
        # the loop (or something it calls) divides by a day count: sdiv/srem by 365 or 366
        idx, blocks = f['lheads'][bid]
        for b in f['blocks']:
            if b['id'] in blocks:
                for i in b['insts']:
                    if i['op'] in ('sdiv', 'srem'): return True
        return False
    def make(self, E, st):
        self.s = split_seconds(E, st, 'seconds', self.case)
        self.r = new_struct(E, st, 'dt', 'result')
        return [self.r, self.s]
    def verify(self, E):
        st = State(); self.setup(E, st)
        a = self.make(E, st)
        E.covers = getattr(E, 'covers', 0) + 1
        outs = E.exec_fn(st, E.mod.find('vc_unixSecondsToDateTime'), a)
        E.curfn = FROMUNIX; E.curloc = ''
        for s2, r in outs:
            if isinstance(r, Exc): self._ob(E, s2, 'no exception', False); continue
            for n, c in self.facts(E, s2, get(E, s2, 'dt', self.r), E.s(s2, self.s)): self._ob(E, s2, n, c)
        E.verified = getattr(E, 'verified', []) + [FROMUNIX]
    def facts(self, E, st, f, s):
        C = Cal(E, st)
        return [('the month and day exist in the proleptic Gregorian calendar', C.valid_date(f['year'], f['month'], f['day'])),
                ('hour, minute and second are in range', C.valid_time(f['hour'], f['minute'], f['sec'])),
                ('microsecond is zero', I(f['microsec']) == 0),
                ('the result denotes the given instant', unix_of(C, f) == s)]
    def handler(self):
        def h(E, st, a, f, inst):
            s = E.s(st, a[-1])
            E.oblige(st, And(I(s) >= UMIN, I(s) <= UMAX), 'precondition', 'the instant is within the range of a 16-bit year')
            nm = fresh_name('fu'); fl = arb_fields(E, st, 'dt', nm)
            for n, c in self.facts(E, st, fl, s): E.assume(st, c)
            fl['microsec'] = 0
            p = new_struct(E, st, 'dt', nm); put(E, st, 'dt', p, fl)
            E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
            st.g['last_fromunix'] = fl
            return E.load(st, p, 'i64', 8)
        return h

class Wrapper:
    """verifies one harness root (a thin public inline function) against fields -> facts"""
def returned(E, outs, fn, label):
    E.curfn = label; E.curloc = ''
    n = 0
    for s2, r in outs:
        if isinstance(r, Exc):
            try: E.oblige(s2, False, 'postcondition', 'no exception leaves ' + label)
            except DropPath: pass
            continue
        n += 1
        for nm, c in fn(s2, r):
            try: E.oblige(s2, c, 'postcondition', nm)
            except DropPath: pass
    if not n and not any(o.status != 'discharged' for o in E.obligs): raise Unsupported('vacuous: no path of %s returns' % label)
    E.verified = getattr(E, 'verified', []) + [label]
def search_time(mode):
    def search(self, failed, tier):
        prog = build_replay([VERIF + '/harness/time_search.cpp', SRC + 'time/TimeConversion.cpp', SRC + 'datatypes/Date.cpp', VERIF + '/shim/folly_shim.cpp'], 'time_search',
                            ['-fsanitize=undefined', '-fno-sanitize-recover=undefined'])
        args = []
        for o in failed:
            if o.get('model'): args.append(' '.join(f'{k}={v}' for k, v in o['model'].items() if re.fullmatch(r'-?\d+', str(v))))
        return run_search(prog, [mode, tier] + args[:6], timeout=300)
    return search
