from timecommon import *
# the storage calendar: a day number since -32768-01-01 in a calendar whose leap years are exactly the multiples of 4
DN = 'nebula::Date::'
def leap4(C, y): return C.mod(y, 4) == 0
def dby4(C, y): return 365 * (y + 32768) + C.div(y + 32768 + 3, 4)
def dbm4(C, y, m):
    E, st = C.E, C.st
    def tab(lp):
        r = z3.IntVal(DBM[11] + lp)
        for k in range(11, 0, -1): r = z3.If(I(m) == k, z3.IntVal(DBM[k - 1] + (lp if k > 2 else 0)), r)
        return E.table(r, 0, DBM[11] + lp)
    lp = leap4(C, y)
    if E.valid(st, lp): return tab(1)
    if E.valid(st, z3.Not(lp) if not isinstance(lp, bool) else not lp): return tab(0)
    return z3.If(lp, tab(1), tab(0))
def ord4(C, f): return dby4(C, f['year']) + dbm4(C, f['year'], f['month']) + f['day'] - 1
def valid4(C, f):
    y, m, d = f['year'], f['month'], f['day']
    return And(I(y) >= -32768, I(y) <= 32767, I(m) >= 1, I(m) <= 12, I(d) >= 1, I(d) <= If(I(m) == 2, If(leap4(C, y), 29, 28), If(Or(I(m) == 4, I(m) == 6, I(m) == 9, I(m) == 11), 30, 31)))
NMAX = 65536 * 365 + 16384          # days in the whole range
PERIOD = NMAX                       # an int16 year wraps after 65536 years
def arb4(E, st, nm):
    p = new_struct(E, st, 'd', nm); f = arb_fields(E, st, 'd', nm, valid=False)
    st.pc.append(valid4(Cal(E, st), f)); put(E, st, 'd', p, f)
    return p, f
class ToInt(Contract):
    dem = DN + 'toInt() const'
    def handler(self):
        def h(E, st, a, f, inst):
            x = get(E, st, 'd', a[0]); C = Cal(E, st)
            E.oblige(st, valid4(C, x), 'precondition', 'toInt is called on a valid date')
            E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
            t = ord4(C, x); c, d = E.lin(t)
            return IV(64, E.unlin(c, d), 0, NMAX)
        return h
def u_toint(E):
    st = State(); p, f = arb4(E, st, 'a'); freeze(st, p)
    outs = E.exec_fn(st, E.mod.find(ToInt.dem), [p])
    returned(E, outs, lambda s2, r: [('the ordinal is the number of days since -32768-01-01', E.s(s2, r) == ord4(Cal(E, s2), f))], ToInt.dem)
class FromInt(Contract):
    dem = DN + 'fromInt(long)'
    def loops(self, E):
        def cands(E, env, st, vs, init):
            out = []
            for p, v in vs:
                if not isinstance(v, (IV, Bits)): continue
                w = E.iv(v).w; t = E.s(st, v)
                if w in (32, 64): out += [(f'v{p} in [{lo},{hi}]', And(I(t) >= lo, I(t) <= hi), (t, lo, hi)) for lo, hi in ((-20000, 366), (-100000, 100000))]
                if p in init and isinstance(init[p], (IV, Bits)): out += [(f'v{p} <= its initial value', I(t) <= E.s(st, init[p])), (f'v{p} within 60 of its initial value', And(I(t) >= E.s(st, init[p]) - 60))]
            C = Cal(E, st); iv = [(p, v) for p, v in vs if isinstance(v, (IV, Bits))]
            out += [(f'v{p} <= length of the year v{q}', I(E.s(st, v)) <= 365 + If(leap4(C, E.s(st, w)), 1, 0)) for p, v in iv for q, w in iv if p != q and E.iv(v).w >= 32]
            return out
        def measures(E, st, vs): return [(f'400 - v{p}', 400 - E.s(st, v)) for p, v in vs if isinstance(v, (IV, Bits))]
        def defs(E, vs):
            iv = [(p, v) for p, v in vs if isinstance(v, (IV, Bits)) and E.iv(v).w >= 16]
            out = []
            for p, v in iv:
                for q, w in iv:
                    if p == q or E.iv(v).w < 32: continue
                    pw = E.iv(v).w
                    def val(E, st, env, init, p=p, q=q, pw=pw):
                        C = Cal(E, st); y0, y = E.s(st, init[q]), E.s(st, env[q])
                        t = E.s(st, init[p]) + dby4(C, y0) - dby4(C, y)
                        wrapped = I(y) > y0
                        if not E.valid(st, z3.Not(wrapped)): t = t + z3.If(wrapped, z3.IntVal(PERIOD), z3.IntVal(0))
                        if isinstance(t, int): return IV(pw, t)
                        c, d = E.lin(t)
                        return IV(pw, E.unlin(c, d), -(1 << 62) if pw == 64 else -(1 << 31), (1 << 62) if pw == 64 else (1 << 31) - 1)
                    def cond(E, st, env, init, p=p, val=val): return I(E.s(st, env[p])) == val(E, st, env, init).t
                    out.append((p, q, val, f'v{p} + days before the year v{q} is constant (years modulo 2^16)', cond))
            return out
        def mk(E, f, idx, bid, blocks, env, st):
            if 'fromInt' not in f['dem'] and 'Date' not in f['dem']: return None
            if st.g.get(('loopspec', bid)) is not None: return st.g[('loopspec', bid)] or None
            # the year loop tests divisibility by 4 and adds a year's length; the month loop reads the day tables
            tab = any('DaysSoFar' in json.dumps(i) for b in f['blocks'] if b['id'] in blocks for i in b['insts'])
            if tab: return None
            sp = loops.Houdini(cands, measures, defs=defs); st.g[('loopspec', bid)] = sp
            return sp
        E.loopspecs.append((re.compile('.*'), mk))
    def __init__(self, lo=0, hi=NMAX - 1): self.lo = lo; self.hi = hi
    def verify(self, E):
        st = State(); self.loops(E)
        p = new_struct(E, st, 'd', 'result'); get(E, st, 'd', p)
        n = z3.Int('days'); st.pc.append(z3.And(n >= self.lo, n <= self.hi)); E.set_rg(st, n, self.lo, self.hi)
        put(E, st, 'd', p, arb_fields(E, st, 'd', 'old', valid=False))
        outs = E.exec_fn(st, E.mod.find(self.dem), [p, IV(64, n, self.lo, self.hi)])
        def post(s2, r):
            f = get(E, s2, 'd', p); C = Cal(E, s2)
            return [('the result is a date of the storage calendar', valid4(C, f)), ('its ordinal is the argument', ord4(C, f) == n)]
        returned(E, outs, post, self.dem)
    def handler(self):
        def h(E, st, a, f, inst):
            n = E.s(st, a[1])
            E.oblige(st, And(I(n) >= 0, I(n) < NMAX), 'precondition', 'fromInt is called with an ordinal in range')
            nm = fresh_name('fi'); x = arb_fields(E, st, 'd', nm, valid=False); C = Cal(E, st)
            st.pc.append(valid4(C, x)); st.pc.append(ord4(C, x) == n); put(E, st, 'd', a[0], x)
            E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
            return None
        return h
def u_arith(root, sign, label):
    def u(E):
        st = State(); ToInt().install(E); FromInt().install(E)
        p = new_struct(E, st, 'd', 'result'); a, f = arb4(E, st, 'a'); freeze(st, a)
        n = z3.Int('n'); C = Cal(E, st); t = ord4(C, f) + sign * n
        st.pc.append(z3.And(n >= -NMAX, n <= NMAX, t >= 0, t < NMAX)); E.set_rg(st, n, -NMAX, NMAX)
        outs = E.exec_fn(st, E.mod.find(root), [p, a, IV(64, n, -NMAX, NMAX)])
        def post(s2, r):
            g = get(E, s2, 'd', p); C = Cal(E, s2)
            return [('the result is a date', valid4(C, g)), ('its ordinal is the exact sum', ord4(C, g) == ord4(C, f) + sign * n)]
        returned(E, outs, post, label)
    return u
def u_inject(E):
    """the ordinal determines the date and respects the order (over the contract of toInt)"""
    st = State(); a, f = arb4(E, st, 'a'); b, g = arb4(E, st, 'b'); freeze(st, a, b)
    C = Cal(E, st); ta, tb = ord4(C, f), ord4(C, g)
    outs = E.exec_fn(st, E.mod.find('vc_d_lt'), [a, b])
    returned(E, outs, lambda s2, r: [('a < b exactly when the ordinal of a is smaller', E.boolv(r) == (ord4(Cal(E, s2), f) < ord4(Cal(E, s2), g)))], DN + 'operator<(nebula::Date const&) const')
class PROP(Property):
    id = 'C04'
    budget = 600
    assumptions = ['dates are valid in the storage calendar (every year divisible by 4 is a leap year); ordinals lie in the range of a 16-bit year',
                   'narrowing conversion to a 16-bit year is modulo 2^16 (gcc, clang)']
    def units(self):
        mk = engine(); B = 65535 * 365 - 1
        return [('Date::toInt', mk, u_toint), ('Date::fromInt', mk, lambda E: FromInt(0, B - 1).verify(E)), ('Date::fromInt[last years]', mk, lambda E: FromInt(B, NMAX - 1).verify(E)),
                ('Date::operator+', mk, u_arith('vc_d_plus', 1, DN + 'operator+(long) const')), ('Date::operator-', mk, u_arith('vc_d_minus', -1, DN + 'operator-(long) const')),
                ('order', mk, u_inject)]
    search = search_time('ordinal')
