"""Mathematical calendar: the oracle. Proleptic Gregorian calendar over unbounded integers."""
import z3
DBM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
def I(x): return z3.IntVal(x) if isinstance(x, int) else x
def And(*a): return z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in a])
def Or(*a): return z3.Or(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in a])
def If(c, a, b): return (a if c else b) if isinstance(c, bool) else z3.If(c, I(a), I(b))
class Cal:
    """floor division is introduced by definition in the state st (E.fdiv): q with k*q <= t < k*q+k"""
    def __init__(self, E, st): self.E = E; self.st = st
    def div(self, t, k): return self.E.fdiv(self.st, t, k)
    def mod(self, t, k): return self.E.fmod(self.st, t, k)
    def leap(self, y): return And(self.mod(y, 4) == 0, Or(self.mod(y, 100) != 0, self.mod(y, 400) == 0))
    def leaps(self, n): return self.div(n, 4) - self.div(n, 100) + self.div(n, 400)
    def days_before_year(self, y): return 365 * (y - 1970) + self.leaps(y - 1) - (1969 // 4 - 1969 // 100 + 1969 // 400)
    def days_before_month(self, y, m):
        def tab(lp):
            r = z3.IntVal(DBM[11] + lp)
            for k in range(11, 0, -1): r = z3.If(I(m) == k, z3.IntVal(DBM[k - 1] + (lp if k > 2 else 0)), r)
            return self.E.table(r, 0, DBM[11] + lp)
        lp = self.leap(y)
        if self.E.valid(self.st, lp): return tab(1)
        if self.E.valid(self.st, z3.Not(lp)): return tab(0)
        return z3.If(lp, tab(1), tab(0))
    def dim(self, y, m):
        return If(I(m) == 2, If(self.leap(y), 29, 28), If(Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
    def days(self, y, m, d): return self.days_before_year(y) + self.days_before_month(y, m) + d - 1
    def unix(self, y, m, d, H=0, M=0, S=0): return self.days(y, m, d) * 86400 + H * 3600 + M * 60 + S
    def valid_date(self, y, m, d): return And(I(m) >= 1, I(m) <= 12, I(d) >= 1, I(d) <= self.dim(y, m))
    def valid_time(self, H, M, S): return And(I(H) >= 0, I(H) < 24, I(M) >= 0, I(M) < 60, I(S) >= 0, I(S) < 60)
def year_term(E, st, nm):
    """an arbitrary int16 year, named by its (unique) decomposition y = 400q + 100c + 4b + a"""
    q, c, b, a = (z3.Int(f'{nm}.{x}') for x in ('q400', 'c100', 'b4', 'a1'))
    for v, lo, hi in ((q, -82, 81), (c, 0, 3), (b, 0, 24), (a, 0, 3)):
        st.pc.append(z3.And(v >= lo, v <= hi)); E.set_rg(st, v, lo, hi)
    y = 400 * q + 100 * c + 4 * b + a
    st.pc.append(z3.And(y >= -32768, y <= 32767))
    return y
def py_unix(y, m, d, H=0, M=0, S=0):
    f = lambda n: n // 4 - n // 100 + n // 400
    lp = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    dy = 365 * (y - 1970) + f(y - 1) - f(1969)
    dm = DBM[m - 1] + (1 if lp and m > 2 else 0)
    return (dy + dm + d - 1) * 86400 + H * 3600 + M * 60 + S
UMIN = py_unix(-32768, 1, 1); UMAX = py_unix(32767, 12, 31, 23, 59, 59)
