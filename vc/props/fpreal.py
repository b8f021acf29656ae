"""Floating point by the standard model: every operation is exact up to a relative error u = 2^-53 (no overflow or underflow: an assumption of the properties that use it).
A double is c * product(atom^k) * (1+e) + d with |e| <= eps: enough for unit conversions; nothing depends on the order of the operations."""
from ghost import *
from fractions import Fraction as F
U = F(1, 1 << 53)
class Q:
    """c * prod(atoms) * (1 +- eps) + d * (1 +- deps)"""
    def __init__(self, c, atoms=(), eps=F(0), d=F(0), deps=F(0)): self.c = c; self.atoms = tuple(sorted((k, n) for k, n in atoms if n)); self.eps = eps; self.d = d; self.deps = deps
class FpReal:
    def __init__(self, E):
        self.E = E; self.tab = {}; self.keep = []; self.terms = {}; E.fpop = self.op; E.on_itofp = self.itofp; E.on_fptosi = self.toint; E.fr = self
        E.on_first(r'llvm\.fmuladd\.f(64|32)', lambda E, st, a, f, i: self.op(st, 'fadd', self.op(st, 'fmul', a[0], a[1], 'double'), a[2], 'double'))
    def mk(self, q, fs=None):
        v = FPV(z3.FP(fresh_name('real'), z3.Float64() if fs is None else fs)); self.tab[v.t.get_id()] = q; self.keep.append(v.t); return v
    def atom(self, t):
        k = t.sexpr(); self.terms[k] = t; return k
    def q(self, v):
        t = v.t; r = self.tab.get(t.get_id())
        if r is None and z3.is_fp_value(z3.simplify(t)):
            t = z3.simplify(t)
            if t.isNaN() or t.isInf(): raise Unsupported('infinite constant')
            x = z3.simplify(z3.fpToReal(t)); r = Q(F(x.numerator_as_long(), x.denominator_as_long()))
        if r is None: raise Unsupported('floating-point value outside the model')
        return r
    def itofp(self, E, st, t, fs): return self.mk(Q(F(1), ((self.atom(t), 1),), U), fs)
    def op(self, st, op, a, b, ty):
        x, y = self.q(a), self.q(b)
        if op in ('fmul', 'fdiv'):
            if x.d or y.d: raise Unsupported('product of sums')
            at = dict(x.atoms)
            for k, n in y.atoms: at[k] = at.get(k, 0) + (n if op == 'fmul' else -n)
            if op == 'fdiv' and not y.atoms and y.c == 0: raise Unsupported('division by zero')
            if op == 'fdiv':
                for k, n in y.atoms: self.E.oblige(st, self.terms[k] != 0, 'div0', 'the floating-point divisor is not zero')
            e = (1 + x.eps) * (1 + U) * (1 + y.eps if op == 'fmul' else 1 / (1 - y.eps)) - 1
            return self.mk(Q(x.c * y.c if op == 'fmul' else x.c / y.c, tuple(at.items()), e))
        if op in ('fadd', 'fsub'):
            if op == 'fsub': y = Q(-y.c, y.atoms, y.eps, -y.d, y.deps)
            if not x.atoms and not y.atoms: return self.mk(Q(x.c + y.c, (), max(x.eps, y.eps)))
            if not x.atoms: x, y = y, x
            if y.atoms or x.d: raise Unsupported('sum of two variable terms')
            return self.mk(Q(x.c, x.atoms, (1 + x.eps) * (1 + U) - 1, y.c, (1 + y.eps) * (1 + U) - 1))
        raise Unsupported('fp ' + op)
    def real(self, st, q):
        """a real variable equal to c * prod(atoms)"""
        key = (q.c, q.atoms); c = st.g.setdefault('fpreal', {})
        if key in c: return c[key]
        X = z3.Real(fresh_name('X')); num = z3.RealVal(str(q.c)); den = None
        for k, n in q.atoms:
            t = z3.ToReal(self.terms[k])
            for _ in range(abs(n)):
                if n > 0: num = num * t
                else: den = t if den is None else den * t
        st.pc.append(X == num if den is None else X * den == num)
        if all(self.E.valid(st, self.terms[k] >= 0) for k, n in q.atoms) and q.c >= 0: st.pc.append(X >= 0)
        else: raise Unsupported('sign of a product')
        st.g['fpreal'] = {**c, key: X}; return X
    def bounds(self, st, v):
        q = self.q(v); X = self.real(st, q); R = lambda f: z3.RealVal(str(f)); s = 1 if q.d >= 0 else -1
        return X * R(1 - q.eps) + R(q.d * (1 - s * q.deps)), X * R(1 + q.eps) + R(q.d * (1 + s * q.deps)), X
    def toint(self, E, st, x, w, op):
        lo, hi, X = self.bounds(st, FPV(x)); q = self.q(FPV(x))
        E.oblige(st, z3.And(lo > -1, hi < z3.RealVal(1 << (w if op == 'fptoui' else w - 1))), 'fptoint', 'the floating-point value fits the integer type')
        r = z3.Int(fresh_name('trunc')); f = z3.ToReal(r); M = 1 << (w if op == 'fptoui' else w - 1)
        st.pc.append(z3.And(r >= 0, f <= z3.If(hi < 0, 0, hi), f > lo - 1)); E.set_rg(st, r, 0, M - 1)
        return IV(w, r, 0, M - 1)
