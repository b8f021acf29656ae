from C21_logic import *
from C20_compare import two, NUM
MIN, MAX = -(1 << 63), (1 << 63) - 1
def first_null(a, b):
    """null and empty propagation: the left null, else the right null, else empty"""
    if a[0] == 'Null': return [(True, *a)]
    if b[0] == 'Null': return [(True, *b)]
    if 'Empty' in (a[0], b[0]): return EMPTY
    return None
def I64(E, st, v): return E.s(st, v[1][1][0])
def exact(x):
    """the exact integer or overflow"""
    g = z3.And(x >= MIN, x <= MAX); return [(g, 'Int', ('Int', (IV(64, x, MIN, MAX),))), (z3.Not(g), *null(4))]
def flt(t): return [(True, 'Float', ('Float', (FPV(t),)))]
def fuf(E, st, op, x, y): return E.fpop(st, op, FPV(x), FPV(y), 'double').t
def nums(a, b): return a[0] in NUM and b[0] in NUM
def D(E, st, v): return dbl(E, st, v[1])
def date_plus(E, st, c, n):
    t = cid(E, st, c) + [n]; r = [uf(f'Date.plus.{x}', t, I) for x in 'ymd']
    for x, (lo, hi) in zip(r, RNG['Date']): st.pc.append(z3.And(x >= lo, x <= hi))
    return ('Date', tuple(IV(w, x, lo, hi) for x, w, (lo, hi) in zip(r, (16, 8, 8), RNG['Date'])))
def date_minus(E, st, c, n):
    t = cid(E, st, c) + [n]; r = [uf(f'Date.minus.{x}', t, I) for x in 'ymd']
    for x, (lo, hi) in zip(r, RNG['Date']): st.pc.append(z3.And(x >= lo, x <= hi))
    return ('Date', tuple(IV(w, x, lo, hi) for x, w, (lo, hi) in zip(r, (16, 8, 8), RNG['Date'])))
def date_days(E, st, c):
    t = uf('Date.toInt', cid(E, st, c), I); st.pc.append(z3.And(t >= 0, t <= 24000000)); return t
def setup_dates(E):
    def packed(fn):
        def h(E, st, a, f, i):
            c = fn(E, st, observe(E, st, 'Date', a[0]), E.s(st, a[1])); p = obj(E, st, 'date', 4); quiet(E, st, 'vc_mk_Date', p, *c[1]); return E.load(st, p, 'i32', 4)
        return h
    E.on_first(r'nebula::Date::operator\+\(long\) const', packed(date_plus)); E.on_first(r'nebula::Date::operator-\(long\) const', packed(date_minus))
    E.on_first(r'nebula::Date::toInt\(\) const', lambda E, st, a, f, i: IV(64, date_days(E, st, observe(E, st, 'Date', a[0])), 0, 24000000))
    E.on_first(r'fmodl?', lambda E, st, a, f, i: E.fpop(st, 'frem', a[0], a[1], 'double'))
    E.assumed.append('Date + days, Date - days and Date::toInt are functions of their operands (what they compute: C04)')
SCAL = ('Bool', 'Int', 'Float', 'Date', 'Time', 'DateTime')
def listelt(v): return ('one', v[0], v[1])
def spec_add(E, st, a, b):
    n = first_null(a, b)
    if n: return n
    if nums(a, b):
        if a[0] == b[0] == 'Int': return exact(I64(E, st, a) + I64(E, st, b))
        return flt(fuf(E, st, 'fadd', D(E, st, a), D(E, st, b)))
    if 'DataSet' in (a[0], b[0]): return [num(3)]
    if a[0] == 'List' and b[0] == 'List': return [(True, 'List', ('List', ('seq', seq(a[1][1]) + seq(b[1][1]))))]
    if a[0] == 'List': return [(True, 'List', ('List', ('seq', seq(a[1][1]) + (listelt(b),))))]
    if b[0] == 'List': return [(True, 'List', ('List', ('seq', (listelt(a),) + seq(b[1][1]))))]
    if 'Str' in (a[0], b[0]) and {a[0], b[0]} <= set(SCAL) | {'Str'}:
        out = []
        def alts(v):
            if v[0] != 'Bool': return [(True, textof(E, st, v[1]))]
            return [(b_of(v), stdlib.lit_rope(b'true')), (z3.Not(b_of(v)), stdlib.lit_rope(b'false'))]
        for g, x in alts(a):
            for h, y in alts(b): out.append((z3.simplify(z3.And(zb(g), zb(h))), 'Str', ('Str', list(x) + list(y))))
        return [(True if z3.is_true(g) else g, k, c) for g, k, c in out]
    if a[0] == 'Date' and b[0] == 'Int': return [(True, 'Date', date_plus(E, st, a[1], I64(E, st, b)))]
    if a[0] == 'Int' and b[0] == 'Date': return [(True, 'Date', date_plus(E, st, b[1], I64(E, st, a)))]
    return [num(3)]
def spec_sub(E, st, a, b):
    n = first_null(a, b)
    if n: return n
    if nums(a, b):
        if a[0] == b[0] == 'Int': return exact(I64(E, st, a) - I64(E, st, b))
        return flt(fuf(E, st, 'fsub', D(E, st, a), D(E, st, b)))
    if a[0] == 'Date' and b[0] == 'Int': return [(True, 'Date', date_minus(E, st, a[1], I64(E, st, b)))]
    if a[0] == b[0] == 'Date': return [(True, 'Int', ('Int', (IV(64, date_days(E, st, a[1]) - date_days(E, st, b[1]), MIN, MAX),)))]
    return [num(3)]
def spec_mul(E, st, a, b):
    n = first_null(a, b)
    if n: return n
    if not nums(a, b): return [num(3)]
    if a[0] == b[0] == 'Int': return exact(I64(E, st, a) * I64(E, st, b))
    return flt(fuf(E, st, 'fmul', D(E, st, a), D(E, st, b)))
def quot(x, y):
    """C++ division of exact integers: truncation toward zero"""
    q = z3.If(x >= 0, x, -x) / z3.If(y >= 0, y, -y); return z3.If((x >= 0) == (y >= 0), q, -q)
def zero(E, st, b): return I64(E, st, b) == 0 if b[0] == 'Int' else z3.Not(z3.fpGT(z3.fpAbs(D(E, st, b)), EPS))
def spec_div(E, st, a, b):
    n = first_null(a, b)
    if n: return n
    if not nums(a, b): return [num(3)]
    z = zero(E, st, b)
    if a[0] == b[0] == 'Int':
        x, y = I64(E, st, a), I64(E, st, b); q = z3.Int('quotient'); ov = z3.And(x == MIN, y == -1); g = z3.And(z3.Not(z), z3.Not(ov))
        return [(z, *null(6)), (z3.And(z3.Not(z), ov), *null(4)), (g, 'Int', ('Int', (IV(64, quot(x, y), MIN, MAX),)))]
    return [(z, *null(6)), (z3.Not(z), 'Float', ('Float', (FPV(fuf(E, st, 'fdiv', D(E, st, a), D(E, st, b))),)))]
def spec_mod(E, st, a, b):
    n = first_null(a, b)
    if n: return n
    if not nums(a, b): return [num(3)]
    z = zero(E, st, b)
    if a[0] == b[0] == 'Int':
        x, y = I64(E, st, a), I64(E, st, b)
        return [(z, *null(6)), (z3.Not(z), 'Int', ('Int', (IV(64, x - y * quot(x, y), MIN, MAX),)))]
    return [(z, *null(6)), (z3.Not(z), 'Float', ('Float', (E.fpop(st, 'frem', FPV(D(E, st, a)), FPV(D(E, st, b)), 'double'),)))]
def spec_bit(op):
    def f(E, st, a, b):
        n = first_null(a, b)
        if n: return n
        if not (a[0] == b[0] == 'Int'): return [num(3)]
        x, y = I64(E, st, a), I64(E, st, b)
        return [(True, 'Int', ('Int', (IV(64, bitop(E, st, op, x, y), MIN, MAX),)))]
    return f
def bitop(E, st, op, x, y):
    a, b = z3.Int2BV(x, 64), z3.Int2BV(y, 64); return z3.BV2Int({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], True)
def spec_neg(E, st, a):
    if a[0] in ('Null', 'Empty'): return [(True, *a)]
    if a[0] == 'Int': return exact(-I64(E, st, a))
    if a[0] == 'Float': return flt(z3.fpNeg(D(E, st, a)))
    return [num(3)]
AOPS = dict(add=('operator+', spec_add), sub=('operator-', spec_sub), mul=('operator*', spec_mul), div=('operator/', spec_div), mod=('operator%', spec_mod),
            band=('operator&', spec_bit('and')), bor=('operator|', spec_bit('or')), bxor=('operator^', spec_bit('xor')))
def aengine():
    mk0 = value_engine(rope=True)
    def mk():
        E = mk0(); float_hooks(E); setup_text(E); setup_list(E); setup_dates(E); E.fp_uf = True
        E.assumed.append('+ - * / and fmod on doubles are the IEEE operations of the hardware and libm (not unfolded)')
        return E
    return mk
class PROP(Property):
    id = 'C19'; budget = 600
    assumptions = [LOGNOTE]
    def units(self):
        mk = aengine()
        us = [('negation', mk, unop('neg', 'operator-(Value const&)', spec_neg))]
        for op in AOPS: us += [(f'{AOPS[op][0]} [{ks[0]}..]', mk, binop(op, ks, AOPS)) for ks in (KINDS[:3], KINDS[3:4], KINDS[4:])]
        return us
    search = search_prog(VSRC, 'value_ops_search', ['arith'])
