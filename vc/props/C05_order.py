from timecommon import *
LAB = dict(dt='nebula::DateTime', d='nebula::Date', t='nebula::Time')
def fields(E, st, kind, nm):
    return arb_fields(E, st, kind, nm)
def lex(f, g, ks):
    r = z3.BoolVal(False)
    for k in reversed(ks): r = z3.Or(I(f[k]) < I(g[k]), z3.And(I(f[k]) == I(g[k]), r))
    return r
def alleq(f, g, ks): return And(*[I(f[k]) == I(g[k]) for k in ks])
def u_cmp(kind):
    def u(E):
        st = State(); pa, fa = arb(E, st, kind, 'a'); pb, fb = arb(E, st, kind, 'b'); freeze(st, pa, pb)
        s1 = st.fork()
        outs = E.exec_fn(s1, E.mod.find(f'vc_{kind}_lt'), [pa, pb])
        returned(E, outs, lambda s2, r: [('a < b exactly when a comes before b, field by field from the most significant', E.boolv(r) == lex(fa, fb, KIND[kind]))], LAB[kind] + '::operator<')
        outs = E.exec_fn(st.fork(), E.mod.find(f'vc_{kind}_eq'), [pa, pb])
        returned(E, outs, lambda s2, r: [('a == b exactly when all fields are equal', E.boolv(r) == alleq(fa, fb, KIND[kind]))], LAB[kind] + '::operator==')
        # the field order is the chronological order
        if kind != 't':
            s3 = st.fork(); C = Cal(E, s3)
            ks = [k for k in KIND[kind] if k != 'microsec']; ds = [k for k in ks if k in ('year', 'month', 'day')]; E.curfn = 'lemma over the calendar'
            da, db = C.days(*[fa[k] for k in ds]), C.days(*[fb[k] for k in ds])
            E.oblige(s3, z3.Implies(lex(fa, fb, ds), da + 1 <= db), 'lemma', 'an earlier date is at least one day before a later date', assume=False)
            E.oblige(s3, z3.Implies(alleq(fa, fb, ds), da == db), 'lemma', 'equal dates are the same day', assume=False)
            # the rest is arithmetic over the number of the day
            s4 = st.fork(); s4.pc = []; na, nb = z3.Int('day.a'), z3.Int('day.b')
            for f in (fa, fb):
                for k in ks:
                    if k not in ds: s4.pc += [I(f[k]) >= 0, I(f[k]) <= (23 if k == 'hour' else 59)]
            s4.pc += [z3.Implies(lex(fa, fb, ds), na + 1 <= nb), z3.Implies(alleq(fa, fb, ds), na == nb)]
            sec = lambda n, f: n * 86400 + f.get('hour', 0) * 3600 + f.get('minute', 0) * 60 + f.get('sec', 0)
            E.oblige(s4, z3.Implies(lex(fa, fb, ks), sec(na, fa) < sec(nb, fb)), 'lemma', 'earlier by fields means earlier on the time line', assume=False)
            E.oblige(s4, z3.Implies(alleq(fa, fb, ks), sec(na, fa) == sec(nb, fb)), 'lemma', 'equal fields denote the same instant', assume=False)
    return u
def u_hash(kind):
    def u(E):
        F = z3.Function('fnv', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        def h(E, st, a, f, inst):
            n = E.iv(a[1]).t
            if not isinstance(n, int): raise Unsupported('hash of a symbolic number of bytes')
            v = E.u(st, E.load(st, a[0], f'i{8 * n}', n)); seed = E.u(st, a[2])
            r = F(I(n), I(v), I(seed)); st.pc.append(z3.And(r >= 0, r < (1 << 64)))
            return IV(64, r, 0, (1 << 64) - 1)
        E.on_first(r'folly::hash::fnv64_buf\(.*', h)
        E.assumed = ['folly fnv64_buf is a function of the bytes and the seed']
        st = State(); f = fields(E, st, kind, 'a')
        pa = new_struct(E, st, kind, 'a'); pb = new_struct(E, st, kind, 'b')
        put(E, st, kind, pa, f); put(E, st, kind, pb, f); freeze(st, pa, pb)
        for s1, r1 in E.exec_fn(st, E.mod.find(f'vc_{kind}_hash'), [pa]):
            outs = E.exec_fn(s1, E.mod.find(f'vc_{kind}_hash'), [pb])
            returned(E, outs, lambda s2, r2: [('equal values have equal hashes', I(E.u(s2, r1)) == E.u(s2, r2))], f'std::hash<{LAB[kind]}>')
    return u
def u_ctor(kind, root):
    def u(E):
        st = State(); f = fields(E, st, kind, 'a'); p = new_struct(E, st, kind, 'r')
        outs = E.exec_fn(st, E.mod.find(root), [p] + [IV(W[k], f[k], *((-32768, 32767) if k == 'year' else RANGE[k])) for k in KIND[kind]])
        returned(E, outs, lambda s2, r: [(f'{k} is the given one', I(get(E, s2, kind, p)[k]) == f[k]) for k in KIND[kind]], LAB[kind] + '::' + root)
    return u
def u_ofdate(E):
    st = State(); pa, f = arb(E, st, 'd', 'a'); p = new_struct(E, st, 'dt', 'r'); freeze(st, pa)
    outs = E.exec_fn(st, E.mod.find('vc_dt_ofDate'), [p, pa])
    def post(s2, r):
        g = get(E, s2, 'dt', p)
        return [(f'{k} is kept', I(g[k]) == f[k]) for k in DF] + [(f'{k} is zero', I(g[k]) == 0) for k in TF]
    returned(E, outs, post, 'nebula::DateTime::DateTime(nebula::Date const&)')
class PROP(Property):
    id = 'C05'
    budget = 400
    assumptions = ['field values in their calendar ranges']
    def units(self):
        mk = engine()
        return [(f'{LAB[k]} comparison', mk, u_cmp(k)) for k in LAB] + [(f'{LAB[k]} hash', mk, u_hash(k)) for k in LAB] + \
               [(r, mk, u_ctor(k, r)) for k, r in (('dt', 'vc_dt_ctor'), ('d', 'vc_d_ctor'), ('d', 'vc_d_reset'), ('t', 'vc_t_ctor'))] + [('DateTime(Date)', mk, u_ofdate)]
    search = search_time('order')
