from objcommon import *
ALL = [c for c in CLS] + PROPS
def full(c): return f'nebula::{c.split()[0]}{"Id" if False else ""}Expression'
def u_clone(cls):
    def u(E):
        c0 = cls.split()[0]; st, p = new(E, State(), cls, 'a'); old = shape(E, st, p, c0); s1 = st.fork()
        def post(s2, r):
            ob(E, s2, f'{cls}: the copy is a new object', isinstance(r, Ptr) and r.obj != p.obj and r.obj not in s1.mem)
            compare(E, s1, old, s2, r, CL, f'{cls}: in the copy', c0); compare(E, s1, old, s2, p, lambda x: x, f'{cls}: in the original', c0, False)
        Run(E, full(cls) + '::clone').go(st, 'vc_clone', [p], post)
    return u
OFF = {}
def skipped(E, st, p, cls):
    """members that only the printed text or the evaluation depends on"""
    out = []
    for c, f in (('Predicate', 'vc_origin_Predicate'), ('ListComprehension', 'vc_origin_ListComprehension'), ('Reduce', 'vc_origin_Reduce'), ('Variable', 'vc_inner_Variable'), ('VersionedVariable', 'vc_inner_Variable')):
        if c == cls: out.append(quiet(E, st, f, p)[1].off)
    return out
def u_equal(cls, oth):
    def u(E):
        c0 = cls.split()[0]; st, p = new(E, State(), cls, 'a'); st, q = new(E, st, oth, 'b'); skip = skipped(E, st, p, c0); sk = quiet(E, st, 'vc_kindat', p)[1].off; kb = z3.Int('kind of b'); st.pc += [kb >= 0, kb < 70]; E.store(st, Ptr(q.obj, sk), IV(8, kb, 0, 255), 'i8', 1); sa, sb = shape(E, st, p, c0), shape(E, st, q, c0); rounds = []
        if c0 == 'TextSearch': E.on_first(r'__dynamic_cast', lambda E, st, a, f, i: a[0])
        E.on_round = lambda s2, k: [r(s2, k) for r in rounds] and None
        want = members_equal(E, st, sa, sb, skip, rounds); s1 = st.fork()
        def post(s2, r):
            r = zb2(r) if not isinstance(r, IV) else E.u(s2, r) != 0; ob(E, s2, f'{cls} = {oth}: exactly when the kinds and all members are equal', r == want); compare(E, s1, sa, s2, p, lambda x: x, f'{cls}: in the left side', c0, False); compare(E, s1, sb, s2, q, lambda x: x, f'{cls}: in the right side', c0, False)
        Run(E, full(cls) + '::operator==').go(st, 'vc_equal', [p, q], post)
    return u
class PROP(Property):
    id = 'C30'; budget = 400
    assumptions = [LOGNOTE]
    def units(self):
        P = objengine(mods())
        return [('clone ' + c, P, u_clone(c)) for c in forms(ALL)] + [(f'equal {c}' + (f' /{o[len(c.split()[0]):]}' if ' ' in c + o else ''), P, u_equal(c, o)) for b in ALL for c in forms([b]) for o in forms([b])]
    search = expr_search('clone', 30000, 150000)
