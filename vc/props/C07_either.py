from ghost import *
LBL = 'nebula::EitherOr<L, R>::'
_js = {}
STATES = ('void', 'left', 'right')
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/either_driver.cpp'], 'either')
    return _js['m']
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); st = State()
        sz = {t: E.u(st, quiet(E, st, 'vc_size_' + t)[1]) for t in 'LRUV'}
        E.tsz = sz; E.xsz = E.u(st, quiet(E, st, 'vc_size_X')[1]); E.osz = {k: E.u(st, quiet(E, st, f'vc_{k}_size')[1]) for k in ('eo', 'eo2', 'ec')}
        setup_types(E, sz, [('L', 'U'), ('R', 'V'), ('L', 'XL'), ('R', 'XR'), ('L', 'XB'), ('R', 'XB')])
        E.assumed = ['constructors of the held types do not throw (the members are noexcept)']
        abort_handler(E)
        return E
    return mk
TY = {'eo': ('L', 'R'), 'eo2': ('U', 'V')}
def new(E, st, kind, s, nm):
    p = obj(E, st, nm, E.osz[kind])
    if s == 'void': quiet(E, st, f'vc_{kind}_ctor0', p)
    elif kind == 'ec':
        if s == 'left': quiet(E, st, 'vc_ec_ctorL', p, IV(32, z3.Int(nm + '.code'), -(1 << 31), (1 << 31) - 1)); st.pc.append(z3.And(z3.Int(nm + '.code') >= -(1 << 31), z3.Int(nm + '.code') < (1 << 31)))
        else: build(E, st, kind, 'R', p, nm)
    else: build(E, st, kind, 'L' if s == 'left' else 'R', p, nm)
    return p
def build(E, st, kind, side, p, nm):
    t = {'eo': dict(L='L', R='R'), 'eo2': dict(L='U', R='V'), 'ec': dict(R='R')}[kind][side]
    v = value(E, st, t, E.tsz[t], nm + '.v'); st.rw(v.obj).ro = True
    quiet(E, st, f'vc_{kind}_ctor{side}', p, v)
    st.rw(v.obj).ro = False; st.rw(v.obj).g[('lt', 0)] = None      # the source goes away
def content(E, kind, s, nm):
    if s == 'void': return None
    t = TY.get(kind, (None, 'R'))[0 if s == 'left' else 1]
    return (t, nm + '.v')
def off_of(E, kind):
    """where the live value sits, learnt from the constructors"""
    r = {}
    for s in ('left', 'right'):
        st = State(); p = new(E, st, kind, s, 'x'); g = ghosts(st, p)
        if kind == 'ec' and s == 'left': continue
        if len(g) != 1: raise Unsupported('a constructed EitherOr does not hold exactly one value')
        r[s] = list(g)[0]
    return r
def holds(E, st, kind, p, s, val, what, canon, offs):
    """-> expected live objects; the object is in state s in exactly the form the constructors give"""
    ob(E, st, f'{what}: the state is {s} (same representation as a newly built one)', same_cells(E, st, canon[s][0], st.mem[p.obj].cells))
    return {} if s == 'void' or val is None else {(p.obj, offs[s]): val}
def canon_of(E, kind):
    out = {}
    for s in STATES:
        st = State(); p = new(E, st, kind, s, 'canon'); out[s] = (dict(st.mem[p.obj].cells), None)
        if kind == 'ec' and s == 'left':
            vals = [k for k, (sz, v) in out[s][0].items() if isinstance(v, IV) and 'canon.code' in str(v.t)]
            for k in vals: del out[s][0][k]
    return out
def cv(v, t):  # value of a t built from the content v
    return v if v is None or v[0] == t else (t, ('conv', t, v[0], v[1]))
SIDE = {'L': 'left', 'R': 'right'}
def u_ctors(E):
    C, O = canon_of(E, 'eo'), off_of(E, 'eo')
    def one(root, mk, s, val, srcafter):
        st = State(); p = obj(E, st, 'e', E.osz['eo']); v = mk(st)
        def post(s2, r):
            w = holds(E, s2, 'eo', p, s, val, root, C, O)
            if v is not None and srcafter is not None: w[(v[-1].obj, 0)] = srcafter
            expect_objs(E, s2, w, root)
        Run(E, LBL + 'EitherOr ' + root[6:]).go(st, root, [p] + (v or []), post)
    one('vc_eo_ctor0', lambda st: None, 'void', None, None)
    for t in 'LR':
        S = SIDE[t]
        one(f'vc_eo_ctor{t}', lambda st: [value(E, st, t, E.tsz[t], 'v', ro=True)], S, (t, 'v'), (t, 'v'))
        one(f'vc_eo_ctor{t}r', lambda st: [value(E, st, t, E.tsz[t], 'v', ro=True)], S, (t, 'v'), (t, 'v'))
        one(f'vc_eo_ctor{t}m', lambda st: [value(E, st, t, E.tsz[t], 'v')], S, (t, 'v'), (t, ('moved', 'v')))
        X = 'X' + t
        one(f'vc_eo_ctorX{t}', lambda st: [raw(E, st, 'v', E.xsz)], S, (t, ('conv', t, X, 'v')), None)
        one(f'vc_eo_tag{t}', lambda st: [raw(E, st, 'v', E.xsz)], S, (t, ('conv', t, 'XB', 'v')), None)
        one(f'vc_eo_ctorX{t}2', lambda st: [IV(32, 7), raw(E, st, 'v', E.xsz)], S, (t, ('conv2', t, 7, 'v')), None)
        W = {'L': 'U', 'R': 'V'}[t]
        one(f'vc_eo_ctor{W}', lambda st: [value(E, st, W, E.tsz[W], 'v')], S, (t, ('conv', t, W, 'v')), (W, ('moved', 'v')))
def u_copyctor(E):
    C, O = canon_of(E, 'eo'), off_of(E, 'eo'); C2, O2 = canon_of(E, 'eo2'), off_of(E, 'eo2')
    for root, kind, mv in (('vc_eo_copy', 'eo', 0), ('vc_eo_move', 'eo', 1), ('vc_eo_ccopy', 'eo2', 0), ('vc_eo_cmove', 'eo2', 1)):
        for s in STATES:
            st = State(); q = new(E, st, kind, s, 'r'); p = obj(E, st, 'e', E.osz['eo'])
            if not mv: st.rw(q.obj).ro = True
            def post(s2, r):
                src = content(E, kind, s, 'r')
                w = holds(E, s2, 'eo', p, s, cv(src, 'L' if s == 'left' else 'R'), f'{root}[{s}]', C, O)
                if mv: w.update(holds(E, s2, kind, q, 'void', None, f'{root}[{s}] moved-from source', C if kind == 'eo' else C2, None))
                elif src: w[(q.obj, (O if kind == 'eo' else O2)[s])] = src
                expect_objs(E, s2, w, f'{root}[{s}]')
            Run(E, LBL + 'EitherOr(' + ('EitherOr' if kind == 'eo' else 'EitherOr<U, V>') + (' const&)' if not mv else '&&)')).go(st, root, [p, q], post)
def u_assignval(E):
    C, O = canon_of(E, 'eo'), off_of(E, 'eo')
    for s in STATES:
        for t in 'LR':
            W = {'L': 'U', 'R': 'V'}[t]; X = 'X' + t
            for root, src, kind in ((f'vc_eo_as{t}', t, 'copy'), (f'vc_eo_as{t}r', t, 'copy'), (f'vc_eo_as{t}m', t, 'move'), (f'vc_eo_asX{t}', X, 'raw'), (f'vc_eo_as{W}', W, 'move')):
                st = State(); p = new(E, st, 'eo', s, 'e')
                v = raw(E, st, 'v', E.xsz) if kind == 'raw' else value(E, st, src, E.tsz[src], 'v', ro=kind == 'copy')
                def post(s2, r):
                    w = holds(E, s2, 'eo', p, SIDE[t], (t, 'v' if src == t else ('conv', t, src, 'v')), f'{root}[{s}]', C, O)
                    if kind != 'raw': w[(v.obj, 0)] = (src, 'v' if kind == 'copy' else ('moved', 'v'))
                    expect_objs(E, s2, w, f'{root}[{s}]')
                Run(E, LBL + 'operator=(' + src + (' const&)' if kind != 'move' else '&&)')).go(st, root, [p, v], post)
def u_assigninner(E):
    """assigning the held value to its own holder keeps it"""
    C, O = canon_of(E, 'eo'), off_of(E, 'eo')
    for t in 'LR':
        for root in (f'vc_eo_as{t}', f'vc_eo_as{t}r', f'vc_eo_as{t}m'):
            s = SIDE[t]; st = State(); p = new(E, st, 'eo', s, 'e')
            def post(s2, r): expect_objs(E, s2, holds(E, s2, 'eo', p, s, (t, 'e.v'), f'{root} with its own value', C, O), f'{root} with its own value')
            Run(E, LBL + 'operator=(' + t + ') with its own value').go(st, root, [p, Ptr(p.obj, O[s])], post)
def u_assign(E):
    C, O = canon_of(E, 'eo'), off_of(E, 'eo'); C2, O2 = canon_of(E, 'eo2'), off_of(E, 'eo2')
    for root, kind, mv in (('vc_eo_ascopy', 'eo', 0), ('vc_eo_asmove', 'eo', 1), ('vc_eo_ascc', 'eo2', 0), ('vc_eo_ascm', 'eo2', 1)):
        for s in STATES:
            for s1 in STATES:
                st = State(); q = new(E, st, kind, s, 'r'); p = new(E, st, 'eo', s1, 'e')
                if not mv: st.rw(q.obj).ro = True
                def post(s2, r):
                    nm = f'{root}[{s1} = {s}]'; src = content(E, kind, s, 'r')
                    w = holds(E, s2, 'eo', p, s, cv(src, 'L' if s == 'left' else 'R'), nm, C, O)
                    if mv: w.update(holds(E, s2, kind, q, 'void', None, nm + ' moved-from source', C if kind == 'eo' else C2, None))
                    elif src: w[(q.obj, (O if kind == 'eo' else O2)[s])] = src
                    expect_objs(E, s2, w, nm)
                    ob(E, s2, nm + ' returns the assigned object', isinstance(r, Ptr) and (r.obj, r.off) == (p.obj, p.off))
                Run(E, LBL + 'operator=(' + ('EitherOr' if kind == 'eo' else 'EitherOr<U, V>') + (' const&)' if not mv else '&&)')).go(st, root, [p, q], post)
            if kind == 'eo':
                st = State(); p = new(E, st, kind, s, 'e')
                def post(s2, r): expect_objs(E, s2, holds(E, s2, 'eo', p, s, content(E, 'eo', s, 'e'), f'{root}[{s}] to itself', C, O), f'{root}[{s}] to itself')
                Run(E, LBL + 'operator=(' + ('EitherOr const&)' if not mv else 'EitherOr&&)')).go(st, root, [p, p], post)
def u_query(E):
    C, O = canon_of(E, 'eo'), off_of(E, 'eo'); C2, O2 = canon_of(E, 'eo2'), off_of(E, 'eo2')
    for kind, CC, OO in (('eo', C, O), ('eo2', C2, O2)):
        for s in STATES:
            def fresh(): st = State(); p = new(E, st, kind, s, 'e'); return st, p
            for root, t in (('isVoid', 'void'), ('isL', 'left'), ('isR', 'right')):
                st, p = fresh(); st.rw(p.obj).ro = True
                Run(E, LBL + root).go(st, f'vc_{kind}_{root}', [p], lambda s2, r: ob(E, s2, f'{root} is true exactly in state {t}', E.boolv(r) is (s == t)))
            for root, t in (('left', 'left'), ('leftc', 'left'), ('right', 'right'), ('rightc', 'right')):
                if kind == 'eo2' and not root.endswith('c'): continue
                st, p = fresh()
                def post(s2, r):
                    if s != t: return
                    ob(E, s2, f'{root} refers to the held value', isinstance(r, Ptr) and (r.obj, r.off) == (p.obj, OO[t]))
                    expect_objs(E, s2, holds(E, s2, kind, p, s, content(E, kind, s, 'e'), root, CC, OO), root)
                Run(E, LBL + root).go(st, f'vc_{kind}_{root}', [p], post, abort=s != t)
    for root, t, T in (('vc_eo_leftm', 'left', 'L'), ('vc_eo_rightm', 'right', 'R')):
        for s in STATES:
            st = State(); p = new(E, st, 'eo', s, 'e'); o = obj(E, st, 'out', E.tsz[T])
            def post(s2, r):
                if s != t: return
                w = holds(E, s2, 'eo', p, 'void', None, root, C, O); w[(o.obj, 0)] = (T, 'e.v'); expect_objs(E, s2, w, root)
            Run(E, LBL + f'{t}() &&').go(st, root, [o, p], post, abort=s != t)
    for s in STATES:
        st = State(); p = new(E, st, 'eo', s, 'e')
        Run(E, LBL + '~EitherOr').go(st, 'vc_eo_dtor', [p], lambda s2, r: expect_objs(E, s2, {}, f'destructor[{s}]'))
def u_error(E):
    C, O = canon_of(E, 'ec'), off_of(E, 'ec')
    def code(E, st, p):
        # error() of the object, which must be in the left state
        return E.s(st, quiet(E, st.fork(), 'vc_ec_error', p)[1])
    for s in STATES:
        def fresh(ro=True): st = State(); p = new(E, st, 'ec', s, 'e'); st.rw(p.obj).ro = ro; return st, p
        for root, want in (('ok', s != 'left'), ('hasValue', s == 'right')):
            st, p = fresh(); Run(E, f'nebula::{root}<Code, R>').go(st, 'vc_ec_' + root, [p], lambda s2, r: ob(E, s2, f'{root} is {want} in state {s}', E.boolv(r) is want))
        st, p = fresh(); Run(E, 'nebula::error<Code, R>').go(st, 'vc_ec_error', [p], lambda s2, r: ob(E, s2, 'error is the code stored', s != 'left' or E.s(s2, r) == z3.Int('e.code')), abort=s != 'left')
        for root in ('value', 'valuec'):
            st, p = fresh(False); Run(E, 'nebula::value<Code, R>').go(st, 'vc_ec_' + root, [p], lambda s2, r: ob(E, s2, 'value refers to the held value', s != 'right' or (r.obj, r.off) == (p.obj, O['right'])), abort=s != 'right')
        st, p = fresh(False); o = obj(E, st, 'out', E.tsz['R'])
        def post(s2, r):
            if s == 'right': expect_objs(E, s2, {**holds(E, s2, 'ec', p, 'void', None, 'value &&', C, O), (o.obj, 0): ('R', 'e.v')}, 'value &&')
        Run(E, 'nebula::value<Code, R> &&').go(st, 'vc_ec_valuem', [o, p], post, abort=s != 'right')
        st, p = fresh(False); Run(E, 'nebula::EitherOr<Code, R>::~EitherOr').go(st, 'vc_ec_dtor', [p], lambda s2, r: expect_objs(E, s2, {}, 'destructor'))
        for root, mv, s1s in (('copy', 0, (None,)), ('move', 1, (None,)), ('ascopy', 0, STATES), ('asmove', 1, STATES)):
            for s1 in s1s:
                st = State(); q = new(E, st, 'ec', s, 'r'); p = obj(E, st, 'e', E.osz['ec']) if s1 is None else new(E, st, 'ec', s1, 'e'); st.rw(q.obj).ro = not mv
                nm = f'{root}[{s1} = {s}]'
                def post(s2, r):
                    w = holds(E, s2, 'ec', p, s, content(E, 'ec', s, 'r') if s == 'right' else None, nm, C, O)
                    if mv: w.update(holds(E, s2, 'ec', q, 'void', None, nm + ' source', C, O))
                    elif s == 'right': w[(q.obj, O['right'])] = ('R', 'r.v')
                    expect_objs(E, s2, w, nm)
                    if s == 'left':
                        ob(E, s2, nm + ': the code is copied', code(E, s2, p) == z3.Int('r.code'))
                        if not mv: ob(E, s2, nm + ': the source keeps its code', code(E, s2, q) == z3.Int('r.code'))
                Run(E, 'nebula::EitherOr<Code, R> ' + root).go(st, 'vc_ec_' + root, [p, q], post)
class PROP(Property):
    id = 'C07'
    budget = 200
    assumptions = ['the held types are copyable and movable class types whose special members behave as such (their contracts are ghost lifetimes); the proofs are parametric in them', LOGNOTE, 'an EitherOr is not assigned from an EitherOr stored inside itself']
    def units(self):
        mk = engine()
        return [(n, mk, f) for n, f in (('construction', u_ctors), ('copy and move construction', u_copyctor), ('assignment of values', u_assignval), ('assignment of its own value', u_assigninner), ('copy and move assignment', u_assign), ('access and destruction', u_query), ('ErrorOr', u_error))]
    search = search_prog(['base/Status.cpp'], 'either_search', lambda tier: [20000 if tier == 'quick' else 200000])
