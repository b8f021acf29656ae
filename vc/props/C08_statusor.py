from ghost import *
LBL = 'nebula::StatusOr<T>::'
_js = {}
STATES = ('void', 'status', 'value')
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/statusor_driver.cpp'], 'statusor')
    return _js['m']
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0(); st = State()
        E.tsz = {t: E.u(st, quiet(E, st, 'vc_size_' + t)[1]) for t in ('T', 'U', 'Status')}
        E.xsz = E.u(st, quiet(E, st, 'vc_size_X')[1]); E.osz = {k: E.u(st, quiet(E, st, f'vc_{k}_size')[1]) for k in ('so', 'so2')}
        setup_types(E, E.tsz, [('T', 'U'), ('T', 'XT')], qual={'Status': 'nebula::Status'})
        abort_handler(E)
        return E
    return mk
VT = {'so': 'T', 'so2': 'U'}
def new(E, st, kind, s, nm):
    p = obj(E, st, nm, E.osz[kind])
    if s == 'void': quiet(E, st, f'vc_{kind}_ctor0', p); return p
    t = 'Status' if s == 'status' else VT[kind]
    v = value(E, st, t, E.tsz[t], nm + '.v', ro=True)
    quiet(E, st, f'vc_{kind}_ctor' + ('S' if s == 'status' else 'V'), p, v)
    st.rw(v.obj).ro = False; st.rw(v.obj).g[('lt', 0)] = None
    return p
def content(kind, s, nm): return None if s == 'void' else ('Status' if s == 'status' else VT[kind], nm + '.v')
def cv(v): return v if v is None or v[0] != 'U' else ('T', ('conv', 'T', 'U', v[1]))
def shapes(E, kind):
    C, O = {}, {}
    for s in STATES:
        st = State(); p = new(E, st, kind, s, 'canon'); C[s] = dict(st.mem[p.obj].cells); g = ghosts(st, p)
        if len(g) != (s != 'void'): raise Unsupported('a constructed StatusOr does not hold exactly one value')
        if g: O[s] = list(g)[0]
    return C, O
def holds(E, st, p, s, val, what, C, O):
    ob(E, st, f'{what}: the state is {s} (same representation as a newly built one)', same_cells(E, st, C[s], st.mem[p.obj].cells))
    return {} if val is None else {(p.obj, O[s]): val}
SRC = [('V', 'T', 'copy', 'value'), ('Vm', 'T', 'move', 'value'), ('Vr', 'T', 'copy', 'value'), ('X', 'XT', 'raw', 'value'), ('S', 'Status', 'copy', 'status'), ('Sm', 'Status', 'move', 'status'), ('Sr', 'Status', 'copy', 'status')]
def mkv(E, st, src, kind): return raw(E, st, 'v', E.xsz) if kind == 'raw' else value(E, st, src, E.tsz[src], 'v', ro=kind == 'copy')
def u_vals(E):
    C, O = shapes(E, 'so')
    for suf, src, kind, tgt in SRC:
        for s1 in (None,) + STATES:
            root = ('vc_so_ctor' if s1 is None else 'vc_so_as') + suf
            if s1 is not None and suf == 'Sr': continue
            st = State(); p = obj(E, st, 'e', E.osz['so']) if s1 is None else new(E, st, 'so', s1, 'e'); v = mkv(E, st, src, kind)
            def post(s2, r):
                nm = f'{root}[{s1}]'
                w = holds(E, s2, p, tgt, (('T' if tgt == 'value' else 'Status'), 'v' if kind != 'raw' else ('conv', 'T', 'XT', 'v')), nm, C, O)
                if kind != 'raw': w[(v.obj, 0)] = (src, 'v' if kind == 'copy' else ('moved', 'v'))
                expect_objs(E, s2, w, nm)
            Run(E, LBL + ('StatusOr' if s1 is None else 'operator=') + f'({src}{"&&" if kind == "move" else " const&"})').go(st, root, [p, v], post)
    st = State(); p = obj(E, st, 'e', E.osz['so'])
    Run(E, LBL + 'StatusOr()').go(st, 'vc_so_ctor0', [p], lambda s2, r: expect_objs(E, s2, holds(E, s2, p, 'void', None, 'StatusOr()', C, O), 'StatusOr()'))
def u_inner(E):
    C, O = shapes(E, 'so')
    for suf, s in (('V', 'value'), ('Vr', 'value'), ('Vm', 'value'), ('S', 'status'), ('Sm', 'status')):
        st = State(); p = new(E, st, 'so', s, 'e')
        Run(E, LBL + 'operator= with its own ' + s).go(st, 'vc_so_as' + suf, [p, Ptr(p.obj, O[s])], lambda s2, r: expect_objs(E, s2, holds(E, s2, p, s, content('so', s, 'e'), 'own ' + s, C, O), 'own ' + s))
def u_copy(E):
    SH = {k: shapes(E, k) for k in VT}; C, O = SH['so']
    for root, kind, mv, asg in (('copy', 'so', 0, 0), ('move', 'so', 1, 0), ('ccopy', 'so2', 0, 0), ('cmove', 'so2', 1, 0), ('ascopy', 'so', 0, 1), ('asmove', 'so', 1, 1), ('ascm', 'so2', 1, 1)):
        for s in STATES:
            for s1 in STATES if asg else (None,):
                st = State(); q = new(E, st, kind, s, 'r'); p = new(E, st, 'so', s1, 'e') if asg else obj(E, st, 'e', E.osz['so']); st.rw(q.obj).ro = not mv
                def post(s2, r):
                    nm = f'{root}[{s1} = {s}]'; src = content(kind, s, 'r')
                    w = holds(E, s2, p, s, cv(src), nm, C, O)
                    if mv: w.update(holds(E, s2, q, 'void', None, nm + ' moved-from source', *SH[kind]))
                    elif src: w[(q.obj, SH[kind][1][s])] = src
                    expect_objs(E, s2, w, nm)
                    if asg: ob(E, s2, nm + ' returns the assigned object', isinstance(r, Ptr) and (r.obj, r.off) == (p.obj, p.off))
                Run(E, LBL + ('operator=' if asg else 'StatusOr') + '(StatusOr' + ('<U>' if kind == 'so2' else '') + ('&&)' if mv else ' const&)')).go(st, 'vc_so_' + root, [p, q], post)
            if asg and kind == 'so':
                st = State(); p = new(E, st, 'so', s, 'e')
                Run(E, LBL + 'operator= to itself').go(st, 'vc_so_' + root, [p, p], lambda s2, r: expect_objs(E, s2, holds(E, s2, p, s, content('so', s, 'e'), root + ' itself', C, O), root + ' itself'))
def u_query(E):
    C, O = shapes(E, 'so')
    for s in STATES:
        def fresh(ro=True): st = State(); p = new(E, st, 'so', s, 'e'); st.rw(p.obj).ro = ro; return st, p
        for root in ('ok', 'bool'):
            st, p = fresh(); Run(E, LBL + root).go(st, 'vc_so_' + root, [p], lambda s2, r: ob(E, s2, f'{root} is true exactly when there is a value', E.boolv(r) is (s == 'value')))
        if s == 'value':
            for root in ('value', 'valuec'):
                st, p = fresh(root == 'valuec'); Run(E, LBL + root).go(st, 'vc_so_' + root, [p], lambda s2, r: ob(E, s2, root + ' refers to the held value', isinstance(r, Ptr) and (r.obj, r.off) == (p.obj, O['value'])))
            st, p = fresh(False); o = obj(E, st, 'out', E.tsz['T'])
            def post(s2, r): expect_objs(E, s2, {**holds(E, s2, p, 'void', None, 'value &&', C, O), (o.obj, 0): ('T', 'e.v')}, 'value &&')
            Run(E, LBL + 'value() &&').go(st, 'vc_so_valuem', [o, p], post)
        for root, mv in (('status', 0), ('from', 0), ('statusm', 1), ('fromm', 1)):
            st, p = fresh(not mv); o = obj(E, st, 'out', E.tsz['Status'])
            def post(s2, r):
                if s != 'status': return
                w = holds(E, s2, p, 'void' if mv else s, None if mv else content('so', s, 'e'), root, C, O); w[(o.obj, 0)] = ('Status', 'e.v')
                expect_objs(E, s2, w, root)
            Run(E, LBL + root if root.startswith('status') else 'nebula::Status::from<T>').go(st, 'vc_so_' + root, [o, p], post, abort=s != 'status')
        st, p = fresh(False); Run(E, LBL + '~StatusOr').go(st, 'vc_so_dtor', [p], lambda s2, r: expect_objs(E, s2, {}, f'destructor[{s}]'))
class PROP(Property):
    id = 'C08'
    budget = 200
    assumptions = ['the value type is a copyable and movable class type (contracts are ghost lifetimes; parametric); special members of Status are used through the same contract, proved for the real Status by C09', LOGNOTE, 'value() is called on a StatusOr that holds a value (its own DCHECK)']
    def units(self):
        mk = engine()
        return [(n, mk, f) for n, f in (('values and statuses', u_vals), ('assignment of its own content', u_inner), ('copy and move', u_copy), ('access and destruction', u_query))]
    search = search_prog(['base/Status.cpp'], 'either_search', lambda tier: [20000 if tier == 'quick' else 200000], extra=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-DSTATUSOR'))
