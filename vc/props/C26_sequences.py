from seqmodel import *
I0 = z3.IntVal(0)
def asb(E, r): return zb2(E.boolv(r))
# ------------------------------------------------------------------ vertices: the first tag that has a name
def u_vlookup(E):
    for m in ('contains', 'value'):
        st = State(); p, a = newrec(E, st, 'Vertex', 'self', ro=True); S = a['tags']; D, know = first(E, None, S.n); E.bounds = [('size', S.n), ('first', D)]; st.pc += [D >= 0, D <= S.n]
        if m == 'contains': k = value(E, st, 'Value', E.sizes['Value'], 'key', ro=True); kk = ('strof', 'key')
        else: k = value(E, st, 'Str', 32, 'key', ro=True); kk = 'key'
        pos = lambda v: v.t.arg(0) if isinstance(v, T) and v.t.num_args() == 1 else None
        def on_has(E, st, T_, v, k2):
            j = pos(v)
            if j is None or tid(k2) is None: raise Unsupported('lookup in something else than the properties of a tag')
            E.oblige(st, tid(k2) == tid(kk), 'postcondition', 'the properties are searched for the name asked for', assume=False); know(st, j, E.has('map', v, k2))
        E.on_has = on_has; z = quiet(E, st, 'vc_null')[1]
        def post(s2, r):
            if m == 'contains': ob(E, s2, 'contains(key) exactly when the key is a string and a tag has that property', asb(E, r) == z3.And(uf('is_str', [tid('key')], BO), D < S.n)); return
            e = s2.mem[r.obj].g.get('entry') if isinstance(r, Ptr) and r.obj is not None else None
            if e is not None: ob(E, s2, 'the value is that of the first tag with the property', z3.And(D < S.n, tid(e[0]) == S.get('props', D), tid(e[1]) == tid('key')) if r.off == 32 else False)
            else: ob(E, s2, 'the null value is given', isinstance(r, Ptr) and r.obj == z.obj and r.off == z.off); ob(E, s2, 'only when no tag has the property', D == S.n)
        Run(E, 'nebula::Vertex::' + m).go(st, f'vc_{m}_Vertex', [p, k], post)
# ------------------------------------------------------------------ hashes fold over the elements
def u_hash(c):
    def u(E):
        lbl = f'std::hash<nebula::{c}>::operator()'; E.fold = True; n = [0]; st = State(); p, a = newrec(E, st, c, 'self', ro=True); q = obj(E, st, 'other', E.sizes[c])
        for f, t in REC[c]:
            def cp(c, p, q):
                for f, t in REC[c]:
                    x, y = at(E, st, c, p, f), at(E, st, c, q, f); t2 = FT.get((c, f))
                    if t2 in E.own2: cp(t2, x, y)
                    elif isinstance(t, int): E.store(st, y, E.load(st, x, f'i{t}', t // 8), f'i{t}', t // 8)
                    else: st.rw(y.obj).g[('lt', y.off)] = st.mem[x.obj].g[('lt', x.off)]
            cp(c, p, q)
        st.rw(q.obj).ro = True; S = next(v for v in a.values() if isinstance(v, Seq)); E.bounds = [('size', S.n)]
        def one(s2, r):
            h = E.u(s2, r); n[0] += 1
            def two(s3, r3): ob(E, s3, f'a {c} hashes by its contents, whatever its length', zi(h) == zi(E.u(s3, r3)))
            Run(E, lbl).go(s2, 'vc_hash_' + c, [q], two)
        Run(E, lbl).go(st, 'vc_hash_' + c, [p], one); ob(E, st, f'{lbl} returns', n[0] > 0)
    return u
# ------------------------------------------------------------------ paths
def opposites(st, path, x):
    """assumed: the types of the steps have opposites"""
    if path == 'type': st.pc.append(z3.And(x > -(1 << 31), x < 1 << 31))
SV = lambda a: {f[4:]: v for f, v in a.items() if f.startswith('src.')}     # the source vertex
def vget(S, j): return {f: S.get('dst.' + f, j) for f in ('vid', 'tags')}
def u_reverse(E):
    st = State(); p, a = newrec(E, st, 'Path', 'self'); S = a['steps']; n = S.n; q = z3.Int('at'); src = SV(a)
    st.pc.append(z3.BoolVal(True)); E.bounds = [('size', n), ('size - 1', n - 1)]
    def want(f, j):
        if f.startswith('dst.'): return z3.If(j == n - 1, tid(src[f[4:]]), S.get(f, n - 2 - j))
        return -S.get(f, n - 1 - j) if f == 'type' else S.get(f, n - 1 - j)
    E.range_of = opposites
    def post(s2, r):
        got = readseq(E, s2, 'Path', p); g = E.seqof(E, s2, got['steps'])
        ob(E, s2, 'reverse(): the number of steps stays', zi(g.n) == n)
        for f in ('vid', 'tags'): ob(E, s2, f'reverse(): the path begins where it ended ({f})', tid(got['src.' + f]) == z3.If(n == 0, tid(src[f]), S.get('dst.' + f, n - 1)))
        s3 = s2.fork(); s3.pc += [q >= 0, q < n]
        for f, _, t in flat(E, 'Step'): ob(E, s3, f'reverse(): {f} of every step', g.get(f, q) == want(f, q))
    Run(E, 'nebula::Path::reverse').go(st, 'vc_reverse_Path', [p], post)
def veq(E, st, x, y): return z3.And([zb2(eq(E, st, t, T(tid(x[f])), T(tid(y[f])))) for f, t in REC['Vertex']])
def u_append(E):
    st = State(); p, a = newrec(E, st, 'Path', 'self'); q, b = newrec(E, st, 'Path', 'other'); S, X = a['steps'], b['steps']; n = S.n; s0 = {f: v for f, v in SV(a).items()}
    def post(s2, r):
        empty = s2.fork(); empty.pc.append(n == 0); some = s2.fork(); some.pc.append(n > 0); ret = asb(E, r)
        for s3, end in ((empty, s0), (some, vget(S, n - 1))):
            if not E.feasible(s3, True): continue
            joins = veq(E, s3, end, SV(b)); s3.pc += laws(E, s3, ['Value', 'vector']); ob(E, s3, 'append() accepts exactly a path that begins where this one ends', ret == joins)
        for acc in (True, False):
            s3 = s2.fork(); s3.pc.append(ret == acc)
            if E.feasible(s3, True): expseq(E, s3, 'Path', p, dict(a, steps=cat(S, X)) if acc else a, 'append() that succeeds' if acc else 'append() that fails')
    Run(E, 'nebula::Path::append').go(st, 'vc_append_Path', [p, q], post)
def u_addstep(E):
    st = State(); p, a = newrec(E, st, 'Path', 'self'); s = obj(E, st, 'step', E.sizes['Step']); v = fillseq(E, st, 'Step', s, 'step')
    def post(s2, r): expseq(E, s2, 'Path', p, dict(a, steps=app(a['steps'], v)), 'addStep()')
    Run(E, 'nebula::Path::addStep').go(st, 'vc_addStep_Path', [p, s], post)
def u_dup(edges):
    def u(E):
        st = State(); p, a = newrec(E, st, 'Path', 'self', ro=True); S = a['steps']; n = S.n; src = SV(a); vid = lambda j: z3.If(zi(j) <= 0, tid(src['vid']), S.get('dst.vid', zi(j) - 1)); N = n if edges else n + 1
        if edges:
            def at_(j): t = S.get('type', j); f = t > 0; return [z3.If(f, vid(j), vid(j + 1)), z3.If(f, vid(j + 1), vid(j)), z3.If(f, t, -t), S.get('ranking', j)]
        else: at_ = lambda j: [vid(j)]
        D, know = first(E, None, N)
        def dup(m): return uf('dup', [m], BO)
        E.range_of = opposites
        E.keys = dict(n=N, at=at_, types=['Value', 'Value', 32, 64] if edges else ['Value'], dup=dup, know=know); E.bounds = [('size', n), ('first duplicate', D), ('first duplicate - 1', D - 1)]
        st.pc += [D >= 0, D <= N, z3.Implies(N >= 1, D >= 1), z3.Implies(N < 2, D == N)]     # one key is no duplicate
        def post(s2, r): ob(E, s2, 'true exactly when two ' + ('steps are of the same edge (whichever way it is walked)' if edges else 'vertices of the path have the same id'), asb(E, r) == (D < N)); expseq(E, s2, 'Path', p, a, 'the path is untouched')
        Run(E, 'nebula::Path::' + ('hasDuplicateEdges' if edges else 'hasDuplicateVertices')).go(st, 'vc_dupe_Path' if edges else 'vc_dupv_Path', [p], post)
    return u
# ------------------------------------------------------------------ data sets
def u_dappend(E):
    st = State(); p, a = newrec(E, st, 'DataSet', 'self'); q, b = newrec(E, st, 'DataSet', 'other'); same = uf('eq_vector', [tid(a['colNames']), tid(b['colNames'])], BO); e = a['colNames'].n == 0
    def post(s2, r):
        ret = asb(E, r); ob(E, s2, 'append() accepts exactly the same column names, or any when there are none', ret == z3.Or(e, same))
        for nm, c, w in (('append() that fails', z3.Not(ret), a), ('append() to a header', z3.And(ret, z3.Not(e)), dict(a, rows=cat(a['rows'], b['rows']))), ('append() to no header', z3.And(ret, e), dict(colNames=b['colNames'], rows=cat(a['rows'], b['rows'])))):
            s3 = s2.fork(); s3.pc.append(c)
            if E.feasible(s3, True): expseq(E, s3, 'DataSet', p, w, nm)
    Run(E, 'nebula::DataSet::append').go(st, 'vc_append_DataSet', [p, q], post)
def u_merge(E):
    st = State(); p, a = newrec(E, st, 'DataSet', 'self'); q, b = newrec(E, st, 'DataSet', 'other'); A, B = a['rows'], b['rows']; ok = A.n == B.n; E.bounds = [('rows', A.n)]
    def post(s2, r):
        ret = asb(E, r); ob(E, s2, 'merge() accepts exactly the same number of rows', ret == ok); rows = Seq(A.n, lambda f, j: uf('cat', [A.get(f, j), B.get(f, j)], IN))
        for nm, c, w in (('merge() that fails', z3.Not(ret), a), ('merge() that succeeds', ret, dict(colNames=cat(a['colNames'], b['colNames']), rows=rows))):
            s3 = s2.fork(); s3.pc.append(c)
            if E.feasible(s3, True): expseq(E, s3, 'DataSet', p, w, nm)
    Run(E, 'nebula::DataSet::merge').go(st, 'vc_merge_DataSet', [p, q], post)
def u_demplace(E):
    st = State(); p, a = newrec(E, st, 'DataSet', 'self'); q = obj(E, st, 'row', E.sizes['List']); v = fillseq(E, st, 'List', q, 'row'); ok = size(E, st, 'vector', 'row.values') == a['colNames'].n
    def post(s2, r):
        ret = asb(E, r); ob(E, s2, 'emplace_back() accepts exactly a row as wide as the header', ret == ok)
        for nm, c, w in (('emplace_back() that fails', z3.Not(ret), a), ('emplace_back() that succeeds', ret, dict(a, rows=app(a['rows'], v)))):
            s3 = s2.fork(); s3.pc.append(c)
            if E.feasible(s3, True): expseq(E, s3, 'DataSet', p, w, nm)
    Run(E, 'nebula::DataSet::emplace_back').go(st, 'vc_emplace_DataSet', [p, q], post)
def u_dread(E):
    st = State(); p, a = newrec(E, st, 'DataSet', 'self', ro=True); C, Rw = a['colNames'], a['rows']; k = value(E, st, 'Str', 32, 'name', ro=True); o = obj(E, st, 'out', 24); E.etys[(o.obj, 0)] = 'Value'; E.bounds = [('rows', Rw.n)]
    c = uf('find', [tid(C), tid('name')], IN)
    # assumed: every row is at least as wide as the header (what emplace_back, append and merge keep)
    def rect(st, x, n):
        if x.num_args() == 1 and x.decl().name() == 'self.rows[].values': st.pc.append(n >= C.n)
    E.rect = rect
    def post(s2, r):
        g = s2.mem[o.obj].g.get(('lt', 0)); there = s2.fork(); there.pc.append(c < C.n); not_ = s2.fork(); not_.pc.append(c == C.n)
        if g is None: ob(E, s2, 'colValues() gives a vector', False); return
        if E.feasible(there, True): eqseq(E, there, 'Value', g[1], Seq(Rw.n, lambda f, j: uf('at_vector', [Rw.get('values', j), c], IN)), 'colValues() of a column')
        if E.feasible(not_, True): ob(E, not_, 'colValues() of no column is empty', zi(E.seqof(E, not_, g[1]).n) == 0)
        expseq(E, s2, 'DataSet', p, a, 'the data set is untouched')
    Run(E, 'nebula::DataSet::colValues').go(st, 'vc_col_DataSet', [o, p, k], post)
    E.rect = None; st = State(); p, a = newrec(E, st, 'DataSet', 'self', ro=True); j = E.sym(st, 64, 'row'); st.pc.append(zi(E.u(st, j)) < a['rows'].n)
    def post(s2, r):
        w = E.elptr(E, s2, at(E, s2, 'DataSet', p, 'rows'), 'List', E.u(s2, j)); ob(E, s2, 'rowValues(i) are the values of row i', isinstance(r, Ptr) and r.obj == w.obj and zi(r.off) == zi(w.off))
    Run(E, 'nebula::DataSet::rowValues').go(st, 'vc_row_DataSet', [p, j], post)
    for fn, f, nm in (('rows', 'rows', 'rowSize'), ('cols', 'colNames', 'colSize'), ('sizeof', 'rows', 'size')):
        st = State(); p, a = newrec(E, st, 'DataSet', 'self', ro=True)
        def post(s2, r): ob(E, s2, f'{nm}() counts the {f}', E.u(s2, r) == a[f].n)
        Run(E, 'nebula::DataSet::' + nm).go(st, f'vc_{fn}_DataSet', [p], post)
class PROP(Property):
    id = 'C26'; budget = 250
    assumptions = [LOGNOTE, 'std::vector, std::reverse, std::find and the sets behave as their contracts say; a failed allocation is not considered',
                   'the type of a step is not INT32_MIN, which has no opposite', 'every row of a data set is at least as wide as the header (what emplace_back, append and merge keep)']
    def units(self):
        P = seqengine(['Path', 'Vertex', 'Step'], 'Path'); D = seqengine(['DataSet', 'List'], 'DataSet'); V = seqengine(['Vertex', 'Tag'], 'Vertex')
        return [('Vertex: lookup', V, u_vlookup), ('hash<Vertex>', V, u_hash('Vertex')), ('hash<List>', seqengine(['List'], 'List'), u_hash('List')), ('hash<Path>', P, u_hash('Path')),
                ('Path::reverse', P, u_reverse), ('Path::append', P, u_append), ('Path::addStep', P, u_addstep), ('Path::hasDuplicateVertices', P, u_dup(False)), ('Path::hasDuplicateEdges', P, u_dup(True)),
                ('DataSet::append', D, u_dappend), ('DataSet::merge', D, u_merge), ('DataSet::emplace_back', D, u_demplace), ('DataSet: reading', D, u_dread)]
    search = search_prog(GSRC, 'graph_search', lambda tier: ['sequences', '20000' if tier == 'thorough' else '2000'])
