from graphrec import *
BOXED = list(REC)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def members(E, st, c, a, b, fs=None):
    """every listed member of a equals that of b"""
    out = []
    for f, t in REC[c]:
        if fs is not None and f not in fs: continue
        out.append(zb(a[f] == b[f] if isinstance(t, int) else eq(E, st, t, a[f], b[f])))
    return z3.And(out)
def spec_eq(E, st, c, a, b):
    if c != 'Edge': return members(E, st, c, a, b)
    rev = dict(b, src=b['dst'], dst=b['src'], type=-b['type']); fs = ('src', 'dst', 'type', 'ranking', 'props')
    return z3.Or(members(E, st, c, a, b, fs), z3.And(a['type'] != 0, members(E, st, c, a, rev, fs)))
def key(E, st, c, a, b, k, op):
    f = k.lstrip('#'); t = dict(REC[c])[f]
    if k[0] == '#': x, y = size(E, st, t, a[f]), size(E, st, t, b[f]); return x == y if op == 'eq' else x < y
    if isinstance(t, int): return a[f] == b[f] if op == 'eq' else a[f] < b[f]
    return zb((eq if op == 'eq' else lt)(E, st, t, a[f], b[f]))
def spec_lt(E, st, c, a, b):
    out = []; same = []
    for k in LT[c]: out.append(z3.And(same + [key(E, st, c, a, b, k, 'lt')])); same.append(key(E, st, c, a, b, k, 'eq'))
    return z3.Or(out)
def types(c): return sorted({t for _, t in REC[c] if not isinstance(t, int)})
def name(c): return 'nebula::' + c
def inrange(c, a): return [a['type'] > -(1 << 31)] if c == 'Edge' else []
def keep(v): return {f: x for f, x in v.items()}
EMPTYREC = lambda c: {f: 0 if isinstance(t, int) else 'empty' for f, t in REC[c]}
def arg(E, st, f, t):
    if isinstance(t, int):
        q = obj(E, st, 'arg', t // 8); x = z3.Int('arg.' + f); st.pc.append(z3.And(x >= -(1 << (t - 1)), x < 1 << (t - 1))); E.store(st, q, IV(t, x, -(1 << (t - 1)), (1 << (t - 1)) - 1), f'i{t}', t // 8); return q, x
    return value(E, st, t, E.sizes[t], 'arg.' + f), 'arg.' + f
def gone(E, st, c, p, v, what):
    """what a source that was moved from may hold"""
    got = read(E, st, c, p)
    for f, t in REC[c]:
        if not isinstance(t, int): ob(E, st, f'{what}: {f} of the source is still an object', got[f] in (v[f], moved(v[f])))
def u_life(c):
    def u(E):
        R = lambda m: Run(E, f'{name(c)}::{m}'); cn = c
        for root in ('ctor0', 'clear', 'clear2'):
            st = State()
            if root == 'ctor0': p = obj(E, st, 'self', E.sizes[c])
            else: p, _ = rec(E, st, c, 'self')
            what = {'ctor0': 'default construction', 'clear': 'clear()', 'clear2': '__clear()'}[root]
            def post(s2, r):
                expect(E, s2, c, p, EMPTYREC(c), what); only(E, s2, c, [p], what)
            R(f'{c}()' if root == 'ctor0' else what).go(st, f'vc_{root}_{c}', [p], post)
        for root in ('copy', 'move', 'asg', 'masg'):
            if root[-3:] == 'asg' and quiet(E, State(), ('vc_massignable_' if root[0] == 'm' else 'vc_assignable_') + c)[1] is False: continue
            for alias in ((False, True) if root[-3:] == 'asg' else (False,)):
                st = State(); q, v = rec(E, st, c, 'from')
                if alias: p = q
                elif root[-3:] == 'asg': p, _ = rec(E, st, c, 'self')
                else: p = obj(E, st, 'self', E.sizes[c])
                if root in ('copy', 'asg') and not alias: st.rw(q.obj).ro = True
                what = {'copy': 'copy', 'move': 'move', 'asg': 'copy assignment', 'masg': 'move assignment'}[root] + (' to itself' if alias else '')
                def post(s2, r):
                    expect(E, s2, c, p, v, what)
                    if not alias and root in ('copy', 'asg'): expect(E, s2, c, q, v, what + ', the source')
                    elif not alias: gone(E, s2, c, q, v, what)
                    only(E, s2, c, [p, q], what)
                R({'copy': f'{c}(const {c}&)', 'move': f'{c}({c}&&)', 'asg': f'operator=(const {c}&)', 'masg': f'operator=({c}&&)'}[root]).go(st, f'vc_{root}_{c}', [p, q], post)
        st = State(); p, v = rec(E, st, c, 'self')
        def post(s2, r): only(E, s2, c, [], 'destruction')
        R('~' + c).go(st, 'vc_dtor_' + c, [p], post)
        if c in CTOR:
            st = State(); p = obj(E, st, 'self', E.sizes[c]); aa = [arg(E, st, f, t) for f, t in REC[c]]; v = {f: x[1] for (f, _), x in zip(REC[c], aa)}
            def post(s2, r): expect(E, s2, c, p, v, 'construction from the members'); only(E, s2, c, [p], 'construction from the members')
            R(f'{c}(members)').go(st, 'vc_mk_' + c, [p] + [x[0] for x in aa], post)
        if c in ('Vertex', 'Step'):
            st = State(); p, v = rec(E, st, c, 'a'); q, w = rec(E, st, c, 'b')
            def post(s2, r): expect(E, s2, c, p, w, 'swap'); expect(E, s2, c, q, v, 'swap'); only(E, s2, c, [p, q], 'swap')
            Run(E, 'nebula::swap').go(st, 'vc_swap_' + c, [p, q], post)
    return u
def asbool(E, r): return zb(E.boolv(r))
def u_rel(c):
    def u(E):
        for root, op in (('eq', '=='), ('ne', '!='), ('lt', '<')):
            if root == 'ne' and c not in NE or root == 'lt' and c not in LT: continue
            for alias in (False, True):
                st = State(); p, a = rec(E, st, c, 'a', ro=True); q, b = (p, a) if alias else rec(E, st, c, 'b', ro=True)
                if c == 'Edge' and root == 'eq': st.pc += inrange(c, a) + inrange(c, b)
                g0 = lts(st)
                def post(s2, r):
                    want = {'eq': lambda: spec_eq(E, s2, c, a, b), 'ne': lambda: z3.Not(spec_eq(E, s2, c, a, b)), 'lt': lambda: spec_lt(E, s2, c, a, b)}[root]()
                    s2.pc += laws(E, s2, types(c))
                    says = {'eq': 'they have equal members' + (', or the one is the reverse of the other (of a type other than 0)' if c == 'Edge' else ''), 'ne': '== is false', 'lt': 'the first member that differs is smaller (' + ', '.join(k.replace('#', 'size of ') for k in LT.get(c, ())) + ')'}[root]
                    ob(E, s2, f'{c} {op} {c} exactly when {says}', asbool(E, r) == want)
                    ob(E, s2, f'{c} {op} {c}: the operands are untouched', all(lts(s2).get(x) == y for x, y in g0.items()), 'frame')
                    only(E, s2, c, [p, q], op)
                Run(E, f'{name(c)}::operator{op}').go(st, f'vc_{root}_{c}', [p, q], post)
    return u
def u_laws(c):
    """lemmas over the contracts of == and <"""
    def u(E):
        E.curfn = f'{name(c)}: order and equality'; st = State(); v = []
        for n in 'abc': _, x = rec(E, st, c, n); v.append(x); st.pc += inrange(c, x)
        A, B, C = v; e = lambda x, y: spec_eq(E, st, c, x, y); l = lambda x, y: spec_lt(E, st, c, x, y)
        fs = [('a record equals itself', e(A, A)), ('equality is symmetric', e(A, B) == e(B, A)), ('equality is transitive', z3.Implies(z3.And(e(A, B), e(B, C)), e(A, C)))]
        if c in LT:
            fs += [('nothing is less than itself', z3.Not(l(A, A))), ('a < b excludes b < a', z3.Not(z3.And(l(A, B), l(B, A)))), ('< is transitive', z3.Implies(z3.And(l(A, B), l(B, C)), l(A, C)))]
            same = members(E, st, c, A, B)
            fs.append(('records with equal members are not less than one another', z3.Implies(same, z3.Not(l(A, B)))))
            fs.append(('records with equal members compare alike with any third', z3.Implies(same, z3.And(l(A, C) == l(B, C), l(C, A) == l(C, B)))))
        st.pc += laws(E, st, types(c))
        for n, x in fs: ob(E, st, f'{c}: {n}', x, 'lemma')
        E.covers = 1; E.verified = []
    return u
HASHLOOP = ('Vertex', 'Path', 'List')
def u_hash(c):
    def u(E):
        lbl = f'std::hash<nebula::{c}>::operator()'
        for rev in ((False, True) if c == 'Edge' else (False,)):
            st = State(); p, a = rec(E, st, c, 'a'); q, b = rec(E, st, c, 'b'); st.pc += inrange(c, a); n = [0]
            if rev: st.pc.append(a['type'] != 0)
            for f, t in REC[c]:
                g = {'src': 'dst', 'dst': 'src'}.get(f, f) if rev else f; x = at(E, st, c, q, f)
                if isinstance(t, int): w = -a[f] if rev and f == 'type' else a[f]; E.store(st, x, IV(t, w, -(1 << (t - 1)), (1 << (t - 1)) - 1), f'i{t}', t // 8)
                else: st.rw(x.obj).g[('lt', x.off)] = (t, a[g])
            st.rw(p.obj).ro = True; st.rw(q.obj).ro = True
            what = 'an edge and its reverse hash alike' if rev else f'a {c} hashes by its contents'
            def first(s2, r):
                only(E, s2, c, [p, q], 'hash'); h = E.u(s2, r); n[0] += 1
                def second(s3, r3): ob(E, s3, what, E.eqt(s3, h, E.u(s3, r3)) or zi(h) == zi(E.u(s3, r3)))
                Run(E, lbl).go(s2, f'vc_hash_{c}', [q], second)
            Run(E, lbl).go(st, f'vc_hash_{c}', [p], first)
            ob(E, st, f'{lbl} returns', n[0] > 0)
    return u
def u_edge(E):
    for root in ('rev', 'format'):
        st = State(); p, a = rec(E, st, 'Edge', 'self'); st.pc += inrange('Edge', a)
        def post(s2, r):
            flip = dict(a, src=a['dst'], dst=a['src'], type=-a['type']); pos = s2.fork(); pos.pc.append(a['type'] >= 0); neg = s2.fork(); neg.pc.append(a['type'] < 0)
            if root == 'rev': expect(E, s2, 'Edge', p, flip, 'reverse()')
            else:
                if E.feasible(pos, True): expect(E, pos, 'Edge', p, a, 'format() of an edge that points forward')
                if E.feasible(neg, True): expect(E, neg, 'Edge', p, flip, 'format() of an edge that points backward')
            only(E, s2, 'Edge', [p], root)
        Run(E, 'nebula::Edge::' + {'rev': 'reverse', 'format': 'format'}[root]).go(st, f'vc_{root}_Edge', [p], post)
def entry_of(st, p): return st.mem[p.obj].g.get('entry') if isinstance(p, Ptr) and p.obj is not None else None
def u_look(c, f, none):
    """contains(Value) and value(name) of a record with one map"""
    def u(E):
        st = State(); p, a = rec(E, st, c, 'self', ro=True); k = value(E, st, 'Value', E.sizes['Value'], 'key', ro=True)
        def post(s2, r): ob(E, s2, f'contains(key) exactly when the key is a string that is in {f}', asbool(E, r) == z3.And(uf('is_str', [tid('key')], BO), E.has('map', a[f], ('strof', 'key')))); only(E, s2, c, [p], 'contains')
        Run(E, f'{name(c)}::contains').go(st, f'vc_contains_{c}', [p, k], post)
        st = State(); p, a = rec(E, st, c, 'self', ro=True); k = value(E, st, 'Str', 32, 'key', ro=True); z = quiet(E, st, none)[1]
        def post(s2, r):
            h = E.has('map', a[f], 'key'); e = entry_of(s2, r)
            if e is not None: ob(E, s2, f'a value is given for a name that is in {f}', h); ob(E, s2, 'it is the value of that name', e == (a[f], 'key') and r.off == 32)
            else: ob(E, s2, f'the fixed null is given', isinstance(r, Ptr) and r.obj == z.obj and r.off == z.off); ob(E, s2, f'only for a name that is not in {f}', z3.Not(h))
            only(E, s2, c, [p], 'value')
        Run(E, f'{name(c)}::' + ('at' if c == 'Map' else 'value')).go(st, f'vc_value_{c}', [p, k], post)
        if c == 'Map': u_count(c, f)(E)
    return u
def u_count(c, f):
    def u(E):
        t = dict(REC[c])[f]
        st = State(); p, a = rec(E, st, c, 'self', ro=True)
        def post(s2, r): ob(E, s2, f'size() is the number of elements', E.u(s2, r) == size(E, s2, t, a[f]))
        Run(E, f'{name(c)}::size').go(st, f'vc_count_{c}', [p], post)
        if c == 'Map': return
        st = State(); p, a = rec(E, st, c, 'self', ro=True); k = value(E, st, 'Value', E.sizes['Value'], 'key', ro=True)
        def post(s2, r): ob(E, s2, 'contains(x) exactly when x is an element', asbool(E, r) == E.has(t, a[f], 'key')); only(E, s2, c, [p], 'contains')
        Run(E, f'{name(c)}::contains').go(st, f'vc_contains_{c}', [p, k], post)
        if c == 'List':
            st = State(); p, a = rec(E, st, c, 'self', ro=True)
            def post(s2, r): ob(E, s2, 'empty() exactly when there is no element', asbool(E, r) == (size(E, s2, t, a[f]) == 0))
            Run(E, f'{name(c)}::empty').go(st, f'vc_empty_{c}', [p], post)
    return u
class PROP(Property):
    id = 'C25'; budget = 250
    assumptions = [LOGNOTE, 'strings, Values, maps, sets, vectors behave as their contracts say (Value: properties C18 and C20); their own == and < are lawful (a partial order that agrees with equality)',
                   'the edge type is not INT32_MIN, which has no opposite; a failed allocation is not considered']
    def units(self):
        out = []
        for c in REC:
            out.append((f'{c}: life', engine(c), u_life(c))); out.append((f'{c}: relations', engine(c), u_rel(c))); out.append((f'{c}: laws', engine(c), u_laws(c)))
            if c in HASH and c not in HASHLOOP: out.append((f'hash<{c}>', engine(c), u_hash(c)))
        out += [('Edge::reverse, format', engine('Edge'), u_edge), ('Edge: lookup', engine('Edge'), u_look('Edge', 'props', 'vc_null')), ('Map: lookup', engine('Map'), u_look('Map', 'kvs', 'vc_unknown')), ('Set: lookup', engine('Set'), u_count('Set', 'values')), ('List: lookup', engine('List'), u_count('List', 'values'))]
        return out
    search = search_prog(GSRC, 'graph_search', lambda tier: ['records', '20000' if tier == 'thorough' else '2000'])
