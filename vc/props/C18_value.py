from valuecommon import *
L = 'nebula::Value::'
def moved(v): return (v[0], ('moved', v[1])) if v and v[0] in BOXED else v
def src_after(c, v, mv):
    """what is left in the caller's own object"""
    return {(c.obj, 0): moved(v) if mv else v} if v and v[0] in BOXED else {}
def u_ctors(E):
    st = State(); p = obj(E, st, 'v', E.vsz)
    Run(E, L + 'Value()').go(st, 'vc_v_ctor0', [p], lambda s2, r: all_of(E, s2, [holds(E, s2, p, 'Empty', None, 'Value()')], {}, 'Value()'))
    for k in KINDS[1:]:
        for mv in (0, 1):
            st = State(); p = obj(E, st, 'v', E.vsz); c, v = content(E, st, k, 'x', ro=not mv); root = f'vc_v_ctor{"m" if mv else ""}_{k}'
            def post(s2, r): all_of(E, s2, [holds(E, s2, p, k, v, root)], src_after(c, v, mv), root)
            Run(E, L + f'Value({k}{"&&" if mv else " const&"})').go(st, root, [p, c], post)
def narrow(E, st, n):
    c = obj(E, st, 'n', n // 8); st.rw(c.obj).lazy = 'input'; st.rw(c.obj).ro = True
    return c, ('Int', (E.load(st, c, f'i{n}', n // 8),))
def u_narrow(E):
    for n in (8, 16, 32):
        for m in ('', 'm'):
            st = State(); p = obj(E, st, 'v', E.vsz); c, v = narrow(E, st, n); root = f'vc_v_ctor{m}_I{n}'
            Run(E, L + f'Value(int{n}_t{"&&" if m else " const&"})').go(st, root, [p, c], lambda s2, r: all_of(E, s2, [holds(E, s2, p, 'Int', v, root)], {}, root))
            for k in KINDS:
                st = State(); p, v0 = new(E, st, k, 'v'); c, v = narrow(E, st, n); root = f'vc_v_set{m}_I{n}'
                Run(E, L + f'setInt(int{n}_t{"&&" if m else " const&"})').go(st, root, [p, c], lambda s2, r: all_of(E, s2, [holds(E, s2, p, 'Int', v, root)], {}, f'{root}[{k}]'))
    v = ('Str', ('conv', 'Str', 'cstr', 's'))
    st = State(); p = obj(E, st, 'v', E.vsz); c = raw(E, st, 's', 8)
    Run(E, L + 'Value(char const*)').go(st, 'vc_v_ctor_cstr', [p, c], lambda s2, r: all_of(E, s2, [holds(E, s2, p, 'Str', v, 'Value(char*)')], {}, 'Value(char*)'))
    for k in KINDS:
        st = State(); p, v0 = new(E, st, k, 'v'); c = raw(E, st, 's', 8)
        Run(E, L + 'setStr(char const*)').go(st, 'vc_v_set_cstr', [p, c], lambda s2, r: all_of(E, s2, [holds(E, s2, p, 'Str', v, 'setStr')], {}, f'setStr(char*)[{k}]'))
def u_copy(E):
    for k in KINDS:
        for mv in (0, 1):
            st = State(); q, v = new(E, st, k, 'r'); p = obj(E, st, 'v', E.vsz); root = 'vc_v_move' if mv else 'vc_v_copy'
            if not mv: st.rw(q.obj).ro = True
            def post(s2, r):
                w = f'{root}[{k}]'
                all_of(E, s2, [holds(E, s2, p, k, v, w), holds(E, s2, q, 'Empty' if mv else k, None if mv else v, w + ' source')], {}, w)
            Run(E, L + f'Value(Value{"&&" if mv else " const&"})').go(st, root, [p, q], post)
def u_drop(E):
    for k in KINDS:
        for root in ('vc_v_dtor', 'vc_v_clear', 'vc_v_clear2'):
            st = State(); p, v = new(E, st, k, 'v')
            def post(s2, r): all_of(E, s2, [] if root == 'vc_v_dtor' else [holds(E, s2, p, 'Empty', None, f'{root}[{k}]')], {}, f'{root}[{k}]')
            Run(E, L + ('~Value()' if root == 'vc_v_dtor' else 'clear()')).go(st, root, [p], post)
def u_is(E):
    for k in KINDS:
        for i in KINDS + ['Numeric', 'BadNull']:
            st = State(); p, v = new(E, st, k, 'v'); st.rw(p.obj).ro = True
            def post(s2, r):
                if i == 'BadNull': want = z3.And(E.s(s2, v[1][0]) != 0, E.s(s2, v[1][0]) >= 1, E.s(s2, v[1][0]) <= 7) if k == 'Null' else False
                else: want = k in ('Int', 'Float') if i == 'Numeric' else i == k
                b = E.boolv(r); b = z3.BoolVal(b) if isinstance(b, bool) else b
                ob(E, s2, f'is{i}() of a {k}', z3.simplify(b == want))
            if i == 'BadNull' and k == 'Null': st.pc.append(z3.And(E.s(st, v[1][0]) >= 0, E.s(st, v[1][0]) <= 7))
            Run(E, L + ('empty()' if i == 'Empty' else f'is{i}()')).go(st, f'vc_v_is{i}', [p], post)
def u_get(E):
    for k in KINDS[1:]:
        for root in [f'vc_v_get_{k}', f'vc_v_mut_{k}'] + ([f'vc_v_getp_{k}'] if k in BOXES else []):
            for s in KINDS:
                st = State(); p, v = new(E, st, s, 'v')
                if 'mut' not in root: st.rw(p.obj).ro = True
                def post(s2, r):
                    w = f'{root}[{s}]'
                    if s != k: ob(E, s2, w + ' does not return for another type', False); return
                    own = holds(E, s2, p, k, v, w)
                    if k in BOXED: ob(E, s2, w + ': the result is the held object', (r.obj, r.off) in own[0])
                    else: ob(E, s2, w + ': the result is the held datum', r.obj == p.obj); ob(E, s2, w + ': content', eqc(E, s2, observe(E, s2, k, r), v))
                    all_of(E, s2, [own], {}, w)
                Run(E, L + ('get' if 'get' in root else 'mutable') + k + ('Ptr' if 'getp' in root else '') + '()').go(st, root, [p], post, abort=s != k)
def u_mov(E):
    for k in KINDS[1:]:
        for s in KINDS:
            st = State(); p, v = new(E, st, s, 'v'); o = obj(E, st, 'out', E.ksz[k]); root = f'vc_v_mov_{k}'
            def post(s2, r):
                w = f'{root}[{s}]'
                if s != k: ob(E, s2, w + ' does not return for another type', False); return
                if k not in BOXED: ob(E, s2, w + ': the content is returned', eqc(E, s2, observe(E, s2, k, o), v))
                all_of(E, s2, [holds(E, s2, p, 'Empty', None, w)], {(o.obj, 0): v} if k in BOXED else {}, w)
            Run(E, L + f'move{k}()').go(st, root, [o, p], post, abort=s != k)
def u_set(E):
    for k in KINDS[1:]:
        for s in KINDS:
            for m in ('', 'm') + (('u',) if k in BOXES else ()):
                st = State(); p, v0 = new(E, st, s, 'v'); root = f'vc_v_set{m}_{k}'
                c, v = content(E, st, k, 'x', ro=not m)
                u = c
                if m == 'u': st.rw(c.obj).kind = 'heap'; u = obj(E, st, 'owner', 8); quiet(E, st, 'vc_up_' + k, u, c)
                def post(s2, r):
                    w = f'{root}[{s}]'
                    all_of(E, s2, [holds(E, s2, p, k, v, w)], {} if m == 'u' else src_after(c, v, m), w)
                    if m == 'u': r = quiet(E, s2, 'vc_upget_' + k, u)[1]; ob(E, s2, f'{w}: the caller\'s pointer is given up', isinstance(r, Ptr) and r.obj is None)
                Run(E, L + f'set{k}({dict(m=k + "&&", u="unique_ptr&&").get(m, k + " const&")})').go(st, root, [p, u], post)
def asgn(mv, ks):
    root = 'vc_v_asm' if mv else 'vc_v_as'; lab = L + ('operator=(Value&&)' if mv else 'operator=(Value const&)')
    def u(E):
        for k in ks:
            for s in KINDS:
                st = State(); p, v0 = new(E, st, s, 'v'); q, v = new(E, st, k, 'r'); w = f'{root}[{s} = {k}]'
                if not mv: st.rw(q.obj).ro = True
                def post(s2, r):
                    ob(E, s2, w + ': returns itself', isinstance(r, Ptr) and r.obj == p.obj and r.off == 0)
                    all_of(E, s2, [holds(E, s2, p, k, v, w), holds(E, s2, q, 'Empty' if mv else k, None if mv else v, w + ' source')], {}, w)
                Run(E, lab).go(st, root, [p, q], post)
            st = State(); p, v = new(E, st, k, 'v'); w = f'{root}[{k} = itself]'
            def post(s2, r): all_of(E, s2, [holds(E, s2, p, k, v, w)], {}, w)
            Run(E, lab + ' with itself').go(st, root, [p, p], post)
    return u
def u_part(E):
    """assigning a part of the value's own content to it: the part is alive as long as the content is"""
    for mv in (0, 1):
        root = 'vc_v_asm' if mv else 'vc_v_as'
        for s in BOXES:
            for k in KINDS:
                st = State(); p, v0 = new(E, st, s, 'v'); q, v = new(E, st, k, 'part'); w = f'{root}[{s} = {k} inside it]'
                owner = list(holds(E, st, p, s, v0, w)[0])[0]
                def die(E, s2, ptr, ty, q=q, owner=owner):
                    if (ptr.obj, ptr.off) == owner and s2.mem[q.obj].alive:
                        quiet(E, s2, 'vc_v_dtor', q); s2.rw(q.obj).alive = False
                E.on_die = die
                def post(s2, r): all_of(E, s2, [holds(E, s2, p, k, v, w)], {}, w)
                Run(E, L + ('operator=(Value&&)' if mv else 'operator=(Value const&)') + ' with a part of its own content').go(st, root, [p, q], post)
                E.on_die = None
def u_swap(E):
    for root in ('vc_v_swap', 'vc_v_stdswap'):
        for k in KINDS:
            for s in KINDS:
                st = State(); p, v = new(E, st, k, 'a'); q, v2 = new(E, st, s, 'b'); w = f'{root}[{k}, {s}]'
                def post(s2, r): all_of(E, s2, [holds(E, s2, p, s, v2, w), holds(E, s2, q, k, v, w)], {}, w)
                Run(E, 'nebula::swap(Value&, Value&)' if root == 'vc_v_swap' else 'std::swap<Value>').go(st, root, [p, q], post)
class PROP(Property):
    id = 'C18'; budget = 400
    assumptions = [LOGNOTE]
    trusted_note = ['contained class types: opaque, ghost lifetimes (construct once, destroy once, moved-from stays destructible)']
    def units(self):
        mk = value_engine(); H = len(KINDS) // 2
        return [(n, mk, f) for n, f in [('constructors', u_ctors), ('narrow integers and C strings', u_narrow), ('copy and move', u_copy), ('destruction', u_drop), ('type queries', u_is), ('access', u_get), ('move out', u_mov), ('setters', u_set),
            ('copy assignment 1', asgn(0, KINDS[:H])), ('copy assignment 2', asgn(0, KINDS[H:])), ('move assignment 1', asgn(1, KINDS[:H])), ('move assignment 2', asgn(1, KINDS[H:])), ('assignment of a part', u_part), ('swap', u_swap)]]
    search = search_prog(VSRC, 'value_search', lambda tier: [2000 if tier == 'quick' else 20000, 'abort'])
