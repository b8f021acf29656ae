from ghost import *
NAMES = "Inserted Error NoSuchFile NotSupported SyntaxError SemanticError StatementEmpty KeyNotFound PartialSuccess SpaceNotFound HostNotFound TagNotFound EdgeNotFound UserNotFound IndexNotFound GroupNotFound ZoneNotFound LeaderChanged Balanced PartNotFound ListenerNotFound PermissionError".split()
LBL = 'nebula::Status::'
MAX = 65535
_js = {}
def module():
    if 'm' not in _js: _js['m'] = compile_ir([VERIF + '/harness/status_driver.cpp', SRC + 'base/Status.cpp'], 'status')
    return _js['m']
def engine():
    mk0 = std_engine(module())
    def mk():
        E = mk0()
        def opnew(E, st, a, f, i):
            n = E.u(st, a[0]); p = E.alloc(st, 'new', n, 'heap'); st.rw(p.obj).rope = [Sl(('undef',), 0, n)]; st.rw(p.obj).g['blk'] = True; return p
        E.on_first(r'operator new(\[\])?\(unsigned long\)', opnew)
        abort_handler(E)
        E.codes = {n: E.u(State(), quiet(E, State(), 'vc_st_k_' + n)[1]) for n in NAMES}
        E.osz = E.u(State(), quiet(E, State(), 'vc_st_size')[1])
        return E
    return mk
def msg(E, st, nm, hi=MAX):
    n = z3.Int(nm + '.len'); st.pc.append(z3.And(n >= 0, n <= hi)); E.set_rg(st, n, 0, hi); rope = [Sl(('buf', nm), 0, n)]
    o = E.new_obj(st, nm + '.msg', n, 'input'); o.rope = list(rope); o.ro = True
    return Ptr(o.id, 0), IV(64, n, 0, hi), rope
def code(E, st, nm):
    c = z3.Int(nm + '.code'); st.pc.append(z3.Or(*[c == k for k in E.codes.values()])); E.set_rg(st, c, 1, 501); return IV(16, c, 1, 501)
def new(E, st, s, nm, c=None):
    """-> (object, code or None, message rope)"""
    p = obj(E, st, nm, E.osz)
    if s == 'ok': quiet(E, st, 'vc_st_ctor0', p); return p, None, []
    m, n, rope = msg(E, st, nm); c = c or code(E, st, nm)
    E.quiet += 1
    try:
        outs = E.exec_fn(st, E.mod.find('vc_st_make'), [p, c, m, n])
        if len(outs) != 1: raise Unsupported(f'the constructor has {len(outs)} paths')
    finally: E.quiet -= 1
    if outs[0][0] is not st: st.__dict__.update(outs[0][0].__dict__)
    return p, c, rope
def state_of(E, st, p): return quiet(E, st, 'vc_st_state', p)[1]
def is_status(E, st, p, c, rope, what, own):
    """the object holds (c, rope) in the representation the constructor gives; own collects the buffers owned"""
    s = state_of(E, st, p)
    if not isinstance(s, Ptr): raise Unsupported('state pointer is ' + repr(s))
    if c is None: ob(E, st, what + ': the status is OK', s.obj is None); return
    if s.obj is None or not isinstance(s.off, int): ob(E, st, what + ': the status is not OK', False); return
    o = st.mem[s.obj]
    ob(E, st, what + ': its buffer is alive and its own', o.alive and s.off == 0 and s.obj not in own, 'lifetime'); own.add(s.obj)
    if not o.alive or o.rope is None: return
    want = ref_rope(E, st, c, rope)
    ob(E, st, what + ': code and message are the given ones', E.rope_eq_cond(st, o.rope, want) is True)
def ref_rope(E, st, c, rope):
    s2 = st.fork(); p = obj(E, s2, 'ref', E.osz); n = E.rope_len(rope); m = E.new_obj(s2, 'ref.msg', n, 'input'); m.rope = list(rope)
    E.quiet += 1
    try: outs = E.exec_fn(s2, E.mod.find('vc_st_make'), [p, c, Ptr(m.id, 0), IV(64, n, 0, MAX)])
    finally: E.quiet -= 1
    s3 = outs[0][0]
    return s3.mem[state_of(E, s3, p).obj].rope
def owned(E, st, what, own):
    lost = [o.name for o in st.mem.values() if o.g.get('blk') and o.alive and o.id not in own]
    ob(E, st, what + ': no buffer is lost', not lost, 'lifetime')
def observe(E, st, p, c, rope, what):
    """code(), ok(), message() through the public interface"""
    s2, r = quiet(E, st.fork(), 'vc_st_code', p); ob(E, st, what + ': code()', E.u(st, r) == (0 if c is None else E.u(st, c)))
    so = E.new_obj(st, 'out', 32, 'stack')
    s2, _ = quiet(E, st.fork(), 'vc_st_message', Ptr(so.id, 0), p)
    ob(E, st, what + ': message()', E.rope_eq_cond(s2, stdlib.str_get(E, s2, Ptr(so.id, 0)), rope) is True)
ST = ('ok', 'bad')
def u_make(E):
    st = State(); p = obj(E, st, 's', E.osz); m, n, rope = msg(E, st, 'm', 1 << 40); c = code(E, st, 'm')
    def post(s2, r):
        k = z3.simplify(z3.If(n.t > MAX, MAX, n.t))
        if E.valid(s2, n.t <= MAX): cut = rope
        elif E.valid(s2, n.t > MAX): cut = [Sl(('buf', 'm'), 0, MAX)]
        else: raise Unsupported('a path covers both short and long messages')
        own = set(); is_status(E, s2, p, c, cut, 'constructor', own); owned(E, s2, 'constructor', own); observe(E, s2, p, c, cut, 'constructor')
    for rng in (n.t <= MAX, n.t > MAX):
        s = st.fork(); s.pc.append(rng); Run(E, LBL + 'Status(Code, StringPiece)').go(s, 'vc_st_make', [p, c, m, n], post)
    for root in ('ctor0', 'OK'):
        st = State(); p = obj(E, st, 's', E.osz)
        def post(s2, r): own = set(); is_status(E, s2, p, None, [], root, own); owned(E, s2, root, own); observe(E, s2, p, None, [], root)
        Run(E, LBL + root).go(st, 'vc_st_' + root, [p], post)
def u_copy(E):
    for root, mv in (('copy', 0), ('from', 0), ('move', 1)):
        for s in ST:
            st = State(); q, c, rope = new(E, st, s, 'r'); p = obj(E, st, 'e', E.osz); st.rw(q.obj).ro = not mv
            def post(s2, r):
                own = set(); nm = f'{root}[{s}]'; is_status(E, s2, p, c, rope, nm, own); is_status(E, s2, q, None if mv else c, [] if mv else rope, nm + ' source', own); owned(E, s2, nm, own); observe(E, s2, p, c, rope, nm)
            Run(E, LBL + root).go(st, 'vc_st_' + root, [p, q], post)
    for root, mv in (('ascopy', 0), ('asmove', 1)):
        for s in ST:
            for s1 in ST:
                st = State(); q, c, rope = new(E, st, s, 'r'); p, _, _ = new(E, st, s1, 'e'); st.rw(q.obj).ro = not mv
                def post(s2, r):
                    own = set(); nm = f'{root}[{s1} = {s}]'; is_status(E, s2, p, c, rope, nm, own); is_status(E, s2, q, None if mv else c, [] if mv else rope, nm + ' source', own); owned(E, s2, nm, own); observe(E, s2, p, c, rope, nm)
                    ob(E, s2, nm + ' returns the assigned object', isinstance(r, Ptr) and r.obj == p.obj)
                Run(E, LBL + 'operator=' + ('&&' if mv else '')).go(st, 'vc_st_' + root, [p, q], post)
            st = State(); p, c, rope = new(E, st, s, 'e')
            def post(s2, r): own = set(); is_status(E, s2, p, c, rope, root + ' itself', own); owned(E, s2, root + ' itself', own)
            Run(E, LBL + 'operator= to itself').go(st, 'vc_st_' + root, [p, p], post)
    for s in ST:
        st = State(); p, c, rope = new(E, st, s, 'e'); Run(E, LBL + '~Status').go(st, 'vc_st_dtor', [p], lambda s2, r: owned(E, s2, 'destructor', set()))
def u_query(E):
    for s in ST:
        st = State(); p, c, rope = new(E, st, s, 'e'); st.rw(p.obj).ro = True
        ct = z3.IntVal(0) if c is None else c.t
        Run(E, LBL + 'ok').go(st.fork(), 'vc_st_ok', [p], lambda s2, r: ob(E, s2, 'ok() exactly for OK', E.boolv(r) is (s == 'ok')))
        Run(E, LBL + 'code').go(st.fork(), 'vc_st_code', [p], lambda s2, r: ob(E, s2, 'code() is the code', E.u(s2, r) == ct))
        so = E.new_obj(st, 'out', 32, 'stack'); o = Ptr(so.id, 0)
        Run(E, LBL + 'message').go(st.fork(), 'vc_st_message', [o, p], lambda s2, r: ob(E, s2, 'message() is the message', E.rope_eq_cond(s2, stdlib.str_get(E, s2, o), rope) is True))
        for n in NAMES: Run(E, LBL + 'is' + n).go(st.fork(), 'vc_st_is_' + n, [p], lambda s2, r: ob(E, s2, f'is{n} exactly for its code', (lambda b: b == (ct == E.codes[n]))(z3.BoolVal(E.boolv(r)) if isinstance(E.boolv(r), bool) else E.boolv(r))))
        for t in ST:
            s3 = st.fork(); q, d, _ = new(E, s3, t, 'f'); dt = z3.IntVal(0) if d is None else d.t
            Run(E, LBL + 'operator==').go(s3.fork(), 'vc_st_eq', [p, q], lambda s2, r: ob(E, s2, '== exactly for equal codes', (z3.BoolVal(r) if isinstance(r, bool) else E.boolv(r)) == (ct == dt)))
            Run(E, LBL + 'operator!=').go(s3.fork(), 'vc_st_ne', [p, q], lambda s2, r: ob(E, s2, '!= is the negation', (z3.BoolVal(r) if isinstance(r, bool) else E.boolv(r)) == (ct != dt)))
    ob(E, State(), 'the codes are distinct and not OK', len(set(E.codes.values())) == len(NAMES) and 0 not in E.codes.values())
def u_names(E):
    st = State(); p, _, _ = new(E, st, 'ok', 'e'); so = E.new_obj(st, 'out', 32, 'stack'); o = Ptr(so.id, 0)
    Run(E, LBL + 'toString').go(st, 'vc_st_toString', [o, p], lambda s2, r: ob(E, s2, 'OK is shown as OK', stdlib.rope_literal(E, stdlib.str_get(E, s2, o)) == b'OK'))
    for n in NAMES:
        st = State(); p, c, rope = new(E, st, 'bad', 'e', IV(16, E.codes[n])); st.rw(p.obj).ro = True; so = E.new_obj(st, 'out', 32, 'stack'); o = Ptr(so.id, 0)
        want = ([] if n == 'Error' else [Sl(('lit', (n + ': ').encode()), 0, len(n) + 2)]) + rope
        Run(E, LBL + 'toString').go(st, 'vc_st_toString', [o, p], lambda s2, r: ob(E, s2, f'{n} is shown as its name and the message', E.rope_eq_cond(s2, stdlib.str_get(E, s2, o), want) is True))
        st = State(); p = obj(E, st, 's', E.osz); m, k, rope = msg(E, st, 'm')
        def post(s2, r): own = set(); is_status(E, s2, p, IV(16, E.codes[n]), rope, n, own); owned(E, s2, n, own)
        Run(E, LBL + n).go(st, 'vc_st_gen_' + n, [p, m, k], post)
        st = State(); p = obj(E, st, 's', E.osz)
        def post(s2, r): own = set(); is_status(E, s2, p, IV(16, E.codes[n]), [], n, own); owned(E, s2, n, own)
        Run(E, LBL + n + '()').go(st, 'vc_st_gen0_' + n, [p], post)
class PROP(Property):
    id = 'C09'
    budget = 200
    assumptions = ['memory allocation does not fail', LOGNOTE, 'printf-style construction (vsnprintf) is not covered']
    def units(self):
        mk = engine()
        return [(n, mk, f) for n, f in (('construction', u_make), ('copy, move, destruction', u_copy), ('queries', u_query), ('names', u_names))]
    search = search_prog(['base/Status.cpp'], 'status_search', lambda tier: [20000 if tier == 'quick' else 300000])
