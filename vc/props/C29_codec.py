from objcommon import *
FATAL = ('LabelAttribute', 'VersionedVariable', 'InputProperty', 'VariableProperty', 'TextSearch')
FORM29 = dict(SubscriptRange=['', ' b', ' c'], Aggregate=[''], Predicate=['', ' b'])
ALL = [c for c in list(CLS) + PROPS if c not in FATAL]
def full(c): return f'nebula::{c.split()[0]}Expression'
def u_again(cls):
    def u(E):
        c0 = cls.split()[0]; st, p = new(E, State(), cls, 'a')
        if c0 == 'UUID': st.pc.append(slen(E, st, z3.Int('a.n')) > 0)
        if c0 == 'Variable': st, q = quiet(E, st, 'vc_inner_Variable', p); E.store(st, q, IV(8, z3.IntVal(1), 1, 1), 'i8', 1)
        if c0 == 'Predicate': fact(st, z3.Implies(slen(E, st, z3.Int('a.v')) == 0, z3.Int('a.v') == z3.Int('str:')))     # there is one empty string
        enc = obj(E, st, 'encoder', 32); st.rw(enc.obj).g[('lt', 0)] = ('vector', 'empty'); E.etys[(enc.obj, 0)] = 'Token'
        dec = obj(E, st, 'decoder', 64); E.store(st, dec, IV(64, z3.IntVal(0), 0, 1 << 45), 'i64', 8)
        old = shape(E, st, p, c0); s1 = st.fork(); pool = Ptr(st.g['pool'], 0)
        def post(s2, r):
            ob(E, s2, f'{cls}: what is decoded is a new object', isinstance(r, Ptr) and r.obj != p.obj and r.obj not in s1.mem)
            compare(E, s1, old, s2, r, AG, f'{cls}: in the decoded one', c0); compare(E, s1, old, s2, p, lambda x: x, f'{cls}: in the original', c0, False)
            d = s2.mem[dec.obj]; ob(E, s2, f'{cls}: all that was written has been read', zi(E.u(s2, E.load(s2, dec, 'i64', 8))) == zi(d.g['tokens'].n))
        Run(E, full(cls) + '::writeTo').go(st, 'vc_again', [p, enc, dec, pool], post)
    return u
# ------------------------------------------------------------------ the bytes of one item
KD = 'Expression::Encoder* e, '
BYTES = BODY + """
X void vc_w_kind(Expression::Encoder* e, uint8_t k) { *e << Expression::Kind(k); }
X void vc_w_size(Expression::Encoder* e, size_t n) { *e << n; }
X void vc_w_type(Expression::Encoder* e, Value::Type t) { *e << t; }
X void vc_w_str(Expression::Encoder* e, const std::string* s) { *e << *s; }
X void vc_w_val(Expression::Encoder* e, const Value* v) { *e << *v; }
X void vc_w_expr(Expression::Encoder* e, const Expression* x) { *e << *x; }
X std::string* vc_buf(Expression::Encoder* e) { return &e->buf_; }
X uint8_t vc_r_kind(Expression::Decoder* d) { return uint8_t(d->readKind()); }
X size_t vc_r_size(Expression::Decoder* d) { return d->readSize(); }
X size_t vc_r_type(Expression::Decoder* d) { return size_t(d->readValueType()); }
X void vc_r_str(Expression::Decoder* d, std::string* s) { new (s) std::string(d->readStr()); }
X void vc_r_val(Expression::Decoder* d, Value* v) { new (v) Value(d->readValue()); }
X Expression* vc_r_expr(Expression::Decoder* d, ObjectPool* p) { return d->readExpression(p); }
X bool vc_done(Expression::Decoder* d) { return d->finished(); }
X const char** vc_at(Expression::Decoder* d) { return &d->ptr_; }
X Expression* vc_from(ObjectPool* p, const char* b, const char* e) { return Expression::decode(p, folly::StringPiece(b, e)); }
X void vc_whole(const Expression* x, std::string* out) { new (out) std::string(x->encode()); }
X void vc_whole2(const Expression* x, std::string* out) { new (out) std::string(Expression::encode(*x)); }
X Expression::Decoder* vc_mk(const char* b, const char* e) { return new Expression::Decoder(folly::StringPiece(b, e)); }
"""
def bytesetup(E):
    """the encoder's string is a list of pieces (width, what); the decoder reads cells of a block of memory"""
    on = E.on_first
    def append(E, st, a, f, i):
        n = z3.simplify(zi(E.u(st, a[2]))); src = st.mem[a[1].obj].g.get('dataof'); o = st.rw(a[0].obj); k = ('pieces', a[0].off)
        if src is not None: E.oblige(st, z3.And(n == slen(E, st, src), zi(a[1].off) == 0), 'postcondition', 'all bytes of the string are appended'); v = ('str', src)
        elif z3.is_int_value(n): v = (n.as_long(), E.load(st, a[1], f'i{8 * n.as_long()}', n.as_long()))
        else: raise Unsupported('bytes of another kind')
        o.g[k] = o.g.get(k, []) + [v]; return a[0]
    on(STRQ + r'::append\(char const\*, unsigned long\)', append)
    on(STRQ + r'::reserve\(unsigned long\)', lambda E, st, a, f, i: None)
    def data(E, st, a, f, i): p = obj(E, st, 'bytes of a string', 1 << 20); st.rw(p.obj).g['dataof'] = tid(E.g_get(st, a[0], 'Str', 'data')); return p
    on(STRQ + r'::(data|c_str)\(\)( const)?', data)
    def mvctor(E, st, a, f, i):
        g = st.mem[a[1].obj].g; k = ('pieces', a[1].off)
        if k not in g: return NotImplemented
        st.rw(a[0].obj).g[('pieces', a[0].off)] = g[k]; st.rw(a[1].obj).g[k] = []; return None
    on(STRQ + r'::basic_string\((' + STRQ + r')(&&| const&)\)', mvctor)
    def make(E, st, a, f, i):
        t = st.mem[a[1].obj].g.get('strat'); n = E.u(st, a[2])
        if t is None: return NotImplemented
        E.oblige(st, z3.And(zi(a[1].off) == t[0], zi(n) == slen(E, st, t[1])), 'postcondition', 'the string is made from its bytes'); put_(st, a[0], t[1]); return None
    def put_(st, p, t): st.rw(p.obj).g[('lt', p.off)] = ('Str', T(t))
    on(STRQ + r'::basic_string(<.*>)?\(char const\*, unsigned long, std::allocator<char> const&\)', make)
    def ser(E, st, a, f, i):
        o = st.rw(a[1].obj); k = ('pieces', a[1].off); o.g[k] = o.g.get(k, []) + [('val', E.vt(st, a[0]))]; return None
    on(r'(.* )?apache::thrift::CompactSerializer::serialize<.*>\(.*\)', ser)
    def des(E, st, a, f, i):
        b, e, out = a[0], a[1], a[2]; w = st.mem[b.obj].g.get('valat') if isinstance(b, Ptr) and b.obj is not None else None
        if w is None: raise Unsupported('another range')
        E.oblige(st, z3.And(zi(b.off) == w[0], z3.BoolVal(isinstance(e, Ptr) and e.obj == b.obj), zi(e.off) == w[2]), 'postcondition', 'the value is read from here to the end of the bytes')
        st.rw(out.obj).g[('lt', out.off)] = ('Value', T(norm(E, st, w[1]))); return IV(64, w[3], 0, 1 << 40)
    on(r'(.* )?apache::thrift::CompactSerializer::deserialize<.*>\(.*\)', des)
    st = State(); E.probe = []; E.quiet += 1
    try: E.exec_fn(st, E.mod.find('vc_w_expr'), [obj(E, st, 'encoder', 32), E.subexpr(E, st, z3.Int('probe'))])
    except DropPath: pass
    finally: E.quiet -= 1
    E.slots[E.probe[0]] = 'writeTo'; E.probe = None
    def wr(E, st, a): o = st.rw(a[1].obj); k = ('pieces', a[1].off); o.g[k] = o.g.get(k, []) + [('expr', E.who(st, a[0]))]; return None
    E.virt['writeTo'] = wr
    def dec(E, st, a, f, i): st.g['decoded'] = (a[0], a[1], tuple(c for c in st.mem[a[1].obj].cells.items())); return E.subexpr(E, st, z3.Int('decoded'))
    on(r'nebula::Expression::decode\(nebula::ObjectPool\*, nebula::Expression::Decoder&\)', dec)
def bytesmods(): return module_of('exprbytes', ['Expression'], BYTES) if False else module_of('exprbytes', sorted(x.split('/')[-1][:-4] for x in __import__('glob').glob(SRC + 'expression/*Expression.cpp')), BYTES)
def bytesengine(js): return collengine(js, own=('List', 'Map', 'Set'), extra=bytesetup)
def buf(E, st, enc): return quiet(E, st, 'vc_buf', enc)
def pieces(st, p): return st.mem[p.obj].g.get(('pieces', p.off), [])
def u_write(what):
    def u(E):
        st = State(); enc = obj(E, st, 'encoder', 32); st, b = buf(E, st, enc); st.rw(b.obj).g[('pieces', b.off)] = [('before', z3.Int('before'))]; x = z3.Int('x')
        if what == 'kind': st.pc += [x >= 0, x < 256]; arg = IV(8, x, 0, 255); want = [(1, x)]
        elif what in ('size', 'type'): st.pc += [x >= 0, x < 1 << 64]; arg = IV(64, x, 0, (1 << 64) - 1); want = [(8, x)]
        elif what == 'str': arg = value(E, st, 'Str', 32, T(x), ro=True); want = None
        elif what == 'val': arg = value(E, st, 'Value', E.sizes['Value'], T(norm(E, st, x)), ro=True); want = [('val', E.vt(st, arg))]
        else: arg = E.subexpr(E, st, x); want = [('expr', x)]
        def post(s2, r):
            w = want; g = pieces(s2, b)
            if what == 'str': n = slen(E, s2, x); w = [(8, n)] + ([] if E.valid(s2, n == 0) else [('str', x)])
            ok = len(g) == 1 + len(w) and g[0][0] == 'before' and all(y[0] == z[0] for y, z in zip(g[1:], w)); ob(E, s2, f'writing a {what}: its bytes go to the end of the buffer, in order', ok)
            if ok:
                for y, z in zip(g[1:], w): v = y[1]; ob(E, s2, f'writing a {what}: the bytes are those of the {what}', (zi(E.u(s2, v)) if isinstance(v, IV) else zi(v)) == zi(z[1]))
        Run(E, 'nebula::Expression::Encoder::operator<<').go(st, 'vc_w_' + what, [enc, arg], post)
    return u
def u_read(what):
    def u(E):
        st = State(); w = obj(E, st, 'the encoded bytes', 1 << 40); n = z3.Int('length'); x = z3.Int('x'); at = 24; vl = z3.Int('bytes of the value'); o = st.rw(w.obj); sz = slen(E, st, x) if what == 'str' else None
        need = {'kind': 1, 'size': 8, 'type': 8, 'expr': 1}.get(what); need = 8 + sz if what == 'str' else vl if what == 'val' else need
        st.pc += [vl > 0, vl < 1 << 30, n >= at + need, n < 1 << 40]; st, d = quiet(E, st, 'vc_mk', w, Ptr(w.obj, n)); st, pp = quiet(E, st, 'vc_at', d); E.store(st, pp, Ptr(w.obj, at), 'ptr', 8)
        o = st.rw(w.obj)
        if what == 'kind': st.pc += [x >= 0, x < 256]; E.store(st, Ptr(w.obj, at), IV(8, x, 0, 255), 'i8', 1)
        elif what in ('size', 'type'): st.pc += [x >= 0, x < 1 << 63]; E.store(st, Ptr(w.obj, at), IV(64, x, 0, (1 << 63) - 1), 'i64', 8)
        elif what == 'str': st.pc += [sz < 1 << 32]; E.store(st, Ptr(w.obj, at), IV(64, sz, 0, (1 << 32)), 'i64', 8); st.rw(w.obj).g['strat'] = (at + 8, x); fact(st, z3.Implies(sz == 0, x == z3.Int('id:empty')))
        elif what == 'val': st.rw(w.obj).g['valat'] = (at, x, n, vl)
        out = obj(E, st, 'result', 64); pool = obj(E, st, 'pool', 64); args = {'str': [d, out], 'val': [d, out], 'expr': [d, pool]}.get(what, [d])
        def post(s2, r):
            p = E.load(s2, pp, 'ptr', 8); moved = need if what != 'expr' else 0
            ob(E, s2, f'reading a {what}: the reader stands behind it', z3.And(z3.BoolVal(isinstance(p, Ptr) and p.obj == w.obj), zi(p.off) == at + moved) if isinstance(p, Ptr) else False)
            if what in ('kind', 'size', 'type'): ob(E, s2, f'reading a {what}: what was written', zi(E.u(s2, r)) == x)
            elif what == 'expr': c = s2.g.get('decoded'); ob(E, s2, 'reading an expression: decoded from here', c is not None and c[0].obj == pool.obj and c[1].obj == d.obj and isinstance(r, Ptr) and 'expr' in s2.mem[r.obj].g)
            else: g = s2.mem[out.obj].g.get(('lt', 0)); ob(E, s2, f'reading a {what}: what was written', g is not None and tid(g[1]) == (x if what == 'str' else norm(E, s2, x)))
        Run(E, 'nebula::Expression::Decoder::read' + what.capitalize()).go(st, 'vc_r_' + what, args, post)
    return u
def u_whole(fn):
    def u(E):
        st = State(); x = z3.Int('x'); out = obj(E, st, 'result', 32)
        Run(E, 'nebula::Expression::encode').go(st, fn, [E.subexpr(E, st, x), out], lambda s2, r: ob(E, s2, 'encode() gives what writeTo wrote', [k[0] for k in pieces(s2, out)] == ['expr'] and pieces(s2, out)[0][1] == x))
    return u
def u_from(E):
    st = State(); w = obj(E, st, 'the encoded bytes', 1 << 40); n = z3.Int('length'); st.pc += [n >= 0, n < 1 << 40]; pool = obj(E, st, 'pool', 64)
    def post(s2, r):
        c = s2.g.get('decoded')
        if c is None: ob(E, s2, 'decode(): nothing is decoded only from nothing', z3.And(z3.BoolVal(isinstance(r, Ptr) and r.obj is None), n == 0))
        else:
            ps = [v[1].off for _, v in sorted(c[2]) if isinstance(v[1], Ptr) and v[1].obj == w.obj]; ob(E, s2, 'decode(): all the bytes, from their beginning', z3.And(n > 0, z3.BoolVal(len(ps) == 3 and c[0].obj == pool.obj), *[zi(a) == b for a, b in zip(ps, (0, n, 0))])); ob(E, s2, 'decode(): what was decoded is given', isinstance(r, Ptr) and r.obj is not None and 'expr' in s2.mem[r.obj].g)
    Run(E, 'nebula::Expression::decode').go(st, 'vc_from', [pool, w, Ptr(w.obj, n)], post)
def u_done(E):
    st = State(); w = obj(E, st, 'the encoded bytes', 1 << 40); n, q = z3.Int('length'), z3.Int('position'); st.pc += [n >= 0, n < 1 << 40, q >= 0, q <= n]; st, d = quiet(E, st, 'vc_mk', w, Ptr(w.obj, n)); st, pp = quiet(E, st, 'vc_at', d); E.store(st, pp, Ptr(w.obj, q), 'ptr', 8)
    Run(E, 'nebula::Expression::Decoder::finished').go(st, 'vc_done', [d], lambda s2, r: ob(E, s2, 'finished(): exactly at the end', (zb2(r) if not isinstance(r, IV) else zi(E.u(s2, r)) != 0) == (q == n)))
class PROP(Property):
    id = 'C29'; budget = 400
    assumptions = [LOGNOTE]
    def units(self):
        P = objengine(mods())
        return [('round trip ' + c, P, u_again(c)) for b in ALL for c in (b + f for f in FORM29.get(b, FORMS.get(b, [''])))] + self.bytes()
    def bytes(self):
        Q = bytesengine(bytesmods()); I = ('kind', 'size', 'type', 'str', 'val', 'expr')
        return [('write ' + w, Q, u_write(w)) for w in I] + [('read ' + w, Q, u_read(w)) for w in I] + [('encode', Q, u_whole('vc_whole')), ('encode of', Q, u_whole('vc_whole2')), ('decode', Q, u_from), ('finished', Q, u_done)]
    search = expr_search('codec', 30000, 150000)
