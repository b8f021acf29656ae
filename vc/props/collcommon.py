"""Lists, maps, vertices, edges and datasets inside Values, for the expressions on them: a record inside a Value has members that are functions of its
content; a record made here has a content from which its members can be read back."""
from exprcommon import *
MEM = dict(List=['values'], Map=['kvs'], Set=['values'], Vertex=['vid', 'tags'], Edge=['src', 'dst', 'type', 'name', 'ranking', 'props'], DataSet=['colNames', 'rows'], Path=['src.vid', 'src.tags', 'steps'])
def mem(c, f, x): return uf(f'{c}.{f}', [x], IN)
def recof(E, st, c, vals):
    """the content of a record with these members"""
    t = uf('rec.' + c, vals, IN)
    for f, v in zip(MEM[c], vals): fact(st, mem(c, f, t) == v)
    return t
def listseq(E, st, x):
    """the elements of the list with content x"""
    v = z3.simplify(mem('List', 'values', x))
    if z3.is_app(x) and x.decl().name() == 'rec.List': v = x.arg(0)
    s = st.g.get(('seqof', str(v)))
    return s if s is not None else E.seqof(E, st, T(v))
def collsetup(E):
    on = E.on_first; get, put = E.g_get, E.g_put; V = r'nebula::Value::'
    E.flatc['Pair'] = [('key', 0, 'Str'), ('ex', 32, 'ptr')]; E.sizes['Pair'] = 40; E.flatc['Ref'] = [('', 0, 'ptr')]; E.sizes['Ref'] = 8
    def record_of(E, st, k, c):
        key = ('rec', k, str(c)); o = st.g.get(key)
        if o is not None: return Ptr(o, 0)
        p = obj(E, st, f'{k} in a value', E.sizes[k])
        st.rw(p.obj).g['content'] = c
        for f, off, t in flat(E, k):
            q = Ptr(p.obj, off); x = mem(k, f, c)
            if isinstance(t, int): st.pc.append(z3.And(x >= -(1 << (t - 1)), x < 1 << (t - 1))); E.store(st, q, IV(t, x, -(1 << (t - 1)), (1 << (t - 1)) - 1), f'i{t}', t // 8)
            else: st.rw(q.obj).g[('lt', q.off)] = (t, T(x))
        st.rw(p.obj).ro = True; st.g[key] = p.obj; return p
    E.record_of = record_of
    def seqid(st, v):
        if isinstance(v, Seq): t = z3.simplify(v.tid()); st.g[('seqof', str(t))] = v; return t
        if isinstance(v, str) and v == 'empty': st.g[('seqof', 'id:empty')] = EMPTY
        return tid(v)
    def content(E, st, k, p):
        vals = []
        for f, off, t in flat(E, k):
            q = E.gep(st, p, off, []); vals.append(zi(E.s(st, E.load(st, q, f'i{t}', t // 8))) if isinstance(t, int) else seqid(st, get(st, q, t, 'member')))
        if len(vals) == 1 and z3.is_app(vals[0]) and vals[0].decl().name() == f'{k}.{MEM[k][0]}': return vals[0].arg(0)
        return recof(E, st, k, vals)
    for k in MEM:
        if k not in E.own2: continue
        for m in (' const&', '&&'):
            on(V + r'Value\(nebula::' + k + m + r'\)', lambda E, st, a, f, i, k=k: (E.g_start(E, st, a[0], 'Value', T(mk(E, st, k, content(E, st, k, a[1]))), 'Value of a ' + k), None)[1])
            on(V + 'set' + k + r'\(nebula::' + k + m + r'\)', lambda E, st, a, f, i, k=k: (get(st, a[0], 'Value', 'set' + k), put(st, a[0], 'Value', T(mk(E, st, k, content(E, st, k, a[1])))), None)[2])
    # a part of a vector
    def part(E, st, a, f, i):
        p, q = a[1], a[2]
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and p.obj is not None and 'own' in st.mem[p.obj].g): raise Unsupported('a vector made of something else than a part of a vector')
        vp, t = st.mem[p.obj].g['own']; es = E.sizes[t]; s = E.seqof(E, st, get(st, vp, 'vector', 'part'))
        def pos(o):
            c0, d = E.lin(z3.simplify(zi(o)))
            if c0 % es or any(x % es for x, _ in d.values()): raise Unsupported('an iterator between elements')
            return z3.simplify(z3.Sum([z3.IntVal(c0 // es)] + [l * (x // es) for x, l in d.values()]))
        lo, hi = pos(p.off), pos(q.off); E.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= s.n), 'precondition', 'the range is a part of the vector'); E.g_start(E, st, a[0], 'vector', Seq(z3.simplify(hi - lo), lambda f, j: s.get(f, z3.simplify(zi(j) + lo))), 'vector'); return None
    on(CT['vector'] + r'::vector<.*>\(.*__normal_iterator<.*__normal_iterator<.*allocator<.*> const&\)', part)
    # characters and names
    def charat(E, st, a, f, i):
        x = tid(get(st, a[0], 'Str', 'operator[]')); j = zi(E.u(st, a[1])); E.oblige(st, j <= slen(E, st, x), 'bounds', 'the position is in the string')
        for text, t in E.lits.items():
            if text: fact(st, uf('str.at', [t, zi(0)], IN) == ord(text[0]))
        c = uf('str.at', [x, j], IN); st.pc.append(z3.And(c >= -128, c < 128)); p = obj(E, st, 'character', 1); E.store(st, p, IV(8, c, -128, 127), 'i8', 1); st.rw(p.obj).ro = True; return p
    on(STRQ + r'::operator\[\]\(unsigned long\)( const)?', charat)
    for k in ('Date', 'Time', 'DateTime'): on(r'nebula::time::TimeUtils::get' + k + r'Attr\(.*\)', lambda E, st, a, f, i, k=k: (E.g_start(E, st, a[0], 'Value', T(norm(E, st, uf('attr.' + k, [tid(st.mem[a[1].obj].g[('lt', a[1].off)][1]), tid(get(st, a[2], 'Str', 'attribute'))], IN))), 'attribute'), None)[1])
    # sets and maps that take elements one by one
    def sins(E, st, a, f, i):
        g = get(st, a[0], 'set', 'emplace')
        if len(a) != 2: raise Unsupported('emplace with several arguments')
        put(st, a[0], 'set', T(uf('set.add', [tid(g), tid(get(st, a[1], 'Value', 'emplace'))], IN))); return Agg([obj(E, st, 'arg position', 8), z3.Bool(fresh_name('inserted'))])
    on(r'(.* )?' + CT['set'] + r'::(emplace|insert)(<.*>)?\(.*\)', sins)
    def mins(E, st, a, f, i):
        g = get(st, a[0], 'map', 'emplace')
        if len(a) != 3: raise Unsupported('emplace into a map')
        put(st, a[0], 'map', T(uf('map.emplace', [tid(g), tid(get(st, a[1], 'Str', 'key')), tid(get(st, a[2], 'Value', 'value'))], IN))); return Agg([obj(E, st, 'arg position', 8), z3.Bool(fresh_name('inserted'))])
    on(r'(.* )?' + CT['map'] + r'::(emplace|try_emplace)<.*>\(.*\)', mins)
    E.content = content
def collengine(js, own=('List', 'Map', 'Set', 'Vertex', 'Edge', 'DataSet', 'Tag'), extra=None):
    mk0 = exprengine(js, own)
    def mk():
        E = mk0(); collsetup(E); extra(E) if extra else None; return E
    return mk
def eqlist(E, st, g, want, what):
    """g is a list with the elements of the sequence"""
    c = [x for x in (g,) if z3.is_app(x) and x.decl().name() == 'v.mkList']
    ob(E, st, what + ': a list', bool(c))
    if not c: return
    s = listseq(E, st, g.arg(0)); eqseq(E, st, 'Value', s, want, what)
