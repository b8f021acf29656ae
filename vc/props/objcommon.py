"""Expression objects as members: an object is made by its own factory over arbitrary members, and what clone(), encode + decode and operator== do
is compared member by member. Sub-expressions are opaque: their copies, what comes back from their wire form and their equality are functions of them."""
from collcommon import *
CLS = dict(Arithmetic='2', Unary='1', Relational='2', Logical='V', Subscript='2', Attribute='2', TypeCasting='1', FunctionCall='F', Aggregate='1', UUID='', Variable='', VersionedVariable='', List='V', Set='V', Map='V', Label='', Case='V', Predicate='2', ListComprehension='3', Reduce='3', PathBuild='V', Column='', Constant='', Vertex='', Edge='', LabelAttribute='', SubscriptRange='3', TextSearch='')
PROPS = ['EdgeProperty', 'TagProperty', 'InputProperty', 'VariableProperty', 'SourceProperty', 'DestProperty', 'EdgeSrcId', 'EdgeType', 'EdgeRank', 'EdgeDstId']
HDR = ['Arithmetic', 'Unary', 'Relational', 'Logical', 'Subscript', 'Attribute', 'TypeCasting', 'FunctionCall', 'Aggregate', 'UUID', 'Variable', 'Container', 'Label', 'LabelAttribute', 'Case', 'Predicate', 'ListComprehension', 'Reduce', 'PathBuild', 'Column', 'Constant', 'Vertex', 'Edge', 'Property', 'TextSearch']
E2 = 'Expression* a, Expression* b'
MAKE = dict(
  Arithmetic=(E2, 'ArithmeticExpression::makeAdd(p, a, b)'), Relational=(E2, 'RelationalExpression::makeEQ(p, a, b)'), Unary=('Expression* a', 'UnaryExpression::makeNot(p, a)'), Logical=('', 'LogicalExpression::makeAnd(p)'),
  Subscript=(E2, 'SubscriptExpression::make(p, a, b)'), Attribute=(E2, 'AttributeExpression::make(p, a, b)'), TypeCasting=('Value::Type t, Expression* a', 'TypeCastingExpression::make(p, t, a)'), FunctionCall=('const std::string* n', 'FunctionCallExpression::make(p, *n, ArgumentList::make(p))'),
  Aggregate=('const std::string* n, Expression* a, bool d', 'AggregateExpression::make(p, *n, a, d)'), UUID=('const std::string* n', 'UUIDExpression::make(p, *n)'), Variable=('const std::string* n, bool i', 'VariableExpression::make(p, *n, i)'), VersionedVariable=('const std::string* n, Expression* a', 'VersionedVariableExpression::make(p, *n, a)'),
  List=('', 'ListExpression::make(p)'), Set=('', 'SetExpression::make(p)'), Map=('', 'MapExpression::make(p)'), Label=('const std::string* n', 'LabelExpression::make(p, *n)'), Case=('bool g', 'CaseExpression::make(p, CaseList::make(p), g)'),
  Predicate=('const std::string* n, const std::string* v, Expression* a, Expression* b', 'PredicateExpression::make(p, *n, *v, a, b)'), ListComprehension=('const std::string* v, Expression* a, Expression* b, Expression* c', 'ListComprehensionExpression::make(p, *v, a, b, c)'),
  Reduce=('const std::string* n, Expression* a, const std::string* v, Expression* b, Expression* c', 'ReduceExpression::make(p, *n, a, *v, b, c)'), PathBuild=('', 'PathBuildExpression::make(p)'), Column=('int32_t i', 'ColumnExpression::make(p, i)'), Constant=('const Value* v', 'ConstantExpression::make(p, *v)'),
  Vertex=('', 'VertexExpression::make(p)'), Edge=('', 'EdgeExpression::make(p)'), SubscriptRange=('Expression* a, Expression* b, Expression* c', 'SubscriptRangeExpression::make(p, a, b, c)'),
  EdgeProperty=('const std::string* n, const std::string* v', 'EdgePropertyExpression::make(p, *n, *v)'), TagProperty=('const std::string* n, const std::string* v', 'TagPropertyExpression::make(p, *n, *v)'), InputProperty=('const std::string* v', 'InputPropertyExpression::make(p, *v)'), VariableProperty=('const std::string* n, const std::string* v', 'VariablePropertyExpression::make(p, *n, *v)'),
  SourceProperty=('const std::string* n, const std::string* v', 'SourcePropertyExpression::make(p, *n, *v)'), DestProperty=('const std::string* n, const std::string* v', 'DestPropertyExpression::make(p, *n, *v)'), EdgeSrcId=('const std::string* n', 'EdgeSrcIdExpression::make(p, *n)'), EdgeType=('const std::string* n', 'EdgeTypeExpression::make(p, *n)'),
  EdgeRank=('const std::string* n', 'EdgeRankExpression::make(p, *n)'), EdgeDstId=('const std::string* n', 'EdgeDstIdExpression::make(p, *n)'),
  LabelAttribute=('const std::string* n, const std::string* v', 'LabelAttributeExpression::make(p, LabelExpression::make(p, *n), ConstantExpression::make(p, Value(*v)))'),
  TextSearch=('const std::string* f, const std::string* n, const std::string* v, const std::string* o, int32_t z, int32_t l, int32_t t, TextSearchArgument** out', '([&] { auto* x = TextSearchArgument::make(p, *f, *n, *v); x->setOP(*o); x->setFuzziness(z); x->setLimit(l); x->setTimeout(t); return TextSearchExpression::makePrefix(p, x); })()'),
)
BODY = '#undef X\n' + ''.join(f'#include "common/expression/{k}Expression.h"\n' for k in HDR) + '''#define X extern "C"
X void vc_turn(Expression::Encoder* e, Expression::Decoder* d);
X Expression* vc_clone(const Expression* e) { return e->clone(); }
X bool vc_equal(const Expression* e, const Expression* f) { return *e == *f; }
X Expression* vc_again(const Expression* e, Expression::Encoder* enc, Expression::Decoder* dec, ObjectPool* p) { e->writeTo(*enc); vc_turn(enc, dec); return Expression::decode(p, *dec); }
X uint8_t* vc_kindat(Expression* e) { return (uint8_t*)&e->kind_; }
X ObjectPool** vc_poolat(Expression* e) { return &e->pool_; }
X bool* vc_inner_Variable(VariableExpression* e) { return &e->isInner_; }
X void vc_set_Case(CaseExpression* e, Expression* c, Expression* d) { e->setCondition(c); e->setDefault(d); }
X void* vc_args_FunctionCall(FunctionCallExpression* e) { return &e->args_->args_; }
X void* vc_args_Logical(LogicalExpression* e) { return &e->operands_; }
X std::string* vc_origin_Predicate(PredicateExpression* e) { return &e->originString_; }
X std::string* vc_origin_ListComprehension(ListComprehensionExpression* e) { return &e->originString_; }
X std::string* vc_origin_Reduce(ReduceExpression* e) { return &e->originString_; }
''' + ''.join(f'X void* vc_args_{c}({c}Expression* e) {{ return &e->{m}; }}\n' for c, m in (('List', 'items_'), ('Set', 'items_'), ('Map', 'items_'), ('PathBuild', 'items_'), ('Case', 'cases_'))) + ''.join(f'X void* vc_new_{k}(ObjectPool* p{", " + a if a else ""}) {{ return {e}; }}\n' for k, (a, e) in MAKE.items())
def mods():
    import glob
    return module_of('exprall', sorted(x.split('/')[-1][:-4] for x in glob.glob(SRC + 'expression/*Expression.cpp')), BODY)
KINDS = dict(Arithmetic='kAdd kMinus kMultiply kDivision kMod', Unary='kUnaryPlus kUnaryNegate kUnaryNot kUnaryIncr kUnaryDecr kIsNull kIsNotNull kIsEmpty kIsNotEmpty', Relational='kRelEQ kRelNE kRelLT kRelLE kRelGT kRelGE kRelREG kRelIn kRelNotIn kContains kNotContains kStartsWith kNotStartsWith kEndsWith kNotEndsWith', Logical='kLogicalAnd kLogicalOr kLogicalXor', TextSearch='kTSPrefix kTSWildcard kTSRegexp kTSFuzzy')
BODY += ''.join(f'X uint64_t vc_k_{k}() {{ return (uint64_t)Expression::Kind::{k}; }}\n' for v in KINDS.values() for k in v.split())
KIND, STR, VAL, SIZE, TYPE, EXPR = range(1, 7)
TAGN = {KIND: 'a kind', STR: 'a string', VAL: 'a value', SIZE: 'a size', TYPE: 'a type', EXPR: 'an expression'}
AG, CL = (lambda x: uf('again', [x], IN)), (lambda x: uf('clone', [x], IN))
def same(E, st, x, y):
    """the equality of sub-expressions"""
    p, q = sorted((x, y), key=str); t = uf('e.same', [p, q], BO); fact(st, t == uf('e.same', [q, p], BO))
    if p.eq(q): fact(st, t)
    return t
def streq(E, st, x, y): return x == y
def fnames(E):
    on = E.on_first; get, put = E.g_get, E.g_put
    # functions found by their name
    for M in ('FunctionManager', 'AggFunctionManager'):
        def fget(E, st, a, f, i, M=M): nm = tid(get(st, a[1], 'Str', 'name')); n = zi(E.u(st, a[2])) if len(a) > 2 else z3.IntVal(0); st.rw(a[0].obj).g[('lt', a[0].off)] = ('SOr', T(uf(M, [nm, n], IN))); return None
        on(r'nebula::' + M + r'::get\(.*\)', fget)
    SO = r'nebula::StatusOr<std::function<.*>'
    on(SO + r'::ok\(\) const', lambda E, st, a, f, i: uf('found', [tid(st.mem[a[0].obj].g[('lt', a[0].off)][1])], BO))
    def soval(E, st, a, f, i):
        q = a[-1]; x = st.mem[q.obj].g[('lt', q.off)][1]; E.oblige(st, uf('found', [tid(x)], BO), 'precondition', 'value() of a function that was found')
        if len(a) == 2: st.rw(a[0].obj).g[('lt', a[0].off)] = ('Fn', x); return None
        p = obj(E, st, 'function', 32); st.rw(p.obj).g[('lt', 0)] = ('Fn', x); return p
    on(r'(.* )?' + SO + r'::value\(\).*', soval); on(r'(.* )?' + SO + r'::~StatusOr\(\)', lambda E, st, a, f, i: (st.rw(a[0].obj).g.__setitem__(('lt', a[0].off), None), None)[1])
    FN = r'std::function<(nebula::Value ?|void ?)\(.*\)>'
    def fset(E, st, p, v): st.rw(p.obj).g[('lt', p.off)] = ('Fn', v)
    on(FN + r'::function\((decltype\(nullptr\)|std::nullptr_t)?\)', lambda E, st, a, f, i: fset(E, st, a[0], 'no function')); on(FN + r'::~function\(\)', lambda E, st, a, f, i: (st.rw(a[0].obj).g.__setitem__(('lt', a[0].off), None), None)[1])
    def fcopy(E, st, a, f, i): fset(E, st, a[0], st.mem[a[1].obj].g[('lt', a[1].off)][1]); return a[0] if 'operator=' in f['dem'] else None
    on(FN + r'::function\(std::function<.*(const&|&&)\)', fcopy); on(FN + r'::operator=\(.*(const&|&&)\)', fcopy)
def objsetup(E):
    on = E.on_first; get, put = E.g_get, E.g_put; ENC, DEC = 'nebula::Expression::Encoder', 'nebula::Expression::Decoder'
    E.flatc['Token'] = [('tag', 0, 'T'), ('val', 8, 'V')]; E.sizes['Token'] = 16; E.term_of = lambda E, st, v: E.who(st, v)
    def resolve(st, t):
        t = z3.simplify(t)
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            if E.valid(st, t.arg(0)): t = t.arg(1)
            elif E.valid(st, z3.Not(t.arg(0))): t = t.arg(2)
            else: break
        return z3.simplify(t)
    def write(st, p, tag, x):
        g = st.mem[p.obj].g.get(('lt', p.off))
        if g is None: raise Unsupported('the encoder is another object')
        st.rw(p.obj).g[('lt', p.off)] = ('vector', app(E.seqof(E, st, g[1]), {'tag': z3.IntVal(tag), 'val': zi(x)})); return p
    def read(st, p, tag):
        s = st.mem[p.obj].g.get('tokens')
        if s is None: raise Unsupported('the decoder is another object')
        i = zi(E.u(st, E.load(st, p, 'i64', 8))); E.oblige(st, i < zi(s.n), 'wire', f'{TAGN[tag]} is read before the end'); E.oblige(st, s.get('tag', i) == tag, 'wire', f'{TAGN[tag]} is read where {TAGN[tag]} was written')
        E.store(st, p, IV(64, z3.simplify(i + 1), 0, 1 << 45), 'i64', 8); return resolve(st, s.get('val', i))
    on(ENC + r'::operator<<\(nebula::Expression::Kind\)', lambda E, st, a, f, i: write(st, a[0], KIND, zi(E.u(st, a[1]))))
    on(ENC + r'::operator<<\(nebula::Value::Type\)', lambda E, st, a, f, i: write(st, a[0], TYPE, zi(E.u(st, a[1]))))
    on(ENC + r'::operator<<\(unsigned long\)', lambda E, st, a, f, i: write(st, a[0], SIZE, zi(E.u(st, a[1]))))
    on(ENC + r'::operator<<\(nebula::Value const&\)', lambda E, st, a, f, i: write(st, a[0], VAL, E.vt(st, a[1])))
    on(ENC + r'::operator<<\(' + STRQ + r' const&\)', lambda E, st, a, f, i: write(st, a[0], STR, tid(get(st, a[1], 'Str', 'string'))))
    on(ENC + r'::operator<<\(nebula::Expression const&\)', lambda E, st, a, f, i: write(st, a[0], EXPR, E.who(st, a[1])))
    on(DEC + r'::readKind\(\)', lambda E, st, a, f, i: IV(8, read(st, a[0], KIND), 0, 255))
    def rdtype(E, st, a, f, i): x = read(st, a[0], TYPE); return IV(64, x, 0, (1 << 64) - 1)
    on(DEC + r'::readValueType\(\)', rdtype)
    def rdsize(E, st, a, f, i): x = read(st, a[0], SIZE); st.pc.append(z3.And(x >= 0, x < 1 << 64)); return IV(64, x, 0, (1 << 64) - 1)
    on(DEC + r'::readSize\(\)', rdsize)
    on(DEC + r'::readValue\(\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Value', T(norm(E, st, read(st, a[1], VAL))), 'readValue'), None)[1])
    on(DEC + r'::readStr(\[abi:cxx11\])?\(\)', lambda E, st, a, f, i: (E.g_start(E, st, a[0], 'Str', T(read(st, a[1], STR)), 'readStr'), None)[1])
    on(DEC + r'::readExpression\(.*\)', lambda E, st, a, f, i: E.subexpr(E, st, AG(read(st, a[0], EXPR))))
    def turn(E, st, a, f, i): d = st.rw(a[1].obj); d.g['tokens'] = E.seqof(E, st, st.mem[a[0].obj].g[('lt', a[0].off)][1]); return None
    E.on_first(r'vc_turn', turn)
    fnames(E)
    # copies and equality of sub-expressions
    def v_clone(E, st, a): x = E.who(st, a[0]); fact(st, E.kindof(E, st, CL(x)) == E.kindof(E, st, x)); return E.subexpr(E, st, CL(x))
    def v_eq(E, st, a): return same(E, st, E.who(st, a[0]), E.who(st, a[1]))
    E.virt.update(clone=v_clone, eq=v_eq)
    # vectors of pointers, pairs and cases
    V = CT['vector']
    def elt(dem): return 'Item' if 'CaseExpression::Item' in dem.split('::vector<')[0] + dem.split('vector<', 1)[1][:60] else elty(dem)
    def push(E, st, a, f, i):
        et = elt(f['dem']); s = E.seqof(E, st, get(st, a[0], 'vector', 'push_back'))
        if et == 'Expression*': v = {'': E.who(st, E.load(st, a[1], 'ptr', 8))}
        elif et == 'Item' and len(a) == 3: v = {n: E.who(st, E.load(st, q, 'ptr', 8)) for n, q in (('when', a[1]), ('then', a[2]))}
        elif et == 'Pair' and len(a) == 3: v = {'key': tid(get(st, a[1], 'Str', 'key')), 'ex': E.who(st, E.load(st, a[2], 'ptr', 8))}
        elif et == 'Pair': v = E.leaves(E, st, a[1], 'Pair')
        elif et == 'Item': v = E.leaves(E, st, a[1], 'Item')
        else: return NotImplemented
        E.etys[(a[0].obj, a[0].off)] = et; put(st, a[0], 'vector', app(s, v)); return E.elptr(E, st, a[0], et, s.n) if 'emplace_back' in f['dem'] else None
    on(r'(.*& )?' + V + r'(<.*>)?::(emplace_back|push_back)(<.*>)?\(.*\)', push)
    def resize(E, st, a, f, i):
        s = E.seqof(E, st, get(st, a[0], 'vector', 'resize')); n = zi(E.u(st, a[1])); put(st, a[0], 'vector', Seq(n, lambda g, j: z3.If(zi(j) < zi(s.n), s.get(g, j), z3.Int('no expression')))); return None
    on(V + r'::resize\(unsigned long\)', resize)
def objengine(js):
    return collengine(js, own=('List', 'Map', 'Set'), extra=objsetup)
# ------------------------------------------------------------------ objects
def new(E, st, cls, tag):
    """-> (state, pointer): an expression of the class with arbitrary members, named by the tag"""
    s_ = lambda n: value(E, st, 'Str', 32, T(z3.Int(f'{tag}.{n}')), ro=True); x_ = lambda n: E.subexpr(E, st, z3.Int(f'{tag}.{n}')); pool = obj(E, st, 'pool', 64) if 'pool' not in st.g else Ptr(st.g['pool'], 0); st.g['pool'] = pool.obj; args = []; cls, _, form = cls.partition(' ')
    for d in MAKE[cls][0].split(', ') if MAKE[cls][0] else []:
        t, n = d.rsplit(' ', 1)
        if t == 'Expression*': args.append(NULL if n in form else x_(n))
        elif t == 'const std::string*': args.append(s_(n))
        elif t == 'const Value*': args.append(value(E, st, 'Value', E.sizes['Value'], T(norm(E, st, z3.Int(f'{tag}.{n}'))), ro=True))
        elif t == 'bool': args.append(IV(8, z3.If(z3.Bool(f'{tag}.{n}'), z3.IntVal(1), z3.IntVal(0)), 0, 1) if False else z3.Bool(f'{tag}.{n}'))
        elif t == 'int32_t': v = z3.Int(f'{tag}.{n}'); st.pc.append(z3.And(v >= -(1 << 31), v < 1 << 31)); args.append(IV(32, v, -(1 << 31), (1 << 31) - 1))
        elif t == 'Value::Type': v = z3.Int(f'{tag}.{n}'); st.pc.append(z3.And(v >= 0, v < 1 << 63)); args.append(IV(64, v, 0, (1 << 63)))
        else: args.append(NULL)
    if cls in ('FunctionCall', 'Aggregate'):
        M = 'FunctionManager' if cls == 'FunctionCall' else 'AggFunctionManager'; fk = uf('found', [uf(M, [z3.Int(tag + '.n'), z3.IntVal(0)], IN)], BO); st.pc.append(z3.Not(fk) if 'u' in form else fk); ln = slen(E, st, z3.Int(tag + '.n')); st.pc.append(ln == 0 if 'e' in form else ln > 0)
    st, p = quiet(E, st, 'vc_new_' + cls, pool, *args); result_of(E, st, p, tag + '.result') if cls != 'Constant' else None
    ET = dict(Logical='Expression*', List='Expression*', Set='Expression*', Map='Pair', PathBuild='Expression*', Case='Item', FunctionCall='Expression*')
    if cls in ET:
        st, v = quiet(E, st, 'vc_args_' + cls, p); n = z3.Int(tag + '.n'); st.pc += [n >= 0, n < 1 << 32]; st.rw(v.obj).g[('lt', v.off)] = ('vector', base(tag + '.items', n)); E.etys[(v.obj, v.off)] = ET[cls]; E.bounds.append((tag + '.n', n))
    if cls == 'Case': st, _ = quiet(E, st, 'vc_set_Case', p, NULL if 'c' in form else x_('condition'), NULL if 'd' in form else x_('default'))
    if cls in ('Predicate', 'ListComprehension', 'Reduce'): st, q = quiet(E, st, 'vc_origin_' + cls, p); t = z3.Int(tag + '.origin'); st.rw(q.obj).g[('lt', q.off)] = ('Str', T(t)); fact(st, z3.Implies(slen(E, st, t) == 0, t == z3.Int('id:empty')))
    if cls == 'FunctionCall':
        for (o, off), (t, v) in lts(st).items():
            if o == p.obj and t == 'Fn' and v != 'no function': w = uf('FunctionManager', [z3.Int(tag + '.n'), n], IN); st.rw(o).g[('lt', off)] = ('Fn', T(w)); st.pc.append(uf('found', [w], BO))
    if cls in KINDS:
        st, q = quiet(E, st, 'vc_kindat', p); k = z3.Int(tag + '.kind'); st.pc.append(z3.Or([k == E.u(st, quiet(E, State(), 'vc_k_' + x)[1]) for x in KINDS[cls].split()])); E.store(st, q, IV(8, k, 0, 255), 'i8', 1)
    return st, p
def shape(E, st, p, cls):
    """{offset: member}"""
    o = st.mem[p.obj]; out = {off: ('cell', v) for off, v in o.cells.items()}
    for (oid, off), (t, v) in lts(st).items():
        if oid == p.obj and (t != 'Value' or cls == 'Constant'): out[off] = (t, v)
    return out
def isexpr(st, v): return isinstance(v, Ptr) and v.obj is not None and v.obj in st.mem and 'expr' in st.mem[v.obj].g
def isobj(st, v): return isinstance(v, Ptr) and v.obj is not None and v.obj in st.mem and st.mem[v.obj].kind == 'heap'
def num(E, st, v): return zi(E.u(st, v)) if isinstance(v, IV) else z3.If(zb2(v), z3.IntVal(1), z3.IntVal(0))
def compare(E, s1, old, s2, r, f, what, cls, fresh=True):
    """the members of r are those of the shape taken in s1, sub-expressions related by f"""
    if not isinstance(r, Ptr) or r.obj is None: ob(E, s2, what + ': there is an expression', False); return
    new_ = shape(E, s2, r, cls)
    for off, m in sorted(old.items()):
        n = new_.get(off); nm = f'{what}: the member at {off}'
        if n is None or m[0] != n[0]: ob(E, s2, nm + f' ({m[0]}) is there', False); continue
        if m[0] == 'cell':
            v, w = m[1][1], n[1][1]
            if isinstance(v, Ptr):
                if isexpr(s1, v): x = s1.mem[v.obj].g['expr']; y = s2.mem[w.obj].g.get('expr') if isinstance(w, Ptr) and w.obj is not None else None; ob(E, s2, nm + ' is the sub-expression', y is not None and y == f(x))
                elif isobj(s1, v) and v.obj != s1.g['pool']: ob(E, s2, nm + ' is an object of its own', isinstance(w, Ptr) and (not fresh or w.obj != v.obj)); compare(E, s1, shape(E, s1, v, 'Constant'), s2, w, f, nm, 'Constant', fresh)
                else: ob(E, s2, nm + ' is the same', isinstance(w, Ptr) and w.obj == v.obj and w.off == v.off)
            elif isinstance(v, Undef): pass
            elif isinstance(w, (Ptr, Undef)) or w is None: ob(E, s2, nm + ' is set', False)
            else: ob(E, s2, nm + ' is the same number', num(E, s1, v) == num(E, s2, w))
        elif m[0] == 'vector':
            a = E.seqof(E, s1, m[1]); et = None
            for (o_, off_), t in E.etys.items():
                if off_ == off and o_ in s1.mem and s1.mem[o_].g.get(('lt', off), (0, 0))[1] is m[1]: et = t
            fx = {x: t for x, _, t in flat(E, et)}; eqseq(E, s2, et, n[1], Seq(a.n, lambda g, j: f(a.get(g, j)) if fx[g] == 'ptr' else a.get(g, j)), nm + ': the elements')
        elif m[0] == 'Fn': ob(E, s2, nm + ': the function', z3.Or(tid(m[1]) == tid(n[1]), z3.Not(uf('found', [tid(m[1])], BO))) if m[1] != 'no function' else True)
        else: ob(E, s2, nm + f' ({m[0]}) is the same', tid(m[1]) == tid(n[1]))
FORMS = dict(FunctionCall=['', ' u', ' e'], Aggregate=['', ' u'], VersionedVariable=['', ' a'], ListComprehension=['', ' b', ' c', ' bc'], Predicate=['', ' b'], SubscriptRange=['', ' b', ' c'], Case=['', ' c', ' d', ' cd'])
def forms(classes): return [c + f for c in classes for f in FORMS.get(c, [''])]
def members_equal(E, st, sa, sb, skip, rounds):
    """the condition that two objects of one class have equal members"""
    c = []
    for off, m in sorted(sa.items()):
        n = sb[off]
        if off in skip or m[0] == 'Fn': continue
        if m[0] == 'cell':
            v, w = m[1][1], n[1][1]
            if isinstance(v, Ptr):
                if isexpr(st, v) or isexpr(st, w): c.append(same(E, st, st.mem[v.obj].g['expr'], st.mem[w.obj].g['expr']) if isexpr(st, v) and isexpr(st, w) else z3.BoolVal(False))
                elif isobj(st, v) and v.obj != st.g['pool'] and isobj(st, w): c.append(members_equal(E, st, shape(E, st, v, 'Constant'), shape(E, st, w, 'Constant'), (), rounds))
            elif not isinstance(v, Undef): c.append((E.u(st, v) if isinstance(v, IV) else zb2(v)) == (E.u(st, w) if isinstance(w, IV) else zb2(w)))
        elif m[0] == 'vector':
            A, B = E.seqof(E, st, m[1]), E.seqof(E, st, n[1]); et = next(t for (o, f), t in E.etys.items() if o in st.mem and f == off and st.mem[o].g.get(('lt', f), (0, 0))[1] is m[1]); D, know = first(E, None, A.n, f'first difference at {off}'); E.bounds.append((f'first difference at {off}', D)); st.pc += [D >= 0, D <= A.n]
            def at_(s2, k): return z3.And([same(E, s2, A.get(x, k), B.get(x, k)) if t == 'ptr' else zb2(eq(E, s2, t, T(A.get(x, k)), T(B.get(x, k)))) for x, _, t in flat(E, et)])
            rounds.append(lambda s2, k: know(s2, k, z3.Not(at_(s2, k)))); c.append(z3.And(A.n == B.n, D == A.n))
        elif m[0] == 'Value': c.append(E.veq(E, st, tid(m[1]), tid(n[1])))
        else:
            q = zb2(eq(E, st, m[0], m[1], n[1])); c.append(q)
            if m[0] == 'Str' and z3.is_expr(q): la, lb = slen(E, st, tid(m[1])), slen(E, st, tid(n[1])); fact(st, z3.Implies(q, la == lb)); fact(st, z3.Implies(z3.And(la == 0, lb == 0), q))     # equal strings have equal lengths; empty strings are equal
    return z3.And(c) if c else z3.BoolVal(True)
