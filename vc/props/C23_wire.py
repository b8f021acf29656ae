from wirecommon import *
BITSRNG = dict(month=(0, 15), day=(0, 31), hour=(0, 31), minute=(0, 63), sec=(0, 63), microsec=(0, (1 << 22) - 1))
RECS = dict(HostAddr=('HostAddr', {}), KeyValue=('KeyValue', {}), Date=('Date', {}), Time=('Time', {}), DateTime=('DateTime', {}), Map=('NMap', {}), Set=('NSet', {}), List=('NList', {}), DataSet=('DataSet', dict(column_names='colNames')),
            Tag=('Tag', {}), Vertex=('Vertex', {}), Edge=('Edge', {}), Step=('Step', {}), Path=('Path', {}))
OPS = ['Value', 'Date', 'Vertex', 'Edge', 'Path', 'Map', 'Set', 'List', 'DataSet', 'HostAddr', 'KeyValue']
def recs():
    r = {n: ('nebula::' + n, fields('common.thrift', t, m, BITSRNG if n == "DateTime" else {})) for n, (t, m) in RECS.items()}
    return r
INCS = ['common/datatypes/%s.h' % x for x in ('Value', 'Date', 'Vertex', 'Edge', 'Path', 'Map', 'Set', 'List', 'DataSet', 'HostAddr', 'KeyValue')] + ['common/datatypes/%sOps.inl' % x for x in OPS]
def mod(): return module('data', recs(), INCS, others=('Value',))
sign = lambda x: z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))

# ------------------------------------------------------------------ the union
import valuecommon as V
VK = dict(nVal='Null', bVal='Bool', iVal='Int', fVal='Float', sVal='Str', dVal='Date', tVal='Time', dtVal='DateTime', vVal='Vertex', eVal='Edge', pVal='Path', lVal='List', mVal='Map', uVal='Set', gVal='DataSet')
def vfields():
    fs = fields('common.thrift', 'Value', {})
    if [f.name for f in fs] != list(VK): raise ToolError('union Value has other members than before: ' + ' '.join(f.name for f in fs))
    for f in fs: f.opt = True
    return fs
VDRV = r"""
X uint32_t vc_w_Value(VProto* p, const nebula::Value* o) { return Cpp2Ops<nebula::Value>::write(p, o); } X void vc_r_Value(VProto* p, nebula::Value* o) { Cpp2Ops<nebula::Value>::read(p, o); }
X uint32_t vc_s_Value(const VProto* p, const nebula::Value* o) { return Cpp2Ops<nebula::Value>::serializedSize(p, o); } X uint32_t vc_z_Value(const VProto* p, const nebula::Value* o) { return Cpp2Ops<nebula::Value>::serializedSizeZC(p, o); }
X int vc_t_Value() { return Cpp2Ops<nebula::Value>::thriftType(); } X void vc_n_Value(const char* b, uint64_t l, int16_t* id, TType* t) { detail::TccStructTraits<nebula::Value>::translateFieldName(folly::StringPiece(b, l), *id, *t); }
"""
def vmod(): return module('value', {}, INCS, extra=(VERIF + '/harness/value_driver.cpp', SRC + 'datatypes/Value.cpp'), text=VDRV)
class VWire(Wire):
    def content(s, st, p, T):
        t = tail(T)
        return ('obs', V.observe(s.E, st, t, p)) if t in V.RNG else Wire.content(s, st, p, T)
    def setopaque(s, st, p, T, f, nm):
        E = s.E; t = tail(T)
        if t not in V.RNG: return Wire.setopaque(s, st, p, T, f, nm)
        xs = [z3.Int(f'{nm}.{i}') for i in range(len(V.RNG[t]))]; st.pc += [z3.And(x >= lo, x <= hi) for x, (lo, hi) in zip(xs, V.RNG[t])]
        quiet(E, st, 'vc_mk_' + t, p, *[IV({255: 8, 65535: 16, (1 << 32) - 1: 32}.get(hi - lo, 64), x) for x, (lo, hi) in zip(xs, V.RNG[t])]); return ('obs', V.observe(E, st, t, p))
class ValueCodec(Codec):
    def engine(s):
        mk0 = V.value_engine(vmod(), rope=True)
        def mk():
            E = mk0(); V.setup_relations(E) if False else None
            for t in V.BOXES: E.on_first(f'nebula::{t}::{t}\\(\\)', lambda E, st, a, f, i, t=t: (E.g_start(E, st, a[0], t, 'empty', f'construction of {t}'), None)[1])
            E.W = s.W = VWire(E, s.cpp, s.fs); E.maxpaths = 400000; return E
        return mk
    def val(s, E, st, t, f, c, size):
        if t[0] != 'val': return False
        _, wt, tc, v = t; k = VK[f.name]
        if wt != f.wire: return False
        if tc != (tclass(f.t) if k != 'Bool' else 'bool'): return False
        if k in V.BOXES: return v == ('opaque', c[1])
        if v[0] == 'obs': return V.eqc(E, st, v[1], c)
        if v[0] == 'str': return V.eqc(E, st, ('Str', list(v[1])), c)
        if v[0] == 'double': return k == 'Float' and v[1] == c[1][0].t
        if v[0] == 'int' and v[2] is not None:
            x = c[1][0]
            if k == 'Bool': x = E.boolv(x); x = z3.If(x, 1, 0) if not isinstance(x, bool) else int(x)
            else: x = E.s(st, x)
            return v[2] == x
        return False
    def u_out(s, m):
        root = dict(write='vc_w_', serializedSize='vc_s_', serializedSizeZC='vc_z_')[m] + s.n
        def u(E):
            lbl = s.lab(m)
            for k in V.KINDS:
                st = State(); p, v = V.new(E, st, k, 'o'); st.rw(p.obj).ro = True; pr = obj(E, st, 'protocol', 8); fn = [n for n, q in VK.items() if q == k]
                def post(st2, r):
                    s.trace(E, st2, m, {fn[0]: v} if fn else {}, set(fn)); tr = st2.g.get('sum', ()); ob(E, st2, f'{k}: the number returned is the total of all parts', E.u(st2, r) == z3.Sum(list(tr)))
                    V.all_of(E, st2, [V.holds(E, st2, p, k, v, f'{m}[{k}]')], {}, f'{m}[{k}]')
                Run(E, lbl).go(st, root, [pr, p], post)
        return u
    def got(s, E, st, f, e):
        k = VK[f.name]; t = e[1]
        return k, dict(Null=lambda: (k, (IV(32, t),)), Bool=lambda: (k, (t == 1,)), Int=lambda: (k, (IV(64, t),)), Float=lambda: (k, (FPV(t),)), Str=lambda: (k, [stdlib.Sl(('str', t), 0, z3.Int('len_' + t))])).get(k, lambda: t if e[0] == 'obs' else (k, t))()
    def u_read(s):
        def u(E):
            lbl = s.lab('read')
            for k in V.KINDS:
                st = State(); p, v = V.new(E, st, k, 'o'); pr = obj(E, st, 'protocol', 8); st.g['rd'] = dict(ph='start', last=None, k=0, id=None, ty=None, exp={}, seen={}); n = 0; E.curfn = lbl
                st.pc.append(z3.Int('G__ZN3fLI17FLAGS_minloglevelE.0') <= 3)
                for s2, r in E.exec_fn(st, E.mod.find('vc_r_Value'), [pr, p]):
                    E.curfn = lbl; E.curloc = ''; d = s2.g['rd']; w = f'into {k}'
                    if isinstance(r, Exc): ob(E, s2, f'{w}: decoding fails only when a second field comes', str(r.ty).split(':')[0] == 'throwUnionMissingStop' and d['ph'] == 'pending' and d['k'] == 2); continue
                    n += 1; ob(E, s2, f'{w}: decoding ends at the end of the union', d['ph'] == 'end' and d['k'] <= 1)
                    if d['k'] == 0: k2, v2 = 'Empty', None
                    elif d['exp']: (nm, e), = d['exp'].items(); k2, v2 = s.got(E, s2, [f for f in s.fs if f.name == nm][0], e)
                    else:
                        k2 = V.tagof(E, s2, p); ob(E, s2, f'{w}: an unknown field leaves the Value as it was, or empty', k2 in (k, 'Empty')); v2 = v if k2 == k else None
                        if k2 not in (k, 'Empty'): continue
                    V.all_of(E, s2, [V.holds(E, s2, p, k2, v2, w)], {}, w)
                ob(E, State(), f'into {k}: decoding returns', n > 1)
            E.covers = len(V.KINDS); E.verified = [lbl]
        return u
class PROP(Property):
    id = 'C23'
    budget = 200
    assumptions = ['the codecs that fbthrift generates for strings, numbers and containers do what their contracts say; a contained record is encoded and decoded by its own codec, proved here as well',
                   'a message in names mode gives a field the wire type of the schema; in ids mode any id and any wire type may come',
                   'the numbers of a date and time fit their fields (documented ranges); a composite Value has its content allocated']
    def units(self):
        R = recs(); us = ValueCodec('value', 'Value', 'nebula::Value', vfields(), vmod).units()
        return us + [u for n in R for u in Codec('data', n, R[n][0], R[n][1], mod, dict(type=sign) if n in ('Edge', 'Step') else {}).units()]
    search = wire_search(lambda: {**{n: r for n, r in recs().items()}, 'Value': ('nebula::Value', [])}, INCS, ['datatypes/%s.cpp' % x for x in ('Value', 'Date', 'Vertex', 'Edge', 'Path', 'Map', 'Set', 'List', 'HostAddr')] + ['time/TimeConversion.cpp'], 'C23_search')
