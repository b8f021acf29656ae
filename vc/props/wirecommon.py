"""The hand-written Thrift codecs under contract. The oracle is the .thrift file of the same tree: for every field of a record its id, name,
wire type and whether it is required. The protocol object, the reader state and the codecs of the contained types are contracts that
record (writing) or produce (reading) a ghost token sequence; the codec itself is executed."""
from ghost import *
TT = dict(STOP=0, BOOL=2, BYTE=3, DOUBLE=4, I16=6, I32=8, I64=10, STRING=11, STRUCT=12, MAP=13, SET=14, LIST=15)
CT = ['vector', 'unordered_map', 'unordered_set']
# ------------------------------------------------------------------ oracle
def strip(s): return re.sub(r'//[^\n]*|(?m:^\s*#[^\n]*)|/\*.*?\*/', '', s, flags=re.S)
_thrift = {}
def thrift(file):
    """-> {struct: [(id, name, type, 'required'|'optional'|'')]}, with typedefs and enums resolved"""
    if file in _thrift: return _thrift[file]
    s = strip(open(SRC + 'interface/' + file).read()); com = strip(open(SRC + 'interface/common.thrift').read())
    defs = dict((n, t) for t, n in re.findall(r'typedef\s+(\w+)\s*(?:\([^)]*\))?\s*(\w+)', com + s))
    enums = set(re.findall(r'enum\s+(\w+)', com + s)); out = {}
    for kw, nm, body in re.findall(r'(struct|union)\s+(\w+)\s*\{(.*?)\n\}', s, re.S):
        fs = []
        for part in re.split(r'(?=\b\d+\s*:)', body):
            m = re.match(r'(\d+)\s*:\s*(required|optional)?\s*(.*)', part.strip(), re.S)
            if not m: continue
            d = re.sub(r'\([^)]*\)', ' ', m.group(3)).strip().rstrip(',; \n\t'); d = re.sub(r'\s+', ' ', d).strip().rstrip(',; ')
            t, n = re.match(r'(.*\S)\s+(\w+)$', d).groups(); t = t.replace(' ', '').replace('common.', '')
            fs.append((int(m.group(1)), n, t, m.group(2) or ''))
        if len(fs) != len(re.findall(r'\b\d+\s*:', body)): raise ToolError(f'fields of {nm} in {file} not understood')
        out[nm] = fs
    def res(t):
        while t in defs: t = defs[t]
        m = re.match(r'(list|set)<(.*)>$', t)
        if m: return f'{m.group(1)}<{res(m.group(2))}>'
        m = re.match(r'map<([^,]*),(.*)>$', t)
        if m: return f'map<{res(m.group(1))},{res(m.group(2))}>'
        return 'enum' if t in enums else t
    _thrift[file] = {n: [(a, b, res(c), d) for a, b, c, d in fs] for n, fs in out.items()}
    return _thrift[file]
BASE = dict(bool='BOOL', byte='BYTE', i16='I16', i32='I32', i64='I64', enum='I32', double='DOUBLE', string='STRING', binary='STRING')
BITS = dict(byte=8, i16=16, i32=32, i64=64, enum=32)
def wire(t): return TT[BASE[t]] if t in BASE else TT[t[:t.index('<')].upper()] if '<' in t else TT['STRUCT']
def tclass(t):
    if t == 'enum': return 'enumeration'
    if t in BITS: return 'integral'
    if t in ('string', 'binary'): return t
    if t == 'double': return 'floating_point'
    m = re.match(r'(list|set)<(.*)>$', t)
    if m: return f'{m.group(1)}<{tclass(m.group(2))}>'
    m = re.match(r'map<([^,]*),(.*)>$', t)
    return f'map<{tclass(m.group(1))}, {tclass(m.group(2))}>' if m else 'structure'
def kind(t): return 'int' if t in BITS else t if t in ('bool', 'double') else 'str' if t in ('string', 'binary') else 'cont' if '<' in t else 'rec'
class Field: pass
def fields(file, struct, cppmap, rng={}):
    out = []
    for i, n, t, q in thrift(file)[struct]:
        f = Field(); f.id, f.name, f.t, f.req, f.opt = i, n, t, q == 'required', q == 'optional'
        f.wire, f.k = wire(t), kind(t); f.cpp = cppmap.get(n, n); f.rng = rng.get(n)
        if not f.rng and f.k == 'int': f.rng = (-(1 << (BITS[t] - 1)), (1 << (BITS[t] - 1)) - 1)
        out.append(f)
    return out
# ------------------------------------------------------------------ driver
def driver(recs, incs, others=()):
    """recs {name: (C++ type, fields)} -> text"""
    s = '#define VC_PROOF 1\n#include "common/base/Base.h"\n#include <thrift/lib/cpp2/GeneratedCodeHelper.h>\n' + ''.join(f'#include "{i}"\n' for i in incs) + r'''
using apache::thrift::protocol::TType; using namespace apache::thrift;
struct VProto {
  uint32_t writeStructBegin(const char*); uint32_t writeStructEnd(); uint32_t writeFieldBegin(const char*, TType, int16_t); uint32_t writeFieldEnd(); uint32_t writeFieldStop();
  uint32_t writeBool(bool); uint32_t writeDouble(double); uint32_t writeBinary(const std::string&); uint32_t writeString(const std::string&);
  uint32_t serializedStructSize(const char*) const; uint32_t serializedFieldSize(const char*, TType, int16_t) const; uint32_t serializedSizeStop() const; uint32_t serializedSizeBool(bool) const; uint32_t serializedSizeDouble(double) const;
  uint32_t serializedSizeBinary(const std::string&) const; uint32_t serializedSizeZCBinary(const std::string&) const; uint32_t serializedSizeString(const std::string&) const;
  void readBool(bool&); void readDouble(double&); void readBinary(std::string&); void readString(std::string&); void skip(TType); bool kUsesFieldNames() const;
};
#define X extern "C"
template <class T> struct pointee { using type = T; }; template <class T> struct pointee<std::unique_ptr<T>> { using type = T; };
X uint64_t vc_state_size() { return sizeof(detail::ProtocolReaderStructReadState<VProto>); }
'''
    for n in others: s += f'X uint64_t vc_csize_{n}() {{ return sizeof(nebula::{n}); }}\n'
    for n, (T, fs) in recs.items():
        s += f'X uint64_t vc_size_{n}() {{ return sizeof({T}); }} X uint64_t vc_csize_{n}() {{ return sizeof({T}); }} X void vc_new_{n}(void* p) {{ new (p) {T}(); }}\n'
        s += f'X uint32_t vc_w_{n}(VProto* p, const {T}* o) {{ return Cpp2Ops<{T}>::write(p, o); }} X void vc_r_{n}(VProto* p, {T}* o) {{ Cpp2Ops<{T}>::read(p, o); }}\n'
        s += f'X uint32_t vc_s_{n}(const VProto* p, const {T}* o) {{ return Cpp2Ops<{T}>::serializedSize(p, o); }} X uint32_t vc_z_{n}(const VProto* p, const {T}* o) {{ return Cpp2Ops<{T}>::serializedSizeZC(p, o); }}\n'
        s += f'X int vc_t_{n}() {{ return Cpp2Ops<{T}>::thriftType(); }} X void vc_n_{n}(const char* b, uint64_t l, int16_t* id, TType* t) {{ detail::TccStructTraits<{T}>::translateFieldName(folly::StringPiece(b, l), *id, *t); }}\n'
        for f in fs:
            x = f'o->{f.cpp}'; v = '*' + x if f.opt else x
            if f.opt: s += f'X bool vc_has_{n}_{f.name}(const {T}* o) {{ return {x} != nullptr; }} X void vc_make_{n}_{f.name}({T}* o) {{ {x} = std::make_unique<pointee<std::decay_t<decltype({x})>>::type>(); }} X void vc_none_{n}_{f.name}({T}* o) {{ {x} = nullptr; }}\n'
            if f.k in ('int', 'bool'): s += f'X int64_t vc_get_{n}_{f.name}(const {T}* o) {{ return static_cast<int64_t>({v}); }} X void vc_put_{n}_{f.name}({T}* o, int64_t v) {{ {v} = static_cast<std::decay_t<decltype({v})>>(v); }}\n'
            else: s += f'X const void* vc_at_{n}_{f.name}(const {T}* o) {{ return std::addressof({v}); }}\n'
    return s
_js = {}
def module(key, recs, incs, extra=(), others=(), text=''):
    if key not in _js:
        p = scratch() + f'/wire_{key}.cpp'
        with open(p, 'w') as fh: fh.write(driver(recs, incs, others) + text)
        _js[key] = compile_ir([p] + list(extra), 'wire_' + key)
    return _js[key]
# ------------------------------------------------------------------ contracts
def targs(dem, head):
    """the template arguments after head in a demangled name"""
    i = dem.index(head) + len(head); d = 0; out = ['']; 
    for c in dem[i:]:
        if c == '<': d += 1
        elif c == '>':
            if d == 0: break
            d -= 1
        if c == ',' and d == 0: out.append(''); continue
        out[-1] += c
    return [x.strip() for x in out]
def cname(E, st, p):
    out = b''; k = p.off
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(k, int): raise Unsupported('name at an unknown address')
    while True:
        v = E.load(st, Ptr(p.obj, k), 'i8', 1); v = E.u(st, v)
        if not isinstance(v, int): raise Unsupported('name is not constant')
        if v == 0: return out.decode('latin1')
        out += bytes([v & 255]); k += 1
CINT = {'bool': 8, 'signed char': 8, 'char': 8, 'short': 16, 'int': 32, 'long': 64, 'nebula::ErrorCode': 32, 'nebula::NullType': 32}
def tail(T): return T.split('<')[0].split('::')[-1]
class Wire:
    """contracts of the protocol; reading is relative to one record: fs its fields, at(st, f) -> content"""
    def __init__(s, E, cpp, fs):
        s.E = E; s.cpp = cpp; s.fs = fs; s.names = z3.Bool('protocol_uses_field_names'); E.wire = s
        s.alive = lambda st, p, T: (T, None)
        on = E.on_first
        on(r'.*apache::thrift::detail::pm::protocol_methods<.*', s.pm)
        on(r'.*apache::thrift::Cpp2Ops<(?!' + re.escape(cpp) + r', void>)[^<]*>::(write|read|serializedSize|serializedSizeZC)<VProto>.*', s.rec)
        on(r'VProto::.*', s.proto); on(r'apache::thrift::detail::ProtocolReaderStructReadState<VProto>::.*', s.rs)
        on(r'apache::thrift::protocol::TProtocolException::throw.*', s.thrown)
        on(r'apache::thrift::detail::TccStructTraits<' + re.escape(cpp) + r'>::translateFieldName\(.*', s.translate)
    # -- state
    def tok(s, st, *t):
        st.g['tr'] = st.g.get('tr', ()) + (t,); n = z3.Int(fresh_name('bytes')); st.pc.append(z3.And(n >= 0, n <= 1 << 16)); st.g['sum'] = st.g.get('sum', ()) + (n,)
        return IV(32, n, 0, 1 << 16)
    def content(s, st, p, T):
        """what a codec call is given: the content of the T at p"""
        E = s.E
        if T.startswith('std::__cxx11::basic_string'): return ('str', tuple(E.rope_norm(st, stdlib.str_get(E, st, p))))
        if T in CINT:
            w = CINT[T]; v = E.load(st, p, 'i%d' % w, w // 8)
            if isinstance(v, Undef): return ('int', w, None)
            if T == 'bool': E.oblige(st, z3.And(E.u(st, v) >= 0, E.u(st, v) <= 1) if not isinstance(E.u(st, v), int) else True, 'bool', 'a bool is 0 or 1', assume=False)
            return ('int', w, E.s(st, v))
        if T == 'double': return ('double', E.fp(E.load(st, p, 'double', 8), 'double'))
        if not isinstance(p, Ptr): raise Unsupported(f'{T} at {p}')
        if p.obj is None: E.oblige(st, False, 'null-deref', f'the {T} exists'); raise DropPath()
        o = E.check_access(st, p, 1, f'use of {T}')
        g = o.g.get(('lt', p.off))
        if g is None and ('rec', p.off) in o.g: g = o.g[('rec', p.off)]
        if g is None: E.oblige(st, False, 'lifetime', f'a live {T} is encoded'); raise DropPath()
        return ('opaque', g[1])
    def ob(s, st, nm, c, kind='wire'):
        E = s.E
        if isinstance(c, bool) and c: c = True
        try: E.oblige(st, c, kind, nm, assume=False)
        except DropPath: pass
        return c is True or (not isinstance(c, bool) and E.valid(st, c))
    def w(s, st, **k): d = dict(st.g.get('rd', {})); d.update(k); st.g['rd'] = d
    # -- values
    def value(s, st, wt, what, p, T, tc=None):
        """a value of wire type wt is read into the T at p"""
        E = s.E; d = st.g['rd']
        if not s.ob(st, f'{what}: a field header comes before', d['ph'] == 'pending'): raise DropPath()
        if not E.feasible(st): raise DropPath()
        f = None
        for g in s.fs:
            c = z3.And(d['id'] == g.id, d['ty'] == g.wire)
            if E.valid(st, c): f = g; break
        if f is None:
            s.ob(st, f'{what}: a value is decoded for a field of the record that has its wire type only', False); raise DropPath()
        s.ob(st, f'{what}: {f.name} is decoded as {f.t}', wt == f.wire and (tc is None or tc == tclass(f.t)) and (f.k != 'int' or T not in CINT or CINT[T] == BITS[f.t]))
        k = d['k']; nm = f'v{k}.{f.name}'
        if f.k == 'int':
            t = z3.Int(nm); lo, hi = f.rng; st.pc.append(z3.And(t >= lo, t <= hi)); w = CINT.get(T)
            if w is None: raise Unsupported(f'{f.name} is read into {T}')
            E.store(st, p, IV(w, t, lo, hi), 'i%d' % w, w // 8); v = ('int', t)
        elif f.k == 'bool':
            b = z3.Int(nm); st.pc.append(z3.And(b >= 0, b <= 1)); E.store(st, p, IV(8, b, 0, 1), 'i8', 1); v = ('int', b)
        elif f.k == 'double': t = z3.FP(nm, z3.Float64()); E.store(st, p, FPV(t), 'double', 8); v = ('double', t)
        elif f.k == 'str': E.g_str_live(st, p) if hasattr(E, 'g_str_live') else stdlib.str_get(E, st, p); s.setstr(st, p, nm); v = ('str', nm)
        else: v = s.setopaque(st, p, T, f, nm)
        s.w(st, ph='consumed', exp={**d['exp'], f.name: v}, seen={**d['seen'], f.name: True})
    def setstr(s, st, p, nm): stdlib.str_fresh(s.E, st, p, nm)
    def setopaque(s, st, p, T, f, nm):
        E = s.E; o = E.check_access(st, p, 1, f'decoding of {f.name}'); E.oblige(st, not o.ro, 'frame', 'the target may be written'); o = st.rw(p.obj)
        g = o.g.get(('lt', p.off)) or o.g.get(('rec', p.off))
        if f.k == 'cont': s.ob(st, f'{f.name}: decoded into an empty container', g is not None and g[1] in ('empty',))
        else: s.ob(st, f'{f.name}: decoded into a live {tail(T)}', o.alive)
        key = ('lt', p.off) if ('lt', p.off) in o.g and o.g[('lt', p.off)] is not None and (f.k == 'cont' or g[0] == tail(T)) else ('rec', p.off)
        o.g[key] = (tail(T), nm); return ('opaque', nm)
    # -- handlers
    def pm(s, E, st, a, f, i):
        d = f['dem']; tc, T = targs(d, 'protocol_methods<')[:2]; tc = tc.replace('apache::thrift::type_class::', ''); m = re.search(r'>::(write|read|serializedSize)<(.*)>\(', d[d.index('protocol_methods'):]).group(1)
        wt = {'integral': {8: 3, 16: 6, 32: 8, 64: 10}.get(CINT.get(T), 0), 'enumeration': 8, 'binary': 11, 'string': 11, 'structure': 12, 'floating_point': 4}.get(tc) or TT[tc.split('<')[0].upper()]
        if m == 'read': s.value(st, wt, f'{tc} read', a[1], T, tc); return None
        c = s.content(st, a[1], T)
        if m == 'write': return s.tok(st, 'val', wt, tc, c)
        return s.tok(st, 'val', wt, tc, c)
    def rec(s, E, st, a, f, i):
        d = f['dem']; T = re.search(r'Cpp2Ops<([^<]*), void>::', d).group(1); m = re.search(r'>::(\w+)<VProto>', d).group(1)
        if m == 'read': s.value(st, 12, f'{T} read', a[1], T); return None
        return s.tok(st, 'val', 12, 'structure', s.content(st, a[1], T))
    def proto(s, E, st, a, f, i):
        m = re.match(r'VProto::(\w+)\(', f['dem']).group(1); strT = 'std::__cxx11::basic_string'
        if m in ('writeStructBegin', 'serializedStructSize'): return s.tok(st, 'sb')
        if m in ('writeStructEnd',): return s.tok(st, 'se')
        if m in ('writeFieldBegin', 'serializedFieldSize'): return s.tok(st, 'fb', cname(E, st, a[1]), E.s(st, a[2]), E.s(st, a[3]))
        if m == 'writeFieldEnd': return s.tok(st, 'fe')
        if m in ('writeFieldStop', 'serializedSizeStop'): return s.tok(st, 'stop')
        if m in ('writeBool', 'serializedSizeBool'):
            b = E.boolv(a[1]); return s.tok(st, 'val', 2, 'bool', ('int', 8, int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))))
        if m in ('writeDouble', 'serializedSizeDouble'): return s.tok(st, 'val', 4, 'floating_point', ('double', E.fp(a[1], 'double')))
        if m in ('writeBinary', 'serializedSizeBinary', 'serializedSizeZCBinary'): return s.tok(st, 'val', 11, 'binary', s.content(st, a[1], strT))
        if m in ('writeString', 'serializedSizeString'): return s.tok(st, 'val', 11, 'string', s.content(st, a[1], strT))
        if m == 'readBool': s.value(st, 2, 'bool read', a[1], 'bool'); return None
        if m == 'readDouble': s.value(st, 4, 'double read', a[1], 'double'); return None
        if m in ('readBinary', 'readString'): s.value(st, 11, 'string read', a[1], strT, m[4:].lower()); return None
        if m == 'kUsesFieldNames': return s.names
        if m == 'skip':
            d = st.g['rd']
            if not s.ob(st, 'skip: a field header comes before', d['ph'] == 'pending'): raise DropPath()
            s.ob(st, 'skip: the value is skipped with its own wire type', zc(d['ty'] == E.s(st, a[1])))
            for g in s.fs: s.ob(st, f'{g.name} is not skipped', z3.Not(z3.And(d['id'] == g.id, d['ty'] == g.wire)))
            s.w(st, ph='consumed'); return None
        raise Unsupported('protocol method ' + m)
    def put(s, st, rs, id, ty):
        E = s.E; E.store(st, rs, IV(16, id, -(1 << 15), (1 << 15) - 1), 'i16', 2); E.store(st, Ptr(rs.obj, rs.off + 4), IV(32, ty, 0, 15), 'i32', 4)
    def header(s, st, rs):
        """the next thing in the message: the stop marker, or any field header"""
        E = s.E; d = st.g['rd']; s2 = st.fork(); k = d['k'] + 1
        s.w(s2, ph='stop'); s.put(s2, rs, 0, 0)
        id, ty = z3.Int(fresh_name('field.id')), z3.Int(fresh_name('field.type')); st.pc.append(z3.And(id >= -(1 << 15), id < 1 << 15, ty >= 2, ty <= 15))
        for g in s.fs: st.pc.append(z3.Implies(z3.And(s.names, id == g.id), ty == g.wire))
        s.w(st, ph='pending', id=id, ty=ty, last=id, k=k, tr=False)
        s.put(st, rs, z3.If(s.names, z3.IntVal(-32768), id), ty); return s2, st
    def rs(s, E, st, a, f, i):
        m = re.search(r'>::(\w+)\(', f['dem']).group(1); d = st.g.get('rd')
        if m == 'ProtocolReaderStructReadState' or m.startswith('~'): return None
        if d is None: raise Unsupported('reader state used while writing')
        if m == 'fieldName': return Agg([E.alloc(st, 'field name', 1, 'stack'), E.alloc(st, 'field name', 1, 'stack')])
        if m == 'readStructBegin':
            if not s.ob(st, 'the struct is entered once', d['ph'] == 'start'): raise DropPath()
            s.w(st, ph='begin', last=0); st.g['rs'] = a[0]; return None
        if m == 'readStructEnd':
            if not s.ob(st, 'the struct is left at its stop marker', d['ph'] == 'stop'): raise DropPath()
            s.w(st, ph='end'); return None
        if m == 'readFieldEnd':
            if not s.ob(st, 'a field ends after its value', d['ph'] == 'consumed'): raise DropPath()
            return None
        if not s.ob(st, 'a header is read after the value of the last field', d['ph'] in ('begin', 'consumed')): raise DropPath()
        if m in ('readFieldBegin', 'readFieldBeginNoInline'):
            v = E.load(st, a[0], 'i16', 2)
            s.ob(st, 'the reader knows the id of the last field', False if isinstance(v, Undef) else zc(z3.Or(s.names, E.s(st, v) == d['last'])))
            return [(x, None) for x in s.header(st, a[0])]
        if m == 'advanceToNextField':
            cur, nx, ty = E.s(st, a[2]), E.s(st, a[3]), E.s(st, a[4])
            s.ob(st, 'the reader is told the id of the last field', zc(cur == d['last']))
            if not isinstance(ty, int) or not isinstance(nx, int): raise Unsupported('advanceToNextField with computed arguments')
            s1 = st.fork(); s2, s3 = s.header(st, a[0])
            out = [(s2, ty == 0), (s3, False)]
            if ty != 0:
                s1.pc.append(z3.Not(s.names)); s.w(s1, ph='pending', id=z3.IntVal(nx), ty=z3.IntVal(ty), last=nx, k=d['k'] + 1, tr=False)
                s.put(s1, a[0], z3.Int(fresh_name('stale.id')), z3.Int(fresh_name('stale.type'))); out.append((s1, True))
            return out
        raise Unsupported('reader method ' + m)
    def translate(s, E, st, a, f, i):
        d = st.g['rd']; pid, pty = a[-2], a[-1]
        s.ob(st, 'names are translated for a field that is pending', d['ph'] == 'pending')
        for p, w, t in ((pid, 16, 'id'), (pty, 32, 'ty')):
            old = E.s(st, E.load(st, p, 'i%d' % w, w // 8)); v = old; old = z3.IntVal(old) if isinstance(old, int) else old
            v = old
            for g in s.fs: v = z3.If(d['id'] == g.id, z3.IntVal(g.id if t == 'id' else g.wire), v)
            E.store(st, p, IV(w, v, -(1 << (w - 1)), (1 << (w - 1)) - 1), 'i%d' % w, w // 8)
        return None
    def thrown(s, E, st, a, f, i):
        m = re.search(r'::(throw\w+)\(', f['dem']).group(1); return [(st, Exc(m + ((':' + cname(E, st, a[0])) if m == 'throwMissingRequiredField' else ''), E.alloc(st, 'exception', 8)))]
def zc(c): return c
def B(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def opaque_types(E, own, recs):
    """containers and contained records: ghost lifetimes"""
    tys = {t: 24 if t == 'vector' else 56 for t in CT}; q = {t: rf'std::{t}<.*>' for t in CT}
    for n, sz in recs.items():
        if n != own: tys[n] = sz; q[n] = 'nebula::' + n
    setup_types(E, tys, [], q)
    def dflt(t):
        def h(E, st, a, f, i): E.g_start(E, st, a[0], t, 'empty', f'construction of {t}'); return None
        return h
    def clr(E, st, a, f, i):
        g = E.g_live(E, st, a[0], f['dem'].split('<')[0].split('::')[-1], 'clear'); st.rw(a[0].obj).g[('lt', a[0].off)] = (g[0], 'empty'); return None
    for t in tys: E.on_first(q[t] + f'::{t}\\(\\)', dflt(t))
    for t in CT: E.on_first(q[t] + r'::clear\(\)', clr)
# ------------------------------------------------------------------ control flow: the one block every cycle of a decoder goes through
def succs(b):
    out = []
    for i in b['insts']:
        if i['op'] == 'br': out += [i['t']] + ([i['f']] if 'cond' in i else [])
        elif i['op'] == 'switch': out += [t for _, t in i['cases']] + [i['default']]
        elif i['op'] == 'invoke': out += [i['normal'], i['unwind']]
    return out
def cyclic(nodes, su):
    """is there a cycle among nodes"""
    col = {}
    for r in nodes:
        if col.get(r): continue
        stack = [(r, iter(su[r]))]; col[r] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in nodes: continue
                if col.get(y) == 1: return True
                if not col.get(y): col[y] = 1; stack.append((y, iter(su[y]))); break
            else: col[x] = 2; stack.pop()
    return False
def cutblock(f):
    su = {b['id']: succs(b) for b in f['blocks']}; nodes = set(su)
    if not cyclic(nodes, su): return None
    c = [b['id'] for b in f['blocks'] if not cyclic(nodes - {b['id']}, su)]
    if not c: raise Unsupported('the cycles of the decoder have no common block')
    pr = {n: sum(n in s for s in su.values()) for n in su}
    c.sort(key=lambda n: (-pr[n], n)); return c[0]
def reach(f, bid):
    """blocks on a cycle through bid"""
    su = {b['id']: succs(b) for b in f['blocks']}; fwd = set(); todo = list(su[bid])
    while todo:
        x = todo.pop()
        if x not in fwd: fwd.add(x); todo += su[x]
    bwd = {bid}; ch = True
    while ch:
        ch = False
        for n in su:
            if n not in bwd and any(t in bwd for t in su[n]): bwd.add(n); ch = True
    return fwd & bwd
# ------------------------------------------------------------------ one record
class Codec:
    """proof units of the codec of one record"""
    def __init__(s, key, n, cpp, fs, mod, wr={}):
        s.key, s.n, s.cpp, s.fs, s.mod, s.wr = key, n, cpp, fs, mod, wr
    def engine(s):
        mk0 = std_engine(s.mod())
        def mk():
            E = mk0(); q = lambda n: E.u(State(), quiet(E, State(), n)[1])
            own = s.cpp.split('::')[-1]; sz = {f[len('vc_csize_'):]: q(f) for f in E.mod.funcs if f.startswith('vc_csize_')}
            opaque_types(E, own, sz); s.W = Wire(E, s.cpp, s.fs); E.W = s.W; E.size = q('vc_size_' + s.n); E.assumed = ['constructors of the contained types and memory allocation do not throw']; abort_handler(E); E.maxpaths = 400000; return E
        return mk
    def lab(s, m): return f'Cpp2Ops<{s.cpp}>::{m}'
    def subsets(s):
        o = [f.name for f in s.fs if f.opt]
        return [{n for k, n in enumerate(o) if m >> k & 1} for m in range(1 << len(o))]
    def at(s, E, st, p, f): return quiet(E, st, f'vc_at_{s.n}_{f.name}', p)[1]
    def fill(s, E, st, p, f, nm):
        """an arbitrary content for field f -> abstract content"""
        if f.k == 'int':
            t = z3.Int(nm); lo, hi = f.rng; st.pc.append(z3.And(t >= lo, t <= hi)); quiet(E, st, f'vc_put_{s.n}_{f.name}', p, IV(64, t, lo, hi)); return ('int', t)
        if f.k == 'bool':
            t = z3.Int(nm); st.pc.append(z3.And(t >= 0, t <= 1)); quiet(E, st, f'vc_put_{s.n}_{f.name}', p, IV(64, t, 0, 1)); return ('int', t)
        q = s.at(E, st, p, f)
        if f.k == 'str': stdlib.str_fresh(E, st, q, nm); return ('str', nm)
        o = st.rw(q.obj); g = o.g.get(('lt', q.off)); k = ('lt', q.off) if g is not None else ('rec', q.off)
        o.g[k] = (g[0] if g else 'record', nm); return ('opaque', nm)
    def build(s, E, st, nm, present):
        p = obj(E, st, nm, E.size); quiet(E, st, 'vc_new_' + s.n, p); c = {}
        for f in s.fs:
            if f.opt and f.name not in present: c[f.name] = None; continue
            if f.opt: quiet(E, st, f'vc_make_{s.n}_{f.name}', p)
            c[f.name] = s.fill(E, st, p, f, f'{nm}.{f.name}')
        return p, c
    def get(s, E, st, p, f):
        if f.opt:
            h = E.boolv(quiet(E, st, f'vc_has_{s.n}_{f.name}', p)[1])
            if not isinstance(h, bool): raise Unsupported(f'{f.name}: present or not depends on the input')
            if not h: return None
        if f.k in ('int', 'bool'): return ('int', E.s(st, quiet(E, st, f'vc_get_{s.n}_{f.name}', p)[1]))
        q = s.at(E, st, p, f)
        if f.k == 'str': return ('rope', stdlib.str_get(E, st, q))
        o = st.mem[q.obj]; g = o.g.get(('lt', q.off)) or o.g.get(('rec', q.off)); return ('opaque', g[1] if g else 'nothing')
    def same(s, E, st, a, w):
        """content read off the object against the expected one"""
        if a is None or w is None: return a is None and w is None
        if w[0] == 'str':
            if a[0] != 'rope': return False
            c = E.rope_eq_cond(st, E.rope_norm(st, list(a[1])), [stdlib.Sl(('str', w[1]), 0, z3.Int('len_' + w[1]))]) if True else None
            return bool(c) if isinstance(c, bool) or c is None else c
        if w[0] == 'int': return a[0] == 'int' and (True if E.eqt(st, a[1], w[1]) else a[1] == w[1])
        return a == w
    def check(s, E, st, p, exp, what):
        for f in s.fs:
            c = s.same(E, st, s.get(E, st, p, f), exp[f.name])
            if isinstance(c, bool): c = c
            ob(E, st, f'{what}: {f.name} holds what the message says', c)
    # -- writing and sizes
    def u_out(s, m):
        root = dict(write='vc_w_', serializedSize='vc_s_', serializedSizeZC='vc_z_')[m] + s.n
        def u(E):
            W = E.W; lbl = s.lab(m); n = 0
            for present in s.subsets():
                st = State(); p, c = s.build(E, st, 'o', present); st.rw(p.obj).ro = True; pr = obj(E, st, 'protocol', 8); E.curfn = lbl
                for st2, r in E.exec_fn(st, E.mod.find(root), [pr, p]):
                    E.curfn = lbl; n += 1
                    if isinstance(r, Exc): ob(E, st2, 'encoding does not throw', False); continue
                    s.trace(E, st2, m, c, present); tr = st2.g.get('sum', ())
                    ob(E, st2, 'the number returned is the total of all parts', E.u(st2, r) == z3.Sum(list(tr)) if tr else E.u(st2, r) == 0)
            ob(E, State(), 'encoding returns', n > 0); E.covers = getattr(E, 'covers', 0) + 1; E.verified = sorted(set(getattr(E, 'verified', []) + [lbl]))
        return u
    def trace(s, E, st, m, c, present):
        size = m != 'write'; tr = list(st.g.get('tr', ())); want = [('sb',)]
        for f in s.fs:
            if f.opt and f.name not in present: continue
            want += [('fb', f), ('val', f)] + ([] if size else [('fe', f)])
        want += [('stop',)] + ([] if size else [('se',)])
        if not size and tr[-2:] == [('se',), ('stop',)]: tr[-2:] = [('stop',), ('se',)]
        for k, w in enumerate(want):
            t = tr[k] if k < len(tr) else ('nothing',); nm = f'{s.n}: ' + (f'{w[1].name}' if len(w) > 1 else '')
            if w[0] == 'fb': ob(E, st, f'{nm} is announced by its name, wire type {w[1].wire} and id {w[1].id}', t[0] == 'fb' and t[1] == w[1].name and all(isinstance(x, int) for x in t[2:]) and t[2:] == (w[1].wire, w[1].id), 'wire')
            elif w[0] == 'val': ob(E, st, f'{nm} is encoded as {w[1].t} with the content it has', s.val(E, st, t, w[1], c[w[1].name], size), 'wire')
            else: ob(E, st, f'{s.n}: {dict(sb="the struct begins", fe="the field ends", stop="the stop marker follows", se="the struct ends")[w[0]]}', t[0] == w[0], 'wire')
            if t[0] != w[0]: return
        ob(E, st, f'{s.n}: nothing else is encoded', len(tr) == len(want), 'wire')
    def val(s, E, st, t, f, c, size):
        if t[0] != 'val': return False
        _, wt, tc, v = t
        if f.k == 'int':
            if v[0] != 'int' or v[2] is None: return False
            if not (wt == f.wire or size and wt == 10): return False
            if f.t == 'enum' and tc != 'enumeration' or f.t != 'enum' and tc != 'integral': return False
            x = c[1]; w = s.wr.get(f.name); ok = v[2] == (w(x) if w else x)
            return z3.Or(ok, v[2] == x) if w and size else ok
        if wt != f.wire: return False
        if f.k == 'bool': return v[0] == 'int' and v[2] == c[1]
        if tc != tclass(f.t): return False
        if f.k == 'str': return v[0] == 'str' and bool(s.same(E, st, ('rope', list(v[1])), c))
        return v == c
    # -- reading
    def u_read(E_s):
        s = E_s
        def u(E):
            W = E.W; lbl = s.lab('read'); f = E.mod.funcs[E.mod.find(f'void apache::thrift::Cpp2Ops<{s.cpp}, void>::read<VProto>(VProto*, {s.cpp}*)')]; cut = cutblock(f); arr = []; req = [x.name for x in s.fs if x.req]; n = [0]
            if cut is not None:
                def at(E, f, bid, nphi, env, st): arr.append((bid, nphi, env, st))
                E.cutpoints[(f['name'], cut)] = at
            def outs(rs, p, what):
                for st, r in rs:
                    E.curfn = lbl; E.curloc = ''; d = st.g['rd']; seen = [B(d['seen'].get(q, False)) for q in req]
                    if isinstance(r, Exc):
                        m = str(r.ty).split(':')
                        ob(E, st, f'{what}: decoding fails only when a required field is missing', (m[0] == 'throwMissingRequiredField' and d['ph'] in ('stop', 'end')) and z3.Not(z3.And(seen)) if seen else False)
                        if len(m) > 1 and m[1] in req: ob(E, st, f'{what}: {m[1]} is reported only when it is missing', z3.Not(B(d['seen'].get(m[1], False))))
                        continue
                    n[0] += 1; ob(E, st, f'{what}: decoding ends at the end of the struct', d['ph'] == 'end')
                    ob(E, st, f'{what}: no required field is missing', z3.And(seen) if seen else True); s.check(E, st, p, d['exp'], what); s.frees(E, st, p, what)
            def rsof(env, st):
                c = [o for o in env['frame'] if o in st.mem and st.mem[o].size == E.rssize and 'readState' in (st.mem[o].name or '') or o in st.mem and st.g.get('rsobj') == o]
                return c
            E.rssize = E.u(State(), quiet(E, State(), 'vc_state_size')[1])
            # from the start
            for present in s.subsets():
                st = State(); p, c = s.build(E, st, 'o', present); pr = obj(E, st, 'protocol', 8); E.curfn = lbl
                st.g['rd'] = dict(ph='start', last=None, k=0, id=None, ty=None, exp=c, seen={}); outs(E.exec_fn(st, f['name'], [pr, p]), p, 'from the start')
            if cut is None: E.covers = n[0] > 0; E.verified = [lbl]; return
            # at the cut: what every arrival has in common is the invariant
            arr1 = list(arr); arr.clear(); blocks = reach(f, cut); defs = {i['id'] for b in f['blocks'] if b['id'] in blocks for i in b['insts'] if 'id' in i}
            phis = [i for i in f['bmap'][cut]['insts'] if i['op'] == 'phi']; phs = sorted({a[3].g['rd']['ph'] for a in arr1}); mp = {}
            def pv(st, v):
                v = E.boolv(v) if isinstance(v, (bool, z3.BoolRef)) else v
                return int(v) if isinstance(v, bool) else E.u(st, v) if isinstance(v, IV) else None
            for i in phis:
                for q in req:
                    if all(pv(a[3], a[2][i['id']]) == (1 if a[3].g['rd']['seen'].get(q) else 0) for a in arr1): mp[i['id']] = q
            flags = {}; fr0 = arr1[0][2]['frame'] if arr1 else []
            def cells(a):
                out = {}
                for k, o in enumerate(a[2]['frame']):
                    if o in a[3].mem and a[3].mem[o].alive:
                        for off, (sz, v) in a[3].mem[o].cells.items():
                            if isinstance(v, (IV, bool)) and isinstance(pv(a[3], v), int): out[(k, off)] = (sz, pv(a[3], v))
                return out
            cs = [cells(a) for a in arr1]
            for k in (set.intersection(*[set(c) for c in cs]) if cs else ()):
                for q in req:
                    if all(c[k][1] == (1 if a[3].g['rd']['seen'].get(q) else 0) for c, a in zip(cs, arr1)): flags[k] = (q, cs[0][k][0])
            def invariant(a, what):
                bid, nphi, env, st = a; d = st.g['rd']; E.curfn = lbl; E.curloc = ''
                if d['ph'] not in phs: ob(E, st, f'{what}: the decoder is between two fields', False)
                s.check(E, st, env[f['params'][1]['id']], d['exp'], what); s.frees(E, st, env[f['params'][1]['id']], what)
                for i, q in mp.items():
                    x = pv(st, env[i]); ob(E, st, f'{what}: the decoder knows whether {q} has come', x is not None and x == z3.If(B(d['seen'].get(q, False)), z3.IntVal(1), z3.IntVal(0)))
                for (k, off), (q, sz) in flags.items():
                    c = st.mem[env['frame'][k]].cells.get(off); x = pv(st, c[1]) if c else None
                    ob(E, st, f'{what}: the decoder knows whether {q} has come', x is not None and x == z3.If(B(d['seen'].get(q, False)), z3.IntVal(1), z3.IntVal(0)))
                rs = st.g.get('rs')
                if rs is None: ob(E, st, f'{what}: the reader state is in use', False); return
                i, t = E.load(st, rs, 'i16', 2), E.load(st, Ptr(rs.obj, rs.off + 4), 'i32', 4)
                if d['ph'] == 'pending':
                    ok = not isinstance(i, Undef) and not isinstance(t, Undef)
                    ob(E, st, f'{what}: the reader state has the header of the pending field', z3.And(E.s(st, i) == z3.If(W.names, z3.IntVal(-32768), d['id']), E.s(st, t) == d['ty']) if ok else False)
                elif d['ph'] == 'stop': ob(E, st, f'{what}: the reader state has the stop marker', not isinstance(t, Undef) and E.s(st, t) == 0)
                elif d['ph'] == 'consumed': ob(E, st, f'{what}: the reader state has the id of the last field', not isinstance(i, Undef) and z3.Or(W.names, E.s(st, i) == d['last']))
            for a in arr1: invariant(a, 'between fields')
            # an arbitrary iteration
            tmpl = arr1[0]
            for present in s.subsets():
                for ph in phs:
                    st = tmpl[3].fork(); env = {k: v for k, v in tmpl[2].items() if k not in defs}; p = env[f['params'][1]['id']]; base = len(st.pc)
                    st.pc = [c for c in st.pc if False]
                    exp = {}
                    # the record: a new arbitrary one at the same place
                    s.reset(E, st, p); quiet(E, st, 'vc_new_' + s.n, p)
                    for x in s.fs:
                        if x.opt and x.name not in present: exp[x.name] = None; continue
                        if x.opt: quiet(E, st, f'vc_make_{s.n}_{x.name}', p)
                        exp[x.name] = s.fill(E, st, p, x, f'it.{x.name}')
                    rs = st.g['rs']
                    for o in env['frame']:
                        if o in st.mem and o != rs.obj: E.kill_cells(st, st.rw(o), 0, st.mem[o].size)
                    seen = {q: z3.Bool(f'seen.{q}') for q in req}; one = lambda q: z3.If(seen[q], z3.IntVal(1), z3.IntVal(0))
                    for i in phis:
                        w = tw(i['ty']); q = mp.get(i['id'])
                        if not w: raise Unsupported('a value of type %s is carried around the decoder loop' % i['ty'])
                        env[i['id']] = (seen[q] if w == 1 else IV(w, one(q), 0, 1)) if q else (z3.Bool(fresh_name('carried')) if w == 1 else E.rng(st, IV(w, z3.Int(fresh_name('carried')), 0, (1 << w) - 1)))
                    for (k, off), (q, sz) in flags.items(): E.store(st, Ptr(env['frame'][k], off), IV(8 * sz, one(q), 0, 1), 'i%d' % (8 * sz), sz)
                    id, ty, last = z3.Int('it.id'), z3.Int('it.type'), z3.Int('it.last'); st.pc += [id >= -(1 << 15), id < 1 << 15, ty >= 2, ty <= 15, last >= -(1 << 15), last < 1 << 15]
                    for g in s.fs: st.pc.append(z3.Implies(z3.And(W.names, id == g.id), ty == g.wire))
                    st.g['rd'] = dict(ph=ph, last=id if ph == 'pending' else 0 if ph == 'begin' else last, k=100, id=id, ty=ty, exp=exp, seen=seen)
                    if ph == 'pending': W.put(st, rs, z3.If(W.names, z3.IntVal(-32768), id), ty)
                    elif ph == 'stop': W.put(st, rs, 0, 0)
                    else: W.put(st, rs, last if ph == 'consumed' else 0, z3.Int('it.stale'))
                    E.curfn = lbl; outs(E.resume(f, cut, tmpl[1], env, st), p, 'any iteration')
            for a in arr: invariant(a, 'any iteration')
            ob(E, State(), 'decoding returns', n[0] > 0); E.covers = len(s.subsets()); E.verified = [lbl]
        return u
    def reset(s, E, st, p):
        o = st.rw(p.obj); E.kill_cells(st, o, 0, E.size)
        for k in list(o.g): del o.g[k]
    def owned(s, E, st, p):
        return {s.at(E, st, p, f).obj for f in s.fs if f.opt and f.k not in ('int', 'bool') and E.boolv(quiet(E, st, f'vc_has_{s.n}_{f.name}', p)[1]) is True}
    def frees(s, E, st, p, what): pass
    def u_names(s):
        def u(E):
            lbl = f'TccStructTraits<{s.cpp}>::translateFieldName'; E.handlers = [h for h in E.handlers if 'translateFieldName' not in h[0].pattern]; E.hcache.clear()
            st = State(); E.curfn = lbl; T = {f.name: z3.Bool('name is ' + f.name) for f in s.fs}; other = set()
            for a in T.values():
                for b in T.values():
                    if a is not b: st.pc.append(z3.Not(z3.And(a, b)))
            def eq(E, st, a, f, i):
                raise Unsupported('name comparison')
            nm = E.alloc(st, 'field name', 64, 'stack'); ln = E.sym(st, 64, 'name.size', False)
            def heq(E, st, a, f, i):
                ps = [x for x in (a[0], a[2]) if isinstance(x, Ptr)]; lit = [x for x in ps if x.obj != nm.obj]
                if len(lit) != 1: raise Unsupported('name comparison')
                x = cname(E, st, lit[0])
                if x not in T: T.setdefault(x, z3.Bool('name is ' + x)); [st.pc.append(z3.Not(z3.And(T[x], b))) for y, b in T.items() if y != x]
                return T[x]
            E.on_first(r'folly::operator==\(folly::StringPiece, folly::StringPiece\)', heq)
            id0, ty0 = E.sym(st, 16, 'fid0'), E.sym(st, 32, 'ftype0'); pid, pty = obj(E, st, 'fid', 2), obj(E, st, 'ftype', 4); E.store(st, pid, id0, 'i16', 2); E.store(st, pty, ty0, 'i32', 4); n = 0
            for s2, r in E.exec_fn(st, E.mod.find('vc_n_' + s.n), [nm, ln, pid, pty]):
                E.curfn = lbl; n += 1
                if isinstance(r, Exc): ob(E, s2, 'no exception', False); continue
                gi, gt = E.s(s2, E.load(s2, pid, 'i16', 2)), E.s(s2, E.load(s2, pty, 'i32', 4))
                for f in s.fs: ob(E, s2, f'the name {f.name} stands for field {f.id} of wire type {f.wire}', z3.Implies(T[f.name], z3.And(gi == f.id, gt == f.wire)))
                ob(E, s2, 'any other name leaves id and type', z3.Implies(z3.Not(z3.Or([T[f.name] for f in s.fs])), z3.And(gi == E.s(s2, id0), gt == E.s(s2, ty0))))
            ob(E, st, 'translateFieldName returns', n > 0)
            (s3, r), = E.exec_fn(State(), E.mod.find('vc_t_' + s.n), []); E.curfn = f'Cpp2Ops<{s.cpp}>::thriftType'; ob(E, s3, 'a record is a struct on the wire', E.s(s3, r) == TT['STRUCT'])
            E.covers = 1; E.verified = [lbl, f'Cpp2Ops<{s.cpp}>::thriftType']
        return u
    def units(s):
        e = s.engine()
        return [(f'{s.n} write', e, s.u_out('write')), (f'{s.n} size', e, s.u_out('serializedSize')), (f'{s.n} sizeZC', e, s.u_out('serializedSizeZC')), (f'{s.n} read', e, s.u_read()), (f'{s.n} names', e, s.u_names())]
# ------------------------------------------------------------------ concrete search
RNG = dict(Date=dict(month=(1, 12), day=(1, 31)), Time=dict(hour=(0, 23), minute=(0, 59), sec=(0, 59), microsec=(0, 999999)), Value=dict(nVal=(0, 7)), ProfilingStats={}, Edge=dict(type=(-1, 1)), Step=dict(type=(-1, 1)))
RNG['DateTime'] = {**RNG['Date'], **RNG['Time']}
TN = dict(List='NList', Map='NMap', Set='NSet')
def search_source(recs, incs, rounds):
    """recs {name: (C++ type, fields)}: a program generated from the schema"""
    unions = set(re.findall(r'union\s+(\w+)', strip(open(SRC + 'interface/common.thrift').read())))
    s = '#include "common/base/Base.h"\n' + ''.join(f'#include "{i}"\n' for i in incs) + '#include "' + VERIF + '/harness/wire_search.h"\nstd::map<std::string, S> schema = {\n'
    for file in ('common.thrift', 'graph.thrift'):
        for n, fs in thrift(file).items():
            if file == 'graph.thrift' and n not in recs: continue
            s += '{"%s", {%s, {%s}}},\n' % (n, 'true' if n in unions else 'false', ', '.join('{%d, "%s", "%s", %s, %s, %d, %d, %d}' % ((i, nm, t, str(q == 'required').lower(), str(q == 'optional').lower()) + RNG.get(n, {}).get(nm, (0, -1)) + (wire(t),)) for i, nm, t, q in fs))
    s += '};\nint main() {\n'
    for n, (T, fs) in recs.items():
        s += f'record<{T}>("{TN.get(n, n)}", {rounds}, [](const {T}& o, const std::map<std::string, Toks>& w) -> std::string {{ (void)o;\n'
        for f in fs:
            x = f'o.{f.cpp}'; v = f'(*{x})' if f.opt else x
            if f.opt: s += f'if (({x} != nullptr) != (w.count("{f.name}") > 0)) return "{f.name}";\n'
            cmp_ = {'int': f'static_cast<int64_t>({v}) == w.at("{f.name}")[0].i', 'bool': f'{v} == bool(w.at("{f.name}")[0].i)', 'double': f'{v} == w.at("{f.name}")[0].d', 'str': f'{v} == w.at("{f.name}")[0].s', 'cont': f'{v}.size() == size_t(w.at("{f.name}")[0].i)'}.get(f.k)
            if cmp_: s += f'if (w.count("{f.name}") && !({cmp_})) return "{f.name}";\n'
        s += 'return ""; });\n'
    return s + 'puts("OK"); }\n'
def wire_search(recs, incs, srcs, name, rounds=lambda tier: 20000 if tier == 'thorough' else 4000):
    def search(self, failed, tier):
        p = scratch() + f'/{name}.cpp'
        with open(p, 'w') as fh: fh.write(search_source(recs(), incs, rounds(tier)))
        prog = build_replay([p] + [SRC + x for x in srcs] + [VERIF + '/shim/folly_shim.cpp'], name, ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), ('-lglog', '-lgflags', '-lpthread'))
        return run_search(prog, [], timeout=300)
    return search
