from ghost import *
_js = {}
def thrift():
    s = open(SRC + 'interface/common.thrift').read(); m = re.search(r'enum ErrorCode \{(.*?)\n\}', s, re.S)
    if not m: raise ToolError('no enum ErrorCode in common.thrift')
    body = re.sub(r'//[^\n]*|#[^\n]*|/\*.*?\*/', '', m.group(1), flags=re.S)
    return {a: int(b) for a, b in re.findall(r'(\w+)\s*=\s*(-?\d+)', body)}
def module():
    if 'm' not in _js:
        p = scratch() + '/errcode_driver.cpp'
        with open(p, 'w') as fh:
            fh.write('#include "common/base/Base.h"\n#include "common/graph/Response.h"\nextern "C" const char* vc_errorCode(int c) { return nebula::errorCode(static_cast<nebula::ErrorCode>(c)); }\n')
            for n in thrift(): fh.write(f'extern "C" int vc_val_{n}() {{ return static_cast<int>(nebula::ErrorCode::{n}); }}\n')
        _js['m'] = compile_ir([p, SRC + 'graph/Response.cpp'], 'errcode')
    return _js['m']
def cstr(E, st, p):
    if not isinstance(p, Ptr) or p.obj is None or not isinstance(p.off, int): raise Unsupported('name at an unknown address')
    out = b''; k = p.off
    while True:
        v = E.load(st, Ptr(p.obj, k), 'i8', 1); v = E.u(st, v) if not isinstance(v, int) else v
        if not isinstance(v, int): raise Unsupported('name is not constant')
        if v == 0: return out.decode('latin1')
        out += bytes([v & 255]); k += 1
def u_values(E):
    for n, v in thrift().items():
        E.curfn = 'nebula::ErrorCode'; (st, r), = E.exec_fn(State(), E.mod.find('vc_val_' + n), [])
        ob(E, st, f'{n} is {v}, as in common.thrift', E.s(st, r) == v)
    E.covers = 1; E.verified = ['nebula::ErrorCode']
def u_names(E):
    T = thrift(); st = State(); c = E.sym(st, 32, 'code'); E.curfn = 'nebula::errorCode'; seen = set(); n = 0
    for s2, r in E.exec_fn(st, E.mod.find('vc_errorCode'), [c]):
        E.curfn = 'nebula::errorCode'; n += 1; s = cstr(E, s2, r)
        if s in T: ob(E, s2, f'the name {s} stands for {T[s]} only', c.t == T[s]); seen.add(s)
        else: ob(E, s2, 'a code without a name is reported as unknown, and only such a code', z3.And(B(s == 'Unknown error'), z3.And([c.t != v for v in T.values()])))
    ob(E, st, 'every error code has its name', seen == set(T)); ob(E, st, 'no two names share a number', len(set(T.values())) == len(T))
    E.covers = 1; E.verified = ['nebula::errorCode']
def B(c): return z3.BoolVal(c) if isinstance(c, bool) else c
class PROP(Property):
    id = 'C13'
    budget = 200
    assumptions = ['common.thrift in the same tree is the wire definition']
    def units(self):
        def mk():
            E = std_engine(module())(); return E
        return [('values', mk, u_values), ('names', mk, u_names)]
    def search(self, failed, tier):
        p = scratch() + '/errcode_search.cpp'; T = thrift()
        with open(p, 'w') as fh:
            fh.write('#include "common/base/Base.h"\n#include "common/graph/Response.h"\n#include <map>\nusing namespace nebula;\nint main() { std::map<int, std::string> t; int bad = 0;\n')
            for n, v in T.items(): fh.write(f't[{v}] = "{n}"; if (static_cast<int>(ErrorCode::{n}) != {v}) {{ printf("FAIL {n} is %d, the wire value is {v}\\n", static_cast<int>(ErrorCode::{n})); bad = 1; }}\n')
            fh.write('for (int c = -70000; c <= 70000; c++) { auto i = t.find(c); std::string w = i == t.end() ? "Unknown error" : i->second; if (w != errorCode(static_cast<ErrorCode>(c))) { printf("FAIL errorCode(%d) = %s, expected %s\\n", c, errorCode(static_cast<ErrorCode>(c)), w.c_str()); bad = 1; } }\nreturn bad; }\n')
        r = subprocess.run(['g++', '-O1', '-w'] + CXXDEFS + [p, SRC + 'graph/Response.cpp', VERIF + '/shim/folly_shim.cpp'] + [SRC + 'datatypes/%s.cpp' % s for s in ('Value', 'Date', 'List', 'Map', 'Set', 'Edge', 'Vertex', 'Path')] + [SRC + 'time/TimeConversion.cpp', '-o', scratch() + '/errcode_search', '-lglog', '-lgflags', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return False, 'the program naming every wire code does not compile:\n' + r.stdout[-2000:]
        return run_search(scratch() + '/errcode_search')
