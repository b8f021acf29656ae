"""The part of the code generated from meta.thrift that the schema provider uses, written from /repo's meta.thrift on every run: the enumeration
PropertyType as it stands there, and SchemaProp with the optional fields it lists."""
import re, os
def generate(repo, d):
    t = open(repo + '/src/common/interface/meta.thrift').read(); t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
    body = re.search(r'enum PropertyType\s*\{(.*?)\}', t, re.S).group(1); vals = re.findall(r'(\w+)\s*=\s*(\d+)', body)
    sp = re.search(r'struct SchemaProp\s*\{(.*?)\}', t, re.S).group(1); fs = re.findall(r'\d+:\s*optional\s+(\w+)\s+(\w+)', sp); cty = {'i64': 'int64_t', 'binary': 'std::string', 'string': 'std::string', 'i32': 'int32_t'}
    o = ['#pragma once', '#include <string>', '#include "common/thrift/ThriftTypes.h"', 'namespace nebula { namespace meta { namespace cpp2 {', 'enum class PropertyType {' + ', '.join(f'{n} = {v}' for n, v in vals) + '};',
         'template <class T> struct FieldRef { const T* p; bool has_value() const { return p != nullptr; } explicit operator bool() const { return p != nullptr; } const T& value() const { return *p; } const T& operator*() const { return *p; } };', 'struct SchemaProp {']
    for ty, n in fs:
        c = cty[ty]; o.append(f'bool has_{n} = false; {c} {n}{{}}; FieldRef<{c}> {n}_ref() const {{ return FieldRef<{c}>{{has_{n} ? &{n} : nullptr}}; }} const {c}* get_{n}() const {{ return has_{n} ? &{n} : nullptr; }} void set_{n}({c} v) {{ has_{n} = true; {n} = v; }}')
    o += ['};', '}}}']; p = d + '/gen/common/interface/gen-cpp2'; os.makedirs(p, exist_ok=True); open(p + '/meta_types.h', 'w').write('\n'.join(o) + '\n'); return d + '/gen', {n: int(v) for n, v in vals}
