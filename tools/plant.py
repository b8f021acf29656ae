#!/usr/bin/env python3
"""plant.py SPEC.py: writes seeded/<id>/ from bug(...) calls, confirms each in /repo (build, tests, demo both ways, the property's check) and undoes it."""
import sys, os, subprocess, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
DEMO = '''#!/bin/bash
# run in /repo after the build: 0 on correct code
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -w %(flags)s -I src "$D/demo.cpp" %(srcs)s -o "$T/demo" %(libs)s || exit 3
cd "$T" && %(env)s timeout 100 ./demo
'''
DEMOP = '''#!/bin/bash
# run in /repo after the build: 0 on correct code
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
printf '%%s\\n' "$D/demo.cpp" %(srcs)s | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -c %(flags)s -I src "$2" -o "$1/$(echo "$2" | tr / _).o"' - "$T" {} "$D" || exit 3
g++ "$T"/*.o -o "$T/demo" %(libs)s || exit 3
cd "$T" && %(env)s timeout 100 ./demo
'''
SUB = '-DCOMMON_BASE_BASE_H_ -include _build/base_includes.h'
SHIM = '-include cstdint -I "$D/shim" -DNEBULA_HOME=/repo'
only = None
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def bug(id, prop, edits, demo, needs, breaks, srcs='', shim=False, flags='', libs='-lglog -lgflags -lpthread', env='', check=True, par=False):
    if only and id not in only: return
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    assert sh(f'git -C {R} status --porcelain').stdout.strip() == '', 'repo dirty'
    for f, a, b in edits:
        p = f'{R}/src/common/{f}'; s = open(p).read()
        assert s.count(a) == 1, f'{id}: {s.count(a)} matches of {a!r} in {f}'
        open(p, 'w').write(s.replace(a, b))
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
    open(f'{d}/demo.cpp', 'w').write(demo)
    if shim and not os.path.isdir(f'{d}/shim'): shutil.copytree(f'{V}/shim', f'{d}/shim')
    srcs2 = ' '.join('src/common/' + s for s in srcs.split()) + (' "$D/shim/folly_shim.cpp"' if shim else '') + (' "$D/shim/expr_wire.cpp"' if par else '')
    open(f'{d}/demo.sh', 'w').write((DEMOP if par else DEMO) % dict(flags=(SHIM.replace('$D', '$3') if par else SHIM if shim else SUB) + ' ' + flags, srcs=srcs2, libs=libs, env=env)); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    msg = []
    try:
        r = sh('bash /opt/vp/build.sh'); msg.append('build ' + ('ok' if r.returncode == 0 else 'FAILED ' + r.stdout[-500:]))
        r = sh('bash /opt/vp/test.sh /tmp/w/o.json'); msg.append('tests ' + r.stdout.strip().split('\n')[-1])
        r = sh(f'bash {d}/demo.sh', cwd=R); msg.append(f'demo(bug)={r.returncode} {r.stdout.strip()[-160:]!r}')
        if check:
            t = time.time(); r = sh(f'python3-vt vc/check.py {prop}', cwd=V); v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            msg.append(f'check={r.returncode} {v} {time.time()-t:.0f}s')
    finally:
        sh(f'git -C {R} checkout -- .'); sh('bash /opt/vp/build.sh')
    r = sh(f'bash {d}/demo.sh', cwd=R); msg.append(f'demo(clean)={r.returncode} {r.stdout.strip()[-160:] if r.returncode else ""}')
    print(id, '|', ' | '.join(msg), flush=True)
if __name__ == '__main__':
    if len(sys.argv) > 2: only = set(sys.argv[2:])
    exec(open(sys.argv[1]).read())
