"""Builds the IR of the current /repo tree, runs proof units, replays, writes evidence, sets the exit code."""
import os, sys, json, time, subprocess, tempfile, shutil, atexit, hashlib, traceback, multiprocessing, signal, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/common/'
sys.path.insert(0, os.path.join(VERIF, 'vc'))
import z3
from engine import *
import stdlib

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='vc_', dir='/tmp')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH
class ToolError(Exception): pass

IRDUMP = os.path.join(VERIF, 'build', 'irdump')
def ensure_irdump():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src): return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    inc = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cppflags'], text=True).split()
    tmp = IRDUMP + '.%d' % os.getpid()
    subprocess.check_call(['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-w'] + inc + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    os.rename(tmp, IRDUMP)

CXXDEFS = ['-std=c++17', '-include', 'cstdint', '-I' + VERIF + '/shim', '-I' + REPO + '/src', '-DNEBULA_HOME=' + REPO, '-fno-strict-aliasing']
def run_cmd(cmd, what, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode: raise ToolError(f'{what} failed:\n$ {" ".join(cmd)}\n{r.stdout[-4000:]}')
    return r.stdout
def compile_ir(srcs, name):
    """srcs: absolute paths. -> Module path"""
    d = scratch(); ensure_irdump()
    procs = []
    for k, s in enumerate(srcs):
        o = f'{d}/{name}.{k}.bc'
        cmd = ['clang++-18', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', '-emit-llvm', '-c'] + CXXDEFS + (['-fno-access-control'] if s.startswith(d) else []) + [s, '-o', o]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd, o))
    outs = []
    for p, cmd, o in procs:
        out, _ = p.communicate()
        if p.returncode: raise ToolError('clang failed: ' + ' '.join(cmd) + '\n' + out[-4000:])
        outs.append(o)
    linked = f'{d}/{name}.bc'
    run_cmd(['llvm-link-18', '-o', linked] + outs, 'llvm-link')
    js = f'{d}/{name}.json'
    with open(js, 'w') as fh:
        r = subprocess.run([IRDUMP, linked], stdout=fh, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise ToolError('irdump failed: ' + r.stderr[-2000:])
    return js
def build_replay(srcs, name, extra=(), libs=('-lglog', '-lgflags', '-lpthread')):
    """g++ -O1 build of a replay/search program from the same tree, with sanitizers on"""
    d = scratch(); out = f'{d}/{name}'
    objs = []; procs = []
    def one(k):
        o = f'{d}/{name}.{k}.o'; cmd = ['g++', '-O1', '-g0', '-w', '-c'] + CXXDEFS + list(extra) + [srcs[k], '-o', o]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise ToolError('g++ failed: ' + ' '.join(cmd) + '\n' + r.stdout[-4000:])
        return o
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, range(len(srcs))))
    run_cmd(['g++'] + list(extra) + objs + ['-o', out] + list(libs), 'link of replay program')
    return out

# ------------------------------------------------------------------ contracts
class Contract:
    """pre/post of one function. Subclasses give:
       dem     demangled name (exact or regex) of the function in the IR
       make(E, st) -> args             arbitrary inputs of the right shape
       pre(E, st, a) -> [(name, cond)]
       old(E, st, a) -> snapshot
       post(E, st, a, old, ret) -> [(name, cond)]      normal return
       post_exc(E, st, a, old, exc) -> [(name, cond)]  exceptional return (default: must not happen)
       havoc(E, st, a) -> ret          for use at call sites: forget the frame, fresh result"""
    dem = None
    may_throw = False
    def pre(self, E, st, a): return []
    def old(self, E, st, a): return None
    def post_exc(self, E, st, a, old, exc): return [('no exception leaves the function', False)]
    def setup(self, E, st): pass
    def verify(self, E, st=None, label=None):
        if not isinstance(st, State): st = State()
        self.setup(E, st)
        name = E.mod.find(self.dem)
        E.curfn = E.mod.funcs[name]['dem']
        a = self.make(E, st)
        for n, c in self.pre(E, st, a): E.assume(st, c)
        if not E.feasible(st): raise Unsupported(f'vacuous: precondition of {self.dem} is contradictory')
        E.covers = getattr(E, 'covers', 0) + 1
        old = self.old(E, st, a)
        outs = E.exec_fn(st, name, a)
        nret = 0
        E.curfn = E.mod.funcs[name]['dem']; E.curloc = f"{E.mod.funcs[name].get('file')}:{E.mod.funcs[name].get('line')}"
        for s2, r in outs:
            if isinstance(r, Exc):
                for n, c in self.post_exc(E, s2, a, old, r): self._ob(E, s2, n, c)
                continue
            nret += 1
            try:
                for n, c in self.post(E, s2, a, old, r): self._ob(E, s2, n, c)
            except DropPath: pass
        if nret == 0 and not self.may_throw and not any(o.status != 'discharged' for o in E.obligs):
            raise Unsupported(f'vacuous: no path of {self.dem} returns')
        E.verified = getattr(E, 'verified', []) + [E.mod.funcs[name]['dem']]
        return outs
    def _ob(self, E, st, n, c):
        try: E.oblige(st, c, 'postcondition', n)
        except DropPath: pass
    def handler(self):
        def h(E, st, a, f, inst):
            for n, c in self.pre(E, st, a): E.oblige(st, c, 'precondition', f'precondition of {f["dem"].split("(")[0]}: {n}')
            old = self.old(E, st, a)
            ret = self.havoc(E, st, a)
            for n, c in self.post(E, st, a, old, ret): E.assume(st, c)
            E.used_contracts = getattr(E, 'used_contracts', set()) | {f['dem']}
            return ret
        return h
    def install(self, E):
        E.on_first(re.escape(self.dem), self.handler())

# ------------------------------------------------------------------ running units
def _unit_main(q, mk, name, fn, budget, keep):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    t0 = time.time()
    sys.setrecursionlimit(20000)
    res = {'unit': name, 'error': None}
    E = None
    try:
        E = mk()
        E.deadline = time.time() + budget
        E.keep_smt = keep
        fn(E)
    except DropPath: res['error'] = 'precondition or axioms contradictory'
    except Unsupported as ex: res['error'] = 'unsupported: ' + str(ex)
    except z3.Z3Exception as ex: res['error'] = 'z3: ' + str(ex)[:300] + traceback.format_exc()[-1500:]
    except MemoryError: res['error'] = 'out of memory'
    except Exception: res['error'] = 'internal: ' + traceback.format_exc()[-2500:]
    if E is not None:
        res['obligs'] = [dict(kind=o.kind, desc=o.desc, fn=o.fn, loc=o.loc, status=o.status, ms=round(o.ms, 2), backend=o.backend,
                              model=o.model if isinstance(o.model, dict) else None, smt=o.smt) for o in E.obligs]
        res['contracted'] = sorted(E.contracted); res['execd'] = sorted(E.execd); res['used'] = sorted(getattr(E, 'used_contracts', set()))
        res['verified'] = getattr(E, 'verified', []); res['covers'] = getattr(E, 'covers', 0)
        res['queries'] = E.qn; res['solver_ms'] = round(E.qms, 1); res['paths'] = E.npaths; res['bounded'] = getattr(E, 'bounded', [])
        res['assumed'] = getattr(E, 'assumed', [])
    res['wall'] = round(time.time() - t0, 2)
    q.put(res)

def run_units(units, budget, jobs=8, keep=False):
    """units: [(name, engine factory, fn)]"""
    ctx = multiprocessing.get_context('fork')
    pending = list(units); running = []; results = []
    while pending or running:
        while pending and len(running) < jobs:
            name, mk, fn = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_unit_main, args=(q, mk, name, fn, budget, keep)); p.start()
            running.append((p, q, name, time.time()))
        nr = []
        for p, q, name, t in running:
            if not q.empty():
                results.append(q.get()); p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                if not q.empty(): results.append(q.get())
                else: results.append({'unit': name, 'error': f'the proof process ended with code {p.exitcode}', 'obligs': []})
            elif time.time() - t > budget + 60:
                p.kill(); results.append({'unit': name, 'error': 'time budget of the proof unit exhausted', 'obligs': []})
            else: nr.append((p, q, name, t))
        running = nr
        time.sleep(0.01)
    order = {u[0]: k for k, u in enumerate(units)}
    results.sort(key=lambda r: order.get(r['unit'], 0))
    return results

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'finding: property={pid} '): out.append(l[len(f'finding: property={pid} '):])
    return out

class Property:
    """Subclass per property: id, modules() -> units, replay(failed) -> (text, failing?)"""
    id = '?'
    budget = 300
    trusted_note = []
    assumptions = []
    def units(self): raise NotImplementedError
    def search(self, failed, tier):
        """concrete search/replay on the real code. -> (found: bool, text)"""
        return False, 'no concrete replay program for this property'
    def thorough_recheck(self, results):
        """second back end: every kept SMT query re-decided by cvc5"""
        smts = [(o, r) for r in results for o in r.get('obligs', []) if o.get('smt') and o['status'] == 'discharged']
        d = scratch(); n = agree = unk = 0; dis = []
        procs = []
        def reap(block):
            nonlocal n, agree, unk
            for x in list(procs):
                p, o, path = x
                if block or p.poll() is not None:
                    try: out, _ = p.communicate(timeout=60)
                    except subprocess.TimeoutExpired: p.kill(); out = 'timeout'
                    procs.remove(x); n += 1
                    os.unlink(path)
                    w = out.split()
                    if w[:1] == ['unsat']: agree += 1
                    elif w[:1] == ['sat']: dis.append(o)
                    else: unk += 1
        t0 = time.time()
        for k, (o, r) in enumerate(smts):
            if time.time() - t0 > 300: break
            path = f'{d}/q{k}.smt2'
            open(path, 'w').write('(set-logic ALL)\n' + o['smt'])
            procs.append((subprocess.Popen(['cvc5', '--tlimit=20000', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), o, path))
            while len(procs) >= 8: reap(False); time.sleep(0.005)
        while procs: reap(True)
        return dict(rechecked_by_cvc5=n, agree=agree, cvc5_no_answer=unk, disagree=[o['desc'] for o in dis]), dis
    def main(self):
        t0 = time.time()
        evp = os.path.join(VERIF, 'evidence', f'{self.id}.json'); os.makedirs(os.path.dirname(evp), exist_ok=True)
        try: os.unlink(evp)
        except FileNotFoundError: pass
        compile_fail = None
        try:
            units = self.units()
            results = run_units(units, self.budget, keep=TIER == 'thorough')
        except ToolError as ex:
            # the functions under contract could not be brought to IR (renamed, removed, does not compile): nothing is proved
            results = [{'unit': 'compilation of the verified functions', 'error': str(ex)[-1500:], 'obligs': []}]
        obl = [o for r in results for o in r.get('obligs', [])]
        bad = [o for o in obl if o['status'] != 'discharged']
        errs = [(r['unit'], r['error']) for r in results if r['error']]
        extra = {}
        if TIER == 'thorough' and not bad and not errs:
            extra, dis = self.thorough_recheck(results)
            if dis:
                for o in dis: o['status'] = 'failed'; o['backend'] = 'cvc5 disagrees with z3'
                bad += dis
        n = len(obl); nd = sum(1 for o in obl if o['status'] == 'discharged')
        contracted = sorted({c for r in results for c in r.get('contracted', [])})
        verified = sorted({c for r in results for c in r.get('verified', [])})
        used = sorted({c for r in results for c in r.get('used', [])})
        execd = sorted({c for r in results for c in r.get('execd', [])})
        trusted = sorted(set(contracted) - set(verified) - set(used))
        bykind = {}
        for o in obl: bykind[o['kind']] = bykind.get(o['kind'], 0) + 1
        bybe = {}
        for o in obl: bybe[o['backend']] = bybe.get(o['backend'], 0) + 1
        ev = dict(property=self.id, tier=TIER, seed=SEED, level='proof', wall_s=0.0, violations=0,
                  assumptions=list(self.assumptions) + sorted({a for r in results for a in r.get('assumed', [])}) + sorted({b for r in results for b in r.get('bounded', [])}),
                  coverage=dict(obligations=n, discharged=nd, checker_cmd=f'python3-vt /verif/vc/check.py {self.id}',
                    trusted_base=['clang 18 C++ front end and LLVM SROA (the IR verified is what they produce from /repo)', 'irdump + the VC generator in /verif/vc', 'z3 %s' % z3.get_version_string(),
                                  'object-based memory model: distinct allocations never overlap'] + list(self.trusted_note) + ['assumed contract: ' + t for t in trusted],
                    functions_under_contract=verified, functions_executed_inline=[x for x in execd if x not in verified], contracts_used_at_calls=used,
                    obligations_by_kind=bykind, obligations_by_backend=bybe, paths=sum(r.get('paths', 0) for r in results),
                    precondition_covers=sum(r.get('covers', 0) for r in results),
                    solver_queries=sum(r.get('queries', 0) for r in results), solver_ms=round(sum(r.get('solver_ms', 0) for r in results), 1),
                    units=[dict(unit=r['unit'], obligations=len(r.get('obligs', [])), wall=r.get('wall'), error=r['error']) for r in results], **extra))
        for r in results:
            print(f"[{self.id}] {r['unit']}: {sum(1 for o in r.get('obligs', []) if o['status'] == 'discharged')}/{len(r.get('obligs', []))} obligations, {r.get('paths', 0)} paths, {r.get('wall')}s" + (f"  -- {r['error']}" if r['error'] else ''))
        kf = known_findings(self.id)
        for k in kf: print(f'KNOWN-FINDING: property={self.id} {k}')
        self.always_search = getattr(self, 'always_search', False)
        code = 0
        novac = [r['unit'] for r in results if not r['error'] and not r.get('obligs')]
        if novac: errs.append((','.join(novac), 'vacuous: no obligation generated'))
        if bad or errs:
            code = self.report(bad, errs, ev)
        elif self.always_search:
            # functions out of the verifier's reach: a bounded concrete search of the real code, never counted as proved
            try: found, text = self.search([], TIER)
            except ToolError as ex: found, text = True, 'the bounded check could not be built: ' + str(ex)[-1500:]
            ev['coverage']['bounded_stand_ins'] = dict(functions=self.always_search, bound=self.bound_text, violation=bool(found)); print(f'[{self.id}] bounded stand-in for {self.always_search}: ' + ('violation' if found else 'nothing found'))
            if found:
                rd = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, f'{self.id}.txt'); open(rp, 'w').write(f'property {self.id}\nfailing input found on the real code:\n{text}\n'); print(text[:1500]); ev['violations'] = 1; code = 1
                print(f'VIOLATION property={self.id} replay={rp}')
        ev['wall_s'] = round(time.time() - t0, 2)
        json.dump(ev, open(evp, 'w'), indent=1)
        print(f'[{self.id}] {nd}/{n} obligations discharged, {len(verified)} functions under contract, {ev["wall_s"]}s')
        sys.exit(code)
    def report(self, bad, errs, ev):
        for o in bad[:12]:
            print(f"[{self.id}] NOT DISCHARGED ({o['status']}): {o['kind']}: {o['desc']}\n    in {o['fn']} at {o['loc']}" + (f"\n    model: {json.dumps(o['model'])[:600]}" if o.get('model') else ''))
        for u, e in errs: print(f'[{self.id}] unit {u}: {e}')
        found, text = False, ''
        try: found, text = self.search(bad, TIER)
        except ToolError as ex: text = 'replay could not be built: ' + str(ex)[-1500:]
        except subprocess.TimeoutExpired as ex: text = f'replay timed out: {ex}'
        rd = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f'{self.id}.txt')
        with open(rp, 'w') as fh:
            fh.write(f'property {self.id}\n')
            fh.write('failing input found on the real code:\n' + text + '\n' if found else 'no failing input found; replay output:\n' + text + '\n')
            fh.write('\nobligations not discharged:\n')
            for o in bad: fh.write(json.dumps({k: v for k, v in o.items() if k != 'smt'}) + '\n')
            for u, e in errs: fh.write(f'unit {u}: undecided: {e}\n')
        if found: print(text[:1500])
        ev['violations'] = 1
        print(f'VIOLATION property={self.id} replay={rp}' + ('' if found else ' no-failing-input-found'))
        return 1

def std_engine(js, **k):
    mod = Module(js)
    def mk():
        E = Engine(mod, **k); stdlib.setup_basic(E); stdlib.setup_string(E)
        return E
    return mk
def run_search(prog, args=(), timeout=120, ok_text=''):
    """replay programs print 'FAIL ...' lines and exit 1 when the real code violates the property"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', VERIF_SEED=str(SEED))
    try:
        r = subprocess.run([prog] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=scratch(), errors='replace', text=True)
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b''
        if isinstance(o, bytes): o = o.decode(errors='replace')
        return True, f'HANG: {prog} did not finish in {timeout}s (the same program finishes in seconds on the unchanged tree)\n' + o[-2000:]
    if r.returncode == 0: return False, r.stdout[-1500:]
    return True, f'exit code {r.returncode}\n' + (r.stdout if len(r.stdout) < 4000 else r.stdout[:2000] + '\n...\n' + r.stdout[-2000:])

def search_prog(srcs, name, args=(), extra=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), timeout=300, libs=('-lglog', '-lgflags', '-lpthread')):
    """the concrete search used to replay a failed obligation: a harness program over the real sources, with an oracle of its own"""
    def search(self, failed, tier):
        prog = build_replay([VERIF + '/harness/' + name + '.cpp'] + [SRC + s for s in srcs] + [VERIF + '/shim/folly_shim.cpp'], name, extra, libs)
        return run_search(prog, [str(a) for a in (args(tier) if callable(args) else args)], timeout=timeout)
    return search
