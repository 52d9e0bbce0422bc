#!/usr/bin/env python3
"""Decide one property:  python3 check.py <ID> [--tier quick|thorough] [--only NAME] [-v]

Every obligation of the property is a C++ harness over the real headers of
/repo (read from the working tree on every run), lowered by clang to LLVM IR
and decided by a solver (CBMC/SAT or symx/z3).  Counterexamples are replayed
natively before anything is reported.
"""
import sys, os, json, time, subprocess, tempfile, shutil, struct, hashlib, threading, re, resource, signal
ROOT = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.join(ROOT, 'lib')
sys.path.insert(0, ROOT); sys.path.insert(0, LIB)
REPO = os.environ.get('VF_REPO', '/repo')
import ir2c
from obligations import OBLIGATIONS

CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
PYVT = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PYVT): PYVT = shutil.which('python3-vt') or sys.executable
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BASEFLAGS = ['-std=c++17', '-fpermissive', '-w', '-fno-access-control', '-ffp-contract=off', '-I' + LIB, '-I' + REPO + '/src', '-I' + os.path.join(ROOT, 'harness')]
IRFLAGS = ['-O0', '-fno-exceptions', '-fno-threadsafe-statics', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm']
NCPU = 8
lock = threading.Lock()
CHILD = set(); ABORT = []

def run(cmd, timeout=None, env=None, cwd=None, mem=None):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre)
    CHILD.add(p)
    try:
        o, er = p.communicate(timeout=timeout)
        CHILD.discard(p)
        return p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate(); CHILD.discard(p)
        return None, '', 'timeout'

class Result:
    def __init__(s, ob):
        s.ob = ob; s.status = None; s.detail = ''; s.stats = {}; s.functions = []; s.viol = []; s.validated = 0; s.mismatch = 0
        s.samples = []; s.wall = 0; s.reached = []; s.queries = 0; s.solver_s = 0.0; s.states = 0; s.trans = 0; s.vccs = 0; s.unwind = None

def defs(ob): return ['-D%s=%s' % (k, v) for k, v in ob.get('defs', {}).items()]

def build_ir(ob, d):
    ll = os.path.join(d, 'h.ll')
    rc, o, e = run([CLANG] + BASEFLAGS + IRFLAGS + defs(ob) + [os.path.join(ROOT, 'harness', ob['harness']), '-o', ll], timeout=120)
    return (ll if rc == 0 else None), e

NATIVE = {
    'asan': ['-O0', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,alignment,function', '-fno-sanitize-recover=all'],
    'msan': ['-O0', '-g', '-fsanitize=memory', '-fno-sanitize-recover=all'],
    'opt': ['-O2'],
}
def build_native(ob, d, kind, flags=None):
    exe = os.path.join(d, 'native_' + kind)
    if os.path.exists(exe): return exe, ''
    rc, o, e = run([CLANG] + BASEFLAGS + (flags or NATIVE[kind]) + defs(ob) + [os.path.join(ROOT, 'harness', ob['harness']), os.path.join(LIB, 'vf_native.cpp'), '-o', exe], timeout=180)
    return (exe if rc == 0 else None), e

def run_native(exe, inp=None, rnd=None, timeout=20):
    env = {'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=98', 'MSAN_OPTIONS': 'exitcode=97'}
    if inp: env['VF_INPUT'] = inp
    if rnd is not None: env['VF_RANDOM'] = str(rnd)
    return run([exe], timeout=timeout, env=env)

def failing(rc, out, err):
    """native outcome -> description of the failure or None"""
    if rc is None: return 'the program does not terminate'
    if rc == 77 or rc == 0 or rc == 3: return None
    m = re.search(r'VF:FAIL (.*)', out)
    if m: return 'check failed: ' + m.group(1)
    if rc == 99 or 'AddressSanitizer' in err:
        m = re.search(r'ERROR: AddressSanitizer: (.*)', err); return 'AddressSanitizer: ' + (m.group(1)[:120] if m else '')
    if rc == 97 or 'MemorySanitizer' in err: return 'MemorySanitizer: use of uninitialised value'
    if 'runtime error' in err:
        m = re.search(r'([^\s/]+:\d+:\d+: runtime error: .*)', err); return 'UBSan: ' + (m.group(1)[:160] if m else '')
    if rc < 0: 
        m = re.search(r'Assertion `(.*)\' failed', err)
        return 'signal %d %s' % (-rc, ('assertion ' + m.group(1)) if m else '')
    return 'exit status %d' % rc

def write_input(path, words):
    with open(path, 'wb') as f:
        for w in words: f.write(struct.pack('<Q', w & (2**64-1)))

def replay(ob, d, words, kind=''):
    """(kind of build, description) if the counterexample fails natively"""
    inp = os.path.join(d, 'cex_%s.bin' % hashlib.md5(repr(words).encode()).hexdigest()[:10])
    write_input(inp, words)
    order = ['msan', 'asan', 'opt'] if kind == 'uninit' else ['asan', 'msan', 'opt']
    for k in order:
        if k == 'msan' and kind not in ('uninit', 'check', ''): continue
        exe, e = build_native(ob, d, k)
        if not exe: continue
        rc, o, er = run_native(exe, inp)
        f = failing(rc, o, er)
        if f: return k, f, inp
    return None

def save_replay(prop, ob, rep, words, msg):
    k, f, inp = rep
    out = os.path.join(ROOT, 'evidence', 'replays', prop, ob['name']); os.makedirs(out, exist_ok=True)
    shutil.copy(inp, os.path.join(out, 'input.bin'))
    with open(os.path.join(out, 'replay.sh'), 'w') as fh:
        fh.write('''#!/bin/bash
# counterexample for property %s, obligation %s
# solver: %s
# native: %s
# inputs (one 64-bit word per nondet call): %s
set -e
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s %s %s %s %s -o $T/a.out
VF_INPUT=%s/input.bin ASAN_OPTIONS=detect_leaks=0 $T/a.out
''' % (prop, ob['name'], msg, f, words[:64], CLANG, ' '.join(BASEFLAGS + NATIVE[k] + defs(ob)), os.path.join(ROOT, 'harness', ob['harness']), os.path.join(LIB, 'vf_native.cpp'), '', out))
    os.chmod(os.path.join(out, 'replay.sh'), 0o755)
    return os.path.join(out, 'replay.sh')

# ------------------------------------------------------------------ CBMC
def cbmc_cmd(ob, c, unwind, extra, gen):
    cmd = ['cbmc', c, '-I' + LIB, '-DVF_CBMC', '--unwind', str(unwind), '--unwinding-assertions', '--no-malloc-may-fail', '--json-ui', '--verbosity', '8', '--object-bits', '14', '--sat-solver', ob.get('sat', 'cadical'),
           '--max-field-sensitivity-array-size', str(ob.get('fsize', 64))]
    us = []
    for pat, n in ob.get('unwindset', {}).items():
        for fn in gen.encoded:
            if re.search(pat, DEM.get(fn, fn)):
                us.append('%s:%d' % (gen.fname(fn), n))
                for i in range(12): us.append('%s.%d:%d' % (gen.fname(fn), i, n))
    if us: cmd += ['--unwindset', ','.join(us)]
    cmd += ob.get('cbmc', [])
    return cmd + extra
DEM = {}

def parse_json(out):
    try: return json.loads(out)
    except Exception:
        try: return json.loads(out.rstrip().rstrip(',') + ']')
        except Exception: return []

def word_of(v):
    """JSON trace value -> 64-bit word"""
    b = v.get('binary')
    if b is not None: return int(b, 2)
    d = v.get('data')
    if d in ('TRUE', 'FALSE'): return int(d == 'TRUE')
    return int(float(d)) if d is not None else 0

def do_cbmc(ob, d, res, budget):
    t0 = time.time()
    ll, e = build_ir(ob, d)
    if not ll: res.status = 'nobuild'; res.detail = e[-600:]; return
    try:
        csrc, gen = ir2c.translate(open(ll).read())
    except ir2c.Unsupported as ex:
        res.status = 'inconclusive'; res.detail = 'translator: %s' % ex; return
    c = os.path.join(d, 'h.c'); open(c, 'w').write(csrc)
    for a, b in zip(gen.encoded, ir2c.demangle(gen.encoded)): DEM[a] = b
    res.functions = sorted(DEM[x] for x in gen.encoded); res.ninstr = gen.ninstr
    # translator validation: generated C (gcc) against the real headers (clang)
    gexe = os.path.join(d, 'gen'); rc, o, e = run(['gcc', '-w', '-O1', '-fwrapv', '-ffp-contract=off', '-I' + LIB, c, '-o', gexe, '-lm'], timeout=120)
    nexe, e2 = build_native(ob, d, 'plain', ['-O0'])
    if rc != 0 or not nexe: res.status = 'nobuild'; res.detail = (e or '')[-300:] + (e2 or '')[-300:]; return
    for k in range(ob.get('validate', 12)):
        r1, o1, _ = run_native(gexe, rnd=SEED*1000 + k, timeout=10); r2, o2, _ = run_native(nexe, rnd=SEED*1000 + k, timeout=10)
        if r1 is None or r2 is None or r1 < 0 or r2 < 0: continue
        f1 = [l for l in o1.split('\n') if not l.startswith(('VF:ASSERT', 'VF:UB'))]
        if 'VF:ASSERT' in o1 or 'VF:UB' in o1: continue
        if o1 == o2 and r1 == r2: res.validated += 1
        else: res.mismatch += 1; res.detail = 'encoding disagrees with the real code on random input %d' % (SEED*1000 + k)
    if res.mismatch and not ob.get('allow_mismatch'): res.status = 'inconclusive'; return
    unwind = ob.get('unwind', 8)
    for attempt in range(3):
        left = budget - (time.time() - t0)
        if left < 5: res.status = 'inconclusive'; res.detail = 'time budget'; return
        rc, o, e = run(cbmc_cmd(ob, c, unwind, ['--slice-formula'] if not ob.get('noslice') else [], gen), timeout=left, mem=ob.get('mem', 12) << 30)
        if rc is None: res.status = 'inconclusive'; res.detail = 'cbmc: timeout after %ds' % left; return
        js = parse_json(o); props = []
        for x in js:
            if 'result' in x: props = x['result']
            mt = x.get('messageText', '')
            m = re.match(r'Runtime Solver: ([\d.e-]+)s', mt)
            if m: res.solver_s += float(m.group(1)); res.queries += 1
            m = re.match(r'size of program expression: (\d+) steps', mt)
            if m: res.states += int(m.group(1))
            m = re.match(r'(\d+) variables, (\d+) clauses', mt)
            if m: res.trans += int(m.group(2)); 
            m = re.match(r'Generated (\d+) VCC', mt)
            if m: res.vccs = int(m.group(1))
        if not props:
            res.status = 'inconclusive'; res.detail = 'cbmc gave no result (rc %s): %s' % (rc, [x.get('messageText') for x in js if x.get('messageType') == 'ERROR'][:3] or e[-200:]); return
        bad = [p for p in props if p['status'] != 'SUCCESS']
        unk = [p for p in bad if p['status'] not in ('FAILURE',)]
        fails = [p for p in bad if p['status'] == 'FAILURE']
        uw = [p for p in fails if 'unwind' in p['property'] or 'recursion' in p['property']]
        real = [p for p in fails if p not in uw]
        res.nprops = len(props); res.unwind = unwind
        if not fails:
            if unk: res.status = 'inconclusive'; res.detail = 'unknown results'; return
            break
        if real:
            real.sort(key=lambda p: (not p['description'].startswith(('VFCHECK', 'VFREPO')),))
            tried = []
            for p in real[:3]:
                left = max(30, budget - (time.time() - t0))
                rc, o, e = run(cbmc_cmd(ob, c, unwind, ['--trace', '--property', p['property']], gen), timeout=left, mem=ob.get('mem', 12) << 30)
                words = None
                for x in parse_json(o):
                    for r in x.get('result', []):
                        if r.get('trace'):
                            words = [word_of(st['values'][0]) for st in r['trace'] if st.get('stepType') == 'input']
                if words is None: continue
                rep = replay(ob, d, words, '')
                tried.append((p['description'], words[:40]))
                if rep:
                    res.viol.append(dict(msg=p['description'], words=words, rep=rep)); res.status = 'violation'; return
            res.status = 'inconclusive'; res.detail = 'counterexample not confirmed natively: %s' % tried[:2]; return
        # only unwinding assertions: try a deeper bound, and look for a hang
        if attempt < 2: unwind *= 2; res.detail = 'unwind raised to %d' % unwind; continue
        p = uw[0]
        rc, o, e = run(cbmc_cmd(ob, c, unwind, ['--trace', '--property', p['property']], gen), timeout=max(30, budget - (time.time() - t0)))
        for x in parse_json(o):
            for r in x.get('result', []):
                if r.get('trace'):
                    words = [word_of(st['values'][0]) for st in r['trace'] if st.get('stepType') == 'input']
                    rep = replay(ob, d, words, 'x')
                    if rep: res.viol.append(dict(msg='loop bound exceeded', words=words, rep=rep)); res.status = 'violation'; return
        res.status = 'inconclusive'; res.detail = 'loop bound %d exceeded: %s' % (unwind, p['description']); return
    # vacuity witness
    left = max(20, budget - (time.time() - t0))
    need = ob.get('reach') or ['end']
    cw = os.path.join(d, 'w.c'); open(cw, 'w').write(re.sub(r'VF_REACH\("([^"]*)"\)', lambda m: m.group(0) if m.group(1) in need else '((void)0)', csrc))
    rc, o, e = run(cbmc_cmd(ob, cw, unwind, ['-DVF_WITNESS', '--slice-formula'], gen), timeout=left, mem=ob.get('mem', 12) << 30)
    got = {}
    for x in parse_json(o):
        for p in x.get('result', []):
            if p['description'].startswith('VFWITNESS'):
                n = p['description'][10:]; got[n] = got.get(n) or p['status'] == 'FAILURE'
        m = re.match(r'Runtime Solver: ([\d.e-]+)s', x.get('messageText', ''))
        if m: res.solver_s += float(m.group(1)); res.queries += 1
    res.reached = sorted(k for k, v in got.items() if v)
    miss = [k for k in need if not got.get(k)]
    if miss or not res.reached: res.status = 'inconclusive'; res.detail = 'vacuity: not reached %s' % (miss or 'end'); return
    res.status = 'ok'

# ------------------------------------------------------------------ symx
SYMX_DRIVER = r'''
import sys, json, time
sys.path.insert(0, sys.argv[1])
import symx
cfg = json.loads(sys.argv[3])
out = {}
try:
    e = symx.Engine(open(sys.argv[2]).read(), sample=cfg['sample'], deadline=time.time() + cfg['budget'], solver_ms=cfg['solver_ms'], lazy_mul=cfg['lazy_mul'], max_steps=cfg['max_steps'], unit_grid=cfg['unit_grid'], real=cfg['real'], som=cfg['som'])
    e.explore(procs=cfg['procs'], stop_on_violation=not cfg['all'])
    out = dict(stats=e.stats, violations=e.violations[:60], samples=e.samples[:40], inc=e.inconclusive[:5], ninc=len(e.inconclusive), reached=sorted(e.reached), encoded=e.encoded, ninstr=e.ninstr)
except symx.Unsupported as u:
    out = dict(error='unsupported: %s' % u)
print('SYMX' + json.dumps(out))
'''
def run_symx(ob, ll, budget, allv=False):
    cfg = dict(sample=ob.get('sample', 7), budget=budget, solver_ms=ob.get('solver_ms', 20000), procs=ob.get('procs', 1), all=allv, lazy_mul=bool(ob.get('lazy_mul')), max_steps=ob.get('max_steps', 2000000), unit_grid=ob.get('unit_grid', 20), real=bool(ob.get('real')), som=bool(ob.get('som')))
    rc, o, e = run([PYVT, '-c', SYMX_DRIVER, LIB, ll, json.dumps(cfg)], timeout=budget + 60)
    m = re.search(r'^SYMX(.*)$', o, re.M)
    if not m: return dict(error='symx failed: %s %s' % (rc, e[-400:]))
    return json.loads(m.group(1))

def do_symx(ob, d, res, budget):
    t0 = time.time()
    ll, e = build_ir(ob, d)
    if not ll: res.status = 'nobuild'; res.detail = e[-600:]; return
    j = run_symx(ob, ll, budget)
    if 'error' in j: res.status = 'inconclusive'; res.detail = j['error']; return
    def account(j):
        s = j['stats']; res.queries += s['queries']; res.solver_s += s['solver_s']; res.states += s['paths'] + s['killed'] + s['forks'] + s['concretised']; res.trans += s['steps']
        res.vccs += s['checks']
    account(j); res.stats = j['stats']
    res.functions = sorted(ir2c.demangle(j['encoded'])); res.ninstr = j['ninstr']; res.reached = j['reached']
    if j['violations']:
        for allv in (False, True):
            if allv:
                left = budget - (time.time() - t0)
                if left < 10: break
                j = run_symx(ob, ll, min(left, 240), True)
                if 'error' in j: break
                account(j)
            for v in j['violations'][:60]:
                rep = replay(ob, d, v['inputs'], v['kind'])
                if rep:
                    res.viol.append(dict(msg='%s: %s' % (v['kind'], v['msg']), words=v['inputs'], rep=rep)); res.status = 'violation'; return
        res.status = 'inconclusive'; v = j['violations'][0] if j.get('violations') else {}
        res.detail = 'counterexample not confirmed natively: %s %s' % (v.get('msg'), v.get('inputs')); return
    if j['ninc']: res.status = 'inconclusive'; res.detail = '%d undecided: %s' % (j['ninc'], j['inc'][:2]); return
    # validation: sampled paths against the real code
    nexe, e2 = build_native(ob, d, 'plain', ['-O0'])
    if nexe:
        for k, smp in enumerate(j['samples']):
            inp = os.path.join(d, 's.bin'); write_input(inp, smp['inputs'])
            rc, o, er = run_native(nexe, inp, timeout=10)
            got = [float(x.split()[1]) for x in o.split('\n') if x.startswith('VF:obs')]
            exp = smp['obs']
            ok = rc == 0 and len(got) == len(exp) and all(b is None or a == b or abs(a - b) <= 1e-9*max(1, abs(b)) for a, b in zip(got, exp))
            if ok: res.validated += 1
            elif not smp['approx']: res.mismatch += 1; res.detail = 'symbolic path disagrees with the real code: %s -> %s vs %s' % (smp['inputs'], got, exp)
            if len(res.samples) < 2: res.samples.append(dict(inputs=smp['inputs'][:24], obs=exp[:12]))
    if res.mismatch: res.status = 'inconclusive'; return
    if j['stats']['paths'] == 0: res.status = 'inconclusive'; res.detail = 'vacuous: no complete path'; return
    miss = [r for r in ob.get('reach', []) if r not in j['reached']]
    if miss: res.status = 'inconclusive'; res.detail = 'vacuity: not reached %s' % miss; return
    res.status = 'ok'

def do(ob, budget):
    res = Result(ob); d = tempfile.mkdtemp(prefix='vf_'); t = time.time()
    try:
        (do_cbmc if ob['engine'] == 'cbmc' else do_symx)(ob, d, res, min(budget, ob.get('timeout', 300)))
        for v in res.viol: v['path'] = save_replay(ob['prop'], ob, v['rep'], v['words'], v['msg'])
    except Exception as ex:
        import traceback; res.status = 'inconclusive'; res.detail = 'internal: %r %s' % (ex, traceback.format_exc()[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res.wall = time.time() - t
    return res

def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('property') == prop and j.get('status') == 'open': out.append(j)
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--total', type=float)
    a = ap.parse_args(); t0 = time.time()
    obs = [o for o in OBLIGATIONS if o['prop'] == a.prop and (o.get('tier', 'quick') == 'quick' or a.tier == 'thorough')]
    if a.only: obs = [o for o in obs if re.search(a.only, o['name'])]
    if not obs: print('no obligations for', a.prop); sys.exit(2)
    total = a.total or (780 if a.tier == 'quick' else 6000)
    # an obligation flagged "known" demonstrates an open finding; the finding's own input class is excluded from the others
    results = []; slots = threading.Semaphore(NCPU); stop = []
    obs.sort(key=lambda o: -o.get('cost', 10))
    free = [NCPU]; cv = threading.Condition()
    def worker(ob):
        need = min(NCPU, ob.get('procs', 1))
        with cv:
            while free[0] < need: cv.wait()
            free[0] -= need
        try:
            left = total - (time.time() - t0)
            if left < 10 or stop:
                r = Result(ob); r.status = 'skipped'; r.detail = 'stopped' if stop else 'time budget of the run'
            else: r = do(ob, left)
            with lock:
                results.append(r)
                if a.v: print('%-14s %-44s %7.1fs q=%d v=%d %s' % (r.status, ob['name'], r.wall, r.queries, r.validated, r.detail[:300] if r.status != 'ok' else ''), flush=True)
                if r.status == 'violation' and not os.environ.get('VF_KEEP') and not [f for f in known_findings(a.prop) if f.get('obligation') == ob['name']]:
                    stop.append(1)
                    for p in list(CHILD):  # one violation decides the property
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except OSError: pass
        finally:
            with cv: free[0] += need; cv.notify_all()
    th = [threading.Thread(target=worker, args=(o,)) for o in obs]
    for x in th: x.start(); time.sleep(0.01)
    for x in th: x.join()
    kf = known_findings(a.prop); nviol = 0; lines = []
    for r in results:
        if r.status != 'violation': continue
        k = [f for f in kf if f.get('obligation') == r.ob['name']]
        if k: lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, k[0]['what']))
        else:
            nviol += 1
            for v in r.viol: lines.append('VIOLATION property=%s replay=%s\n  obligation %s: %s; native replay: %s' % (a.prop, v['path'], r.ob['name'], v['msg'], v['rep'][1]))
    decided = [r for r in results if r.status == 'ok']
    und = [r for r in results if r.status in ('inconclusive', 'nobuild', 'skipped')]
    for r in und: lines.append('INCONCLUSIVE property=%s obligation=%s %s' % (a.prop, r.ob['name'], r.detail[:200].replace('\n', ' ')))
    cov = dict(
        states=sum(r.states for r in results), transitions=sum(r.trans for r in results),
        traces_validated_against_impl=sum(r.validated for r in results),
        samples=[dict(obligation=r.ob['name'], bound=r.ob.get('bound', ''), path=r.samples[0] if r.samples else None, reached=r.reached) for r in results][:12],
        explanation='states: symbolic states created by the path-forking executor plus SSA steps of the CBMC unrollings; transitions: IR instructions executed symbolically plus SAT clauses handed to the solver; traces_validated: concrete runs in which the encoding and the natively compiled real code agreed.',
        obligations=len(results), discharged=len(decided),
        undecided=[dict(name=r.ob['name'], why=r.detail[:300]) for r in und],
        verification_conditions=sum(r.vccs for r in results),
        queries=sum(r.queries for r in results), solver_seconds=round(sum(r.solver_s for r in results), 2),
        functions_encoded=sorted({f for r in results for f in r.functions if not f.startswith(('vf_', 'nd_'))}),
        bounds=[dict(obligation=r.ob['name'], engine=r.ob['engine'], bound=r.ob.get('bound', ''), unwind=r.unwind, defs=r.ob.get('defs', {}), status=r.status, wall_s=round(r.wall, 2), queries=r.queries, solver_s=round(r.solver_s, 2), witness=r.reached) for r in sorted(results, key=lambda r: r.ob['name'])])
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking', coverage=cov,
              assumptions=sorted({x for r in results for x in r.ob.get('assume', [])}), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for l in lines: print(l)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d queries, %.1fs solver, %.1fs wall' % (a.prop, len(results), len(decided), len(und), nviol, cov['queries'], cov['solver_seconds'], time.time() - t0))
    if nviol: sys.exit(1)
    if len(decided) * 2 < len(results) - sum(1 for r in results if r.status == 'violation'): sys.exit(2)
    sys.exit(0)

if __name__ == '__main__': main()
