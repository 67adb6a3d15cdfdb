#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decide one property on /repo's current working tree.

1. deductive verification: clang's AST of /repo's headers, the contracts of the property, every obligation to z3/cvc5
2. replay: the concrete harness of the property runs against the real code (failing inputs for violations; bounded stand-in
   for functions outside the verifier's reach; validation of the assumed library contracts)
"""
import os, sys
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('CPPV_REEXEC') != '1' and os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != '/opt/veriftools/pyvenv' and os.path.exists(PY) and os.environ.get('CPPV_REEXEC') != '1':
    os.environ['CPPV_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(PY, [PY] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'cppv'), os.path.join(HERE, 'contracts'), HERE]
sys.dont_write_bytecode = True
import json, time, subprocess, tempfile, shutil, importlib, hashlib, threading, re
REPO = os.environ.get('VERIF_REPO', '/repo')

def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.jsonl')):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    except FileNotFoundError: pass
    return out

class HarnessRun:
    def __init__(self, pid, src, tier, seed, work, tsan=False):
        self.tsan = tsan
        self.pid, self.src, self.tier, self.seed, self.work = pid, src, tier, seed, work
        self.fails = []; self.cases = 0; self.distinct = 0; self.samples = []; self.error = None; self.out = ''; self.err = ''; self.t = 0
    def go(self):
        t0 = time.time()
        exe = os.path.join(self.work, ('t_' if self.tsan else 'h_') + os.path.basename(self.src)[:-4])
        base = ['g++', '-std=c++17', '-g1', '-w', '-fno-omit-frame-pointer', '-I' + os.path.join(HERE, 'stubs'), '-I' + os.path.join(HERE, 'harness'), '-I' + REPO + '/source']
        san = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS']
        if self.tsan: san = ['-O1', '-fsanitize=thread']
        self.cmd = base + san + [self.src, '-o', exe, '-lpthread']
        p = subprocess.run(self.cmd, capture_output=True, text=True)
        if p.returncode: self.error = 'the replay harness does not compile:\n' + p.stderr[-4000:]; self.t = time.time() - t0; return
        wd = os.path.join(self.work, ('trun_' if self.tsan else 'run_') + os.path.basename(self.src)[:-4]); os.makedirs(wd, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=8000:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1')
        lim = 200 if self.tier == 'quick' else 600
        try:
            p = subprocess.run([exe, self.pid, str(self.seed), self.tier], capture_output=True, cwd=wd, env=env, timeout=lim)
            out, err, rc = p.stdout.decode('latin1'), p.stderr.decode('latin1'), p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1'), 'timeout'
        self.out, self.err = out[-20000:], err[-8000:]
        for l in out.split('\n'):
            if l.startswith('FAIL '):
                m = re.match(r'FAIL test=(\S+) case=(\d+) what=(.*?) \|\| input: (.*)', l, re.S)
                self.fails.append({'test': m.group(1), 'case': int(m.group(2)), 'what': m.group(3), 'input': m.group(4)} if m else {'test': '?', 'case': 0, 'what': l, 'input': ''})
            elif l.startswith('SUMMARY '): _, a, b = l.split(); self.cases, self.distinct = int(a), int(b)
            elif l.startswith('SAMPLE '): self.samples.append(l[7:])
            elif l.startswith('NOTESTS'): self.error = 'no harness test for ' + self.pid
        if self.tsan:
            self.cases = self.distinct = 0; self.samples = []
            if 'WARNING: ThreadSanitizer: data race' in err:
                k = err.index('WARNING: ThreadSanitizer'); self.fails.append({'test': 'tsan', 'case': -1, 'what': 'data race reported by ThreadSanitizer while the harness ran', 'input': err[k:k + 600].replace('\n', ' ')})
            elif rc not in (0, 1): self.error = 'thread sanitizer run unavailable (%s): %s' % (rc, err[:200])
        elif rc not in (0, 1):
            m = re.search(r'(CRASH|HANG) test=(\S+) case=(\d+) input: (.*)', err)
            if m: self.fails.append({'test': m.group(2), 'case': int(m.group(3)), 'what': ('undefined behaviour or abort: ' if m.group(1) == 'CRASH' else 'does not terminate: ') + first_report(err), 'input': m.group(4)})
            elif rc == 'timeout':
                self.error = 'harness time limit'
            else: self.fails.append({'test': '?', 'case': -1, 'what': 'harness process ended with %s: %s' % (rc, first_report(err)), 'input': ''})
        self.t = time.time() - t0

def first_report(err):
    for l in err.split('\n'):
        if 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'Assertion' in l or 'terminate called' in l: return l.strip()[:300]
    return err.strip().split('\n')[0][:200]

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import registry
    spec = registry.PROPS[pid]
    work = tempfile.mkdtemp(prefix='cppv_%s_' % pid)
    try: rc = run(pid, tier, seed, spec, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, spec, work, t0):
    hs = [HarnessRun(pid, os.path.join(HERE, 'harness', s + '.cpp'), tier, seed, work) for s in spec.get('harness', [])] + [HarnessRun(pid, os.path.join(HERE, 'harness', s + '.cpp'), tier, seed, work, tsan=True) for s in spec.get('tsan', [])]
    ths = [threading.Thread(target=h.go) for h in hs]
    for t in ths: t.start()
    from contract import AST, run_all
    import terms as T
    if tier == 'thorough': T.OPT['timeout'] = 30000
    results = []; tool_errors = []
    for mod, tu, fn in spec['contracts'] + (spec.get('thorough', []) if tier == 'thorough' else []):
        try:
            m = importlib.import_module(mod)
            ast = AST(os.path.join(HERE, 'tu', tu + '.cpp'))
            cs = getattr(m, fn)()
            rs = run_all(ast, cs, tmo=(150 if tier == 'quick' else 400))
            for r, c in zip(rs, cs): r.contract = c
            results += [(r, tu) for r in rs]
        except Exception as e:
            tool_errors.append('%s: %r' % (tu, e))
    for t in ths: t.join()
    # a contract that failed without a failing input is tried again, alone and with longer solver limits, before it is reported
    if not any(h.fails for h in hs):
        T.OPT['timeout'] = T.OPT['timeout'] * 3; T.OPT['inv_timeout'] = 15000; T.OPT['ent_timeout'] = 4500
        for i, (r, tu) in enumerate(results):
            if r.status != 'proved' and (r.status == 'failed' or 'time limit' in r.note or 'no loop invariant' in r.note) and time.time() - t0 < 400 and r.contract is not None:
                ast = AST(os.path.join(HERE, 'tu', tu + '.cpp'))
                r2 = run_all(ast, [r.contract], tmo=150)[0]; r2.contract = r.contract
                if r2.status == 'proved' or r.status != 'failed': results[i] = (r2, tu); r2.note += ' (second attempt, longer solver limits)'
    proved = [r for r, _ in results if r.status == 'proved']
    failed = [r for r, _ in results if r.status == 'failed']
    outside = [r for r, _ in results if r.status not in ('proved', 'failed')]
    obls = sum(len(r.obls) for r, _ in results); dis = sum(1 for r, _ in results for o in r.obls if o[2] == 'proved')
    backends = {}
    for r, _ in results:
        for o in r.obls:
            if o[2] == 'proved': backends[str(o[3])] = backends.get(str(o[3]), 0) + 1
    fails = [dict(f, harness=h.src) for h in hs for f in h.fails]
    kf = known_findings(pid)
    def is_known(text): return next((k for k in kf if k['match'] in text), None)
    hit = {}; newfails = []
    for f in fails:
        k = is_known('%s %s %s' % (f['test'], f['what'], f['input']))
        if k: hit[k['id']] = k
        else: newfails.append(f)
    failed_obls = []
    for r in failed:
        for o in r.obls:
            if o[2] != 'proved':
                k = is_known('obligation ' + o[0])
                if k: hit[k['id']] = k
                else: failed_obls.append((r, o))
    for k in kf:
        if k.get('always', True) or k['id'] in hit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viol = bool(newfails or failed_obls)
    # report
    for r, tu in results:
        print('%-10s %-60s %3d obligations %5.1fs %s' % (r.status, r.name, len(r.obls), r.time, r.note))
    for e in tool_errors: print('tool-error ' + e)
    for h in hs: print('replay     %-60s %d cases (%d distinct) %.1fs %s' % (os.path.basename(h.src), h.cases, h.distinct, h.t, (h.error or '')[:3000]))
    if newfails or failed_obls:
        rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({'property': pid, 'failed_obligations': [{'obligation': o[0], 'kind': o[1], 'result': o[2], 'contract': r.name, 'function': r.fn, 'counterexample': o[3]} for r, o in failed_obls],
                   'failing_inputs': [dict(f, replay_cmd='compile %s as in compile_cmd, run: <exe> %s %d %s %s %d' % (os.path.basename(f['harness']), pid, seed, tier, f['test'], f['case'])) for f in newfails],
                   'compile_cmd': [' '.join(h.cmd) for h in hs if hasattr(h, 'cmd')], 'stderr': [h.err[-3000:] for h in hs if h.err]}, open(rp, 'w'), indent=1)
        for r, o in failed_obls: print('FAILED OBLIGATION %s [%s] %s' % (o[0], o[2], (str(o[3]) if o[3] else '')[:400]))
        for f in newfails: print('FAILING INPUT %s case %d: %s || %s' % (f['test'], f['case'], f['what'], f['input'][:600]))
    # evidence
    incomplete = bool(outside or tool_errors)
    lvl = spec.get('level', 'proof')
    cases = sum(h.cases for h in hs); dist = sum(h.distinct for h in hs)
    trusted = sorted({x for r, _ in results for x in r.std})
    notes = sorted({x for r, _ in results for x in r.notes})
    cov = {
        'obligations': obls, 'discharged': dis,
        'checker_cmd': 'python3 /verif/check.py %s %s' % (pid, tier),
        'trusted_base': ['clang 18 AST', 'cppv verification condition generator (/verif/cppv)', 'z3 5.3 / cvc5 1.1.2'] + ['assumed contract: ' + x for x in trusted],
        'backends': backends,
        'functions_under_contract': [{'contract': r.name, 'function': r.fn, 'status': r.status, 'obligations': len(r.obls), 'time_s': round(r.time, 2), 'solver_s': round(r.solver, 2), 'loops_with_inferred_invariants': r.loops, 'note': r.note} for r, _ in results],
        'bodies_verified_inline': sorted({x for r, _ in results for x in r.inlined}),
        'calls_replaced_by_contract': sorted({x for r, _ in results for x in r.contracted}),
        'outside_the_verifier_this_run (bounded stand-in only)': [{'contract': r.name, 'why': r.status + ': ' + r.note} for r in outside] + tool_errors,
        'bounded_only': spec.get('bounded', []),
        'replay_harness': {'kind': 'bounded: generated inputs against an independent oracle, not counted as proof', 'evaluations': cases, 'distinct': dist, 'errors': [h.error for h in hs if h.error]},
        'evaluations': cases, 'distinct_nontrivial': dist, 'rule': 'replay inputs: seeded generator per test, distinct by the text of the generated input',
        'samples': [s for h in hs for s in h.samples][:8] or [r.name for r, _ in results][:5],
        'solver_s': round(sum(r.solver for r, _ in results), 2),
        'explanation': spec.get('explain', ''),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + notes + registry_assumptions(), 'wall_s': round(time.time() - t0, 2), 'violations': len(newfails) + len(failed_obls)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d contracts proved, %d outside, %d replay cases, %.1fs' % (pid, dis, obls, len(proved), len(outside), cases, time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.join(HERE, 'evidence', 'replay_%s.json' % pid), '' if newfails else ' no-failing-input-found'))
        return 1
    if hs and all(h.error for h in hs) and incomplete:
        print('ERROR: neither the verifier nor the harness could process the tree'); return 2
    return 0

def registry_assumptions():
    import registry
    return registry.ASSUMPTIONS

if __name__ == '__main__': main()
