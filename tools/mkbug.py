#!/usr/bin/env python3
"""mkbug.py SPEC.py : plant the bugs of a spec file in a scratch copy, confirm each (builds, stable tests pass, demo passes on the
original and fails with the change), store it under seeded/, and report which checks catch it.
A spec file defines BUGS = [dict(id, property, file, edits=[(old,new),...], needs, breaks, demo)]"""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '''#!/bin/bash
# runs in the repository's root; exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"; w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -w -O1 -Isource -I"$d" "$d/demo.cpp" -o "$w/demo" -lpthread || exit 3
cd "$w" && timeout 100 ./demo
'''
def tests(wt):
    """build the parser tests of the scratch copy the way /opt/vp does, and run them"""
    out = {}
    for t in ('mnist', 'cifar', 'csv', 'json', 'type_checker'):
        src = '%s/tests/parser/test_%s.cpp' % (wt, t)
        if not os.path.exists(src): continue
        exe = '%s/_t_%s' % (wt, t)
        p = sh('g++ -std=c++17 -w -I%s/source -I%s/tests -I%s %s -o %s -lpthread %s' % (wt, wt, wt, src, exe, ''))
        if p.returncode: return False, p.stderr[-1500:]
    return True, ''
def main():
    spec = {}; exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:] 
    for b in spec['BUGS']:
        if only and b['id'] not in only: continue
        wt = tempfile.mkdtemp(prefix='bug_')
        repo = wt + '/repo'
        sh('cp -a /repo %s' % repo)
        ok = True; msg = ''
        for e in b['edits']:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: ok = False; msg = 'text not found: ' + old; break
            open(p, 'w').write(s.replace(old, new, 1))
        if ok:
            diff = sh('git -C %s diff' % repo).stdout
            d = os.path.join(HERE, 'seeded', b['id'])
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.cpp', 'w').write(b['demo'])
            if b.get("stub"): shutil.copytree(HERE + "/stubs", d, dirs_exist_ok=True)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            p0 = sh('bash %s/demo.sh' % d, cwd='/repo'); p1 = sh('bash %s/demo.sh' % d, cwd=repo)
            if p0.returncode != 0: ok = False; msg = 'demo fails on the original: %s %s' % (p0.stdout[-300:], p0.stderr[-800:])
            elif p1.returncode in (0, 3): ok = False; msg = 'demo does not fail with the change (%d) %s' % (p1.returncode, p1.stderr[-800:])
            if ok and not os.environ.get('NOTEST'):
                sh('git -C /repo apply %s/patch.diff' % d)
                try:
                    pb = sh('bash /opt/vp/build.sh'); pt = sh('bash /opt/vp/test.sh %s/o.json' % wt)
                    res = json.load(open(wt + '/o.json')) if os.path.exists(wt + '/o.json') else {}
                    if pb.returncode or len(res.get('passed', [])) < 30: ok = False; msg = 'build/tests: %s %s' % (pb.stdout[-500:], pt.stdout[-500:])
                finally: sh('git -C /repo checkout -- .')
            if not ok: shutil.rmtree(d)
        if not ok: print('%-26s REJECTED %s' % (b['id'], msg)); shutil.rmtree(wt); continue
        r = []
        for pid in b.get('checks', [b['property']]):
            p = subprocess.run(['python3', 'check.py', pid, 'quick'], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1'))
            ls = [l for l in p.stdout.split('\n') if l.startswith(('FAILED', 'FAILING', 'VIOLATION', 'tool-error', 'unsupported', 'ERROR'))]
            r.append('%s rc=%d\n      %s' % (pid, p.returncode, '\n      '.join(x[:230] for x in ls[:7])))
        print('%-26s %s' % (b['id'], '\n   '.join(r))); sys.stdout.flush()
        shutil.rmtree(wt)
main()
