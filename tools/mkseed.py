"""mkseed.py SPEC.py : makes /verif/seeded/<id>/ from a spec; verifies it on /repo (applied, built, tested, undone)."""
import sys, os, subprocess, json, shutil
SPEC = {}
exec(open(sys.argv[1]).read(), SPEC)
S = SPEC['SEEDS']; only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
fixed = set()
for id, s in S.items():
    if only and id not in only: continue
    d = '/verif/seeded/' + id
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty'
    try:
        f = '/repo/src/' + s['file']; t = open(f).read()
        for a, b in s['edits']:
            assert t.count(a) == 1, (id, t.count(a), a)
            t = t.replace(a, b)
        open(f, 'w').write(t)
        patch = sh('git -C /repo diff').stdout
        # changed lines must be original ones
        bl = sh('git -C /repo blame HEAD -s -- src/' + s['file']).stdout.split('\n')
        base = sh('git -C /repo rev-parse --short 4052618').stdout.strip()
        import re
        cur = 0; bad = []
        for l in patch.split('\n'):
            m = re.match(r'@@ -(\d+)', l)
            if m: cur = int(m.group(1)); continue
            if l.startswith('---') or l.startswith('+++'): continue
            if l.startswith('-'):
                if not (bl[cur-1].lstrip('^').startswith(base[:7])): bad.append(l)
                cur += 1
            elif l.startswith(' '): cur += 1
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository
set -e
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -fpermissive -O1 %s -I src "$H/demo.cpp" -o "$T/demo"
timeout 100 "$T/demo"
''' % s.get('flags', '-g -fsanitize=address,undefined -fno-sanitize-recover=all'))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh'); te = sh('bash /opt/vp/test.sh /tmp/seed_out.json'); r = json.load(open('/tmp/seed_out.json'))
        dm = sh('bash %s/demo.sh' % d, cwd='/repo')
        ck = None
        if not s.get('nocheck'):
            ck = sh('timeout 880 python3 check.py %s --tier quick' % s['prop'], cwd='/verif')
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    dm0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    need = set(json.load(open('/opt/vp/BASELINE.json')).get('passing', [])) if False else None
    print('%-22s build=%d tests=%d/%d demo_clean=%d demo_bug=%d check=%s %s %s' % (id, b.returncode, len(r['passed']), len(r['failed']), dm0.returncode, dm.returncode, ck.returncode if ck else '-', 'NOT-ORIGINAL-LINES %s' % bad if bad else '', (ck.stdout.split('\n')[:2] + [ck.stdout.strip().split('\n')[-1]]) if ck else ''), flush=True)
    if dm0.returncode: print(dm0.stdout[-300:], dm0.stderr[-600:])
