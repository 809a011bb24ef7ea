#!/usr/bin/env python3
"""Build and validate planted bugs.

usage: mkseed.py DEFS.py [ID...]     DEFS.py defines SEEDS = [dict(id,prop,edits,pkg,demo,needs,breaks)]
Each seed: applied in a scratch copy of /repo, built, the stable tests run, the
demonstration run with and without the change; only then written to seeded/<id>/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Run in /repo. Exit 0 when the behaviour is right, nonzero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<JSON
{"Replace": {"$PWD/@PKG@/zz_demo_test.go": "$here/demo_test.go"}}
JSON
timeout 200 go test @FLAGS@-overlay "$tmp/overlay.json" ./@PKG@ -run 'TestSeedDemo' -count=1 -timeout 180s
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, executable='/bin/bash', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in ns['SEEDS']:
        if want and s['id'] not in want: continue
        wt = tempfile.mkdtemp(prefix='seed_')
        try:
            sh(f'cp -a /repo/. {wt}/')
            dd = os.path.join(V, 'seeded', s['id'])
            demo = tempfile.mkdtemp(prefix='demo_')
            open(demo+'/demo_test.go','w').write(s['demo'])
            flags = s.get('flags','')
            open(demo+'/demo.sh','w').write(DEMO_SH.replace('@PKG@', s['pkg']).replace('@FLAGS@', flags+' ' if flags else ''))
            os.chmod(demo+'/demo.sh', 0o755)
            r = sh(f'{demo}/demo.sh', cwd=wt)
            if r.returncode != 0:
                print(s['id'], 'FAIL: demo fails on clean tree\n', r.stdout[-3000:]); continue
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(wt, f); t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'edit not unique', f, t.count(old)); ok = False; break
                open(p,'w').write(t.replace(old, new))
            if not ok: continue
            sh('. /opt/vp/env.sh; gofmt -w ' + ' '.join(sorted({e[0] for e in s['edits']})), cwd=wt)
            r = sh('. /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3', cwd=wt)
            if r.returncode != 0: print(s['id'], 'BUILD FAIL', r.stdout); continue
            r = sh('. /opt/vp/env.sh; go test ./... -count=1 -v 2>&1 | grep -E "^(---|\\s+---|FAIL|ok|panic)"', cwd=wt)
            fails = [l for l in r.stdout.splitlines() if 'FAIL' in l or 'panic' in l]
            npass = r.stdout.count('--- PASS')
            if fails: print(s['id'], 'TESTS CATCH IT', fails[:5]); continue
            r = sh(f'{demo}/demo.sh', cwd=wt)
            if r.returncode == 0: print(s['id'], 'FAIL: demo passes on the changed tree'); continue
            d = sh('git diff', cwd=wt).stdout
            shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
            open(dd+'/patch.diff','w').write(d)
            shutil.copy(demo+'/demo.sh', dd); shutil.copy(demo+'/demo_test.go', dd)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(dd+'/meta.json','w'), indent=1)
            msg = [l for l in r.stdout.splitlines() if l.strip()][:3]
            print(s['id'], 'OK', npass, 'passes; demo:', ' | '.join(msg)[:300])
        finally:
            shutil.rmtree(wt, ignore_errors=True)
            if 'demo' in dir(): shutil.rmtree(demo, ignore_errors=True)
main()
