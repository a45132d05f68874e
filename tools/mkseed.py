#!/usr/bin/env python3
"""Makes and validates planted bugs: mkseed.py FILE.py [id...]

FILE.py defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], and demo (Go source of a main package; or 'sh' for a shell
body). A bug is written to /verif/seeded/<id> only after: it applies, builds,
passes the stable tests, and its demo passes without and fails with it.
"""
import json, os, re, shutil, subprocess, sys, runpy, tempfile
REPO = '/repo'; SEED = '/verif/seeded'; W = '/tmp/w/sb'

DEMO = '''#!/bin/bash
# Runs a small program against the packages in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/m"
cp "$here/demo.go" "$d/m/main.go"
printf 'module demo.local/m\\n\\ngo 1.20\\n' > "$d/m/go.mod"
printf 'go 1.27\\n\\nuse (\\n\\t./m\\n\\t%s/v1\\n\\t%s/v2\\n\\t%s/v3\\n)\\n' "$repo" "$repo" "$repo" > "$d/go.work"
cd "$d/m" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK="$d/go.work"
go build -buildvcs=false RACE -o "$d/demo" . || exit 3
RUN
'''

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests'):
        if isinstance(b.get(k), list):
            return set(b[k])
    raise SystemExit('baseline format ' + str(list(b)))

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    for b in bugs:
        if want and b['id'] not in want:
            continue
        try:
            print(b['id'], make(b), flush=True)
        except Exception as e:
            print(b['id'], 'FAILED', e, flush=True)
        finally:
            sh('git checkout -- . && git status --short', REPO)

def make(b):
    rc, o = sh('git status --short', REPO)
    assert o == '', 'repo dirty ' + o
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        if 'sh' in b:
            open(d + '/demo.sh', 'w').write(b['sh'])
        else:
            s = DEMO.replace('go build', ('CGO_ENABLED=0 GOARCH=%s ' % b['goarch'] if b.get('goarch') else '') + 'go build').replace('RACE', '-race' if b.get('race') else '').replace('RUN', b.get('run', '"$d/demo"'))
            open(d + '/demo.sh', 'w').write(s)
            open(d + '/demo.go', 'w').write(b['demo'])
        for n, t in b.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
        os.chmod(d + '/demo.sh', 0o755)
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f); s = open(p).read()
            n = s.count(old)
            assert n == 1, '%s: old text occurs %d times: %r' % (f, n, old[:80])
            open(p, 'w').write(s.replace(old, new))
        if b.get('regen'):
            rc, o = sh('bash /tmp/w/regen.sh'); assert rc == 0, o
        rc, diff = sh('git diff', REPO)
        open(d + '/patch.diff', 'w').write(diff)
        rc, o = sh('bash /opt/vp/build.sh', REPO); assert rc == 0, 'does not build: ' + o[-600:]
        rc, o = sh('bash /opt/vp/test.sh /tmp/w/seedres.json', REPO)
        r = json.load(open('/tmp/w/seedres.json'))
        miss = stable() - set(r.get('passed', []))
        assert not miss, 'tests notice: ' + str(sorted(miss)[:4])
        rc, o = sh(['bash', d + '/demo.sh'], REPO, 300)
        assert rc not in (0, 3), 'demo does not fail with the patch (%d): %s' % (rc, o[-800:])
        bad = o
        sh('git checkout -- .', REPO)
        sh('bash /opt/vp/build.sh', REPO)
        for i in range(b.get('repeat', 1)):
            rc, o = sh(['bash', d + '/demo.sh'], REPO, 300)
            assert rc == 0, 'demo fails on the clean tree: ' + o[-800:]
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dst = os.path.join(SEED, b['id'])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return 'ok: ' + bad.strip().splitlines()[-1][:160] if bad.strip() else 'ok'
    finally:
        shutil.rmtree(d)
main()
