"""Development helper: makes /verif/seeded/<id> from an edit and a demonstration test.

seed(id, prop, needs, breaks, edits, pkg, test): edits = [(file, old, new)...] on /repo's HEAD.
It checks that the change compiles, that the stable tests pass with it and that the
demonstration passes without and fails with it, in a scratch copy.
"""
import json, os, shutil, subprocess, sys
DEMO = '''#!/bin/bash
# Runs the demonstration test beside this file in the package %(pkg)s of the
# current directory (exit 0: the property held).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
python3 - "$PWD/%(pkg)s" "$here/demo_test.go.txt" "$tmp/overlay.json" <<'P'
import glob, json, os, sys
d, src, out = sys.argv[1:]
r = {f: "" for f in glob.glob(os.path.join(os.path.normpath(d), "*_test.go"))}
r[os.path.join(os.path.normpath(d), "zz_demo_test.go")] = src
json.dump({"Replace": r}, open(out, "w"))
P
zk=$(go list -m -f '{{.Dir}}' github.com/nanu-c/zkgroup 2>/dev/null)
export LD_LIBRARY_PATH="$zk/lib"
timeout 280 go test -vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
STABLE = None
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def seed(id, prop, needs, breaks, edits, pkg, test):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg}); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go.txt', 'w').write(test)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    wt = '/tmp/seedwt'
    if not os.path.exists(wt):
        assert sh('git worktree prune; git worktree add -f --detach %s HEAD' % wt, '/repo').returncode == 0
    sh('git checkout -q --detach $(git -C /repo rev-parse HEAD) && git checkout -q -- . && git clean -fdq', wt)
    r = sh('bash %s/demo.sh' % d, wt)
    if r.returncode: print(id, 'DEMO FAILS UNPATCHED\n', r.stdout[-3000:]); return
    for f, old, new in edits:
        p = wt + '/' + f; s = open(p).read()
        if s.count(old) != 1: print(id, 'EDIT matches', s.count(old), f, old); return
        open(p, 'w').write(s.replace(old, new))
    sh('gofmt -l .', wt)
    diff = subprocess.run('git diff', shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    env = 'export HOME=/root PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build; '
    r = sh(env + 'go build ./...', wt)
    if r.returncode: print(id, 'BUILD\n', r.stdout[-2000:]); return
    zk = sh(env + "go list -m -f '{{.Dir}}' github.com/nanu-c/zkgroup", wt).stdout.strip()
    r = sh(env + 'LD_LIBRARY_PATH=%s/lib go test -json -vet=off -count=1 ./...' % zk, wt)
    passed = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Package'] + '/' + e['Test'])
    missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
    if missing: print(id, 'STABLE TESTS FAIL', missing); return
    n = len(passed)
    r = sh('bash %s/demo.sh' % d, wt)
    print(id, 'ok' if r.returncode else 'DEMO DOES NOT FAIL', 'tests passed:', n, '|', [l.strip() for l in r.stdout.splitlines() if 'demo_test' in l or 'panic:' in l][:2])
    sh('git checkout -q -- .', wt)
