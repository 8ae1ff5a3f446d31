"""mkseed(id, prop, pkg, edits, test, needs, breaks): writes seeded/<id> from edits [(file, old, new)] against /repo."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs demo_test.go as a test of %(pkg)s (through an overlay); cwd is the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir "$t/home"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
HOME=$t/home TMPDIR=$t go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$t/overlay.json" -run '^TestDemo' ./%(pkg)s
'''
def mkseed(id, prop, pkg, edits, test, needs, breaks, flags=''):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo/.', t])
    for f, old, new in edits:
        s = open(t + '/' + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(t + '/' + f, 'w').write(s.replace(old, new))
    subprocess.check_call('gofmt -l %s' % ' '.join(sorted({e[0] for e in edits})), shell=True, cwd=t)
    p = subprocess.check_output(['git', 'diff'], cwd=t).decode()
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(p)
    open(d + '/demo_test.go', 'w').write(test.lstrip())
    open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg, 'flags': flags})
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
