#!/usr/bin/env python3
# Generates /verif/seeded/<id>/ from tools/seeds.py and confirms each one in a
# scratch copy of /repo: the patch applies, builds, passes the stable tests,
# and the demonstration fails with it and passes without it.
# usage: mkseed.py [id ...]
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(id, prop, edits, demo, needs, breaks, imports=(), race=False):
    S.append((id, prop, edits, demo, needs, breaks, imports, race))
exec(open(os.path.join(V, 'tools', 'seeds.py')).read())
DEMO = '''#!/bin/bash
# exit 0 if the property holds on this example, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
go test %s-overlay "$T/overlay.json" -vet=off -run 'TestZZDemo$' -count=1 -timeout 60s .
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
bad = []
for id, prop, edits, demo, needs, breaks, imports, race in S:
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    d = os.path.join(V, 'seeded', id)
    t = tempfile.mkdtemp(prefix='seed.')
    r = os.path.join(t, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', r])
        os.makedirs(d, exist_ok=True)
        imp = ''.join('\t"%s"\n' % i for i in sorted(set(imports) | {"testing"}))
        open(os.path.join(d, 'demo_test.go.txt'), 'w').write('package lpg\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n' % (imp, demo))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % ('-race ' if race else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        before = sh('bash %s/demo.sh' % d, r)
        for f, a, b in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(a) != 1: raise Exception('%s: %d occurrences of %r' % (f, s.count(a), a))
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', r).stdout)
        root = sh('git rev-list --max-parents=0 HEAD | tail -1', r).stdout.strip()
        minus = 0
        for f in {e[0] for e in edits}:
            orig = set(sh('git show %s:%s' % (root, f), r).stdout.splitlines())
            for l in sh('git diff -U0 %s' % f, r).stdout.splitlines():
                if l.startswith('-') and not l.startswith('---'):
                    minus += 1
                    if l[1:] not in orig: print(id, 'note: not an original line:', l)
        if not minus: print(id, 'note: only adds lines')
        build = sh('gofmt -l $(git diff --name-only); go build ./...', r)
        tests = sh('go test -vet=off -count=1 ./...', r)
        after = sh('bash %s/demo.sh' % d, r)
        ok = before.returncode == 0 and build.returncode == 0 and not build.stdout and tests.returncode == 0 and after.returncode != 0 and 'build failed' not in after.stdout
        print(id, prop, 'ok' if ok else 'BAD: before=%d build=%d tests=%d after=%d' % (before.returncode, build.returncode, tests.returncode, after.returncode))
        if not ok:
            bad.append(id); print(before.stdout[-1500:] if before.returncode else '', build.stdout[-800:], tests.stdout[-1500:] if tests.returncode else '', after.stdout[-600:])
    except Exception as e:
        print(id, 'ERROR', e); bad.append(id)
    finally:
        shutil.rmtree(t)
sys.exit(1 if bad else 0)
