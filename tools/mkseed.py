#!/usr/bin/env python3
"""mkseed.py SPECS.py [ID...] : build, confirm and store planted bugs.

SPECS.py calls S(id, prop, needs, breaks, edits=[(file, old, new)...], demo=Go test source, pkg='sub/dir/',
race=False, runs=1).  Confirmed in a scratch copy of /repo: the demonstration passes before the
edit, the edit builds and passes the stable tests, the demonstration fails after it, and every line it
replaces belongs to the original repository.  Result: /verif/seeded/<ID>/.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading

TESTS = threading.Lock()  # the tests write to fixed places in /tmp

DEMO_SH = '''#!/bin/bash
# Runs demo_test.go inside the package, through an overlay; everything it writes is in scratch directories.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)szz_demo_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
go test %(flags)s-overlay "$tmp/overlay.json" -count=1 -timeout 200s -run 'TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd=None, timeout=600, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    return p.returncode, p.stdout

def run(d):
    i = d['ID']
    out = f'/tmp/seedout/{i}'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    pkg = d.get('PKG', '')
    open(out + '/demo_test.go', 'w').write(d['DEMO'])
    rc, o = sh(f'gofmt -w {out}/demo_test.go')
    if rc: return f'{i}: gofmt demo {o}'
    open(out + '/demo.sh', 'w').write(DEMO_SH % {'pkg': pkg, 'flags': '-race ' if d.get('RACE') else ''})
    os.chmod(out + '/demo.sh', 0o755)
    sw = tempfile.mkdtemp(prefix='sw.', dir='/tmp') + '/r'
    try:
        sh(f'cp -a /repo {sw}; git -C {sw} checkout -q -- .')
        rc, o = sh(f'bash {out}/demo.sh', cwd=sw)
        if rc: return f'{i}: demo fails on the clean tree\n{o[-1500:]}'
        base = sh('git rev-list --max-parents=0 HEAD', cwd=sw)[1].strip()[:7]
        for f, old, new in d['EDITS']:
            s = open(f'{sw}/{f}').read()
            if s.count(old) != 1: return f'{i}: {f}: {s.count(old)} matches of {old!r}'
            open(f'{sw}/{f}', 'w').write(s.replace(old, new))
        rc, o = sh('gofmt -l ' + ' '.join(f for f, _, _ in d['EDITS']), cwd=sw)
        if o.strip(): return f'{i}: not gofmt: {o}'
        _, diff = sh('git diff', cwd=sw)
        open(out + '/patch.diff', 'w').write(diff)
        # removed lines are original
        warn = ''
        _, d0 = sh('git diff -U0', cwd=sw)
        f = None
        for l in d0.split('\n'):
            if l.startswith('--- a/'): f = l[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0: warn += f' insert@{f}:{a}'; continue
                _, bl = sh(f'git blame -s -L {a},{a+n-1} HEAD -- {f}', cwd=sw)
                for b in bl.strip().split('\n'):
                    if not b.lstrip('^').startswith(base[:6]): warn += f'\n   NOT ORIGINAL {f}: {b}'
        # stable tests
        envsh = '. /opt/vp/env.sh >/dev/null 2>&1; '
        base_json = json.load(open('/opt/vp/BASELINE.json'))
        with TESTS:
            rc, o = sh(f"bash -c '{envsh} cd {sw} && go build ./... && go test -json -race -vet=off -count=1 ./... 2>/dev/null'; rm -rf /tmp/en /tmp/en_US /tmp/es /tmp/gotextlib /tmp/default.po", cwd=sw)
        passed = set()
        for l in o.split('\n'):
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and e.get('Test'): passed.add(e['Test']); passed.add(e['Package'] + '.' + e['Test']); passed.add(e['Package'] + '/' + e['Test']); passed.add(e['Package'] + '::' + e['Test'])
        names = base_json.get('pass') or base_json.get('passed') or base_json.get('tests') or base_json.get('stable')
        missing = [n for n in names if n not in passed]
        if missing: return f'{i}: tests fail with the patch: {missing[:5]} ({len(missing)})\n{o[:300] if not passed else ""}'
        runs = d.get('RUNS', 1)
        for k in range(runs):
            rc, o = sh(f'bash {out}/demo.sh', cwd=sw)
            if rc == 0: return f'{i}: demo passes with the patch (run {k})'
        if 'build failed' in o or 'setup failed' in o: return f'{i}: demo does not build with the patch {o}'
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        dst = f'/verif/seeded/{i}'
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        msg = [l for l in o.split('\n') if 'demo_test.go' in l or 'DATA RACE' in l or 'panic' in l][:2]
        return f'{i}: OK {msg}{warn}'
    finally:
        shutil.rmtree(os.path.dirname(sw), ignore_errors=True)

SPECS = []
def S(id, prop, needs, breaks, edits, demo, pkg='', race=False, runs=1):
    SPECS.append({'ID': id, 'PROP': prop, 'NEEDS': needs, 'BREAKS': breaks, 'EDITS': edits, 'DEMO': demo, 'PKG': pkg, 'RACE': race, 'RUNS': runs})

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'S': S})
    todo = [d for d in SPECS if not sys.argv[2:] or d['ID'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(run, todo): print(r, flush=True)
