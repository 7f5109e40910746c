#!/usr/bin/env python3
"""Turn a description of a planted bug into /verif/seeded/<id>/, after confirming it.

usage: seed.py FILE.py [ID...]   FILE defines SEEDS, dicts with ID PROP NEEDS BREAKS EDITS PKG TEST (or DEMO, FILES)
The change is made in a scratch copy of /repo: it has to build, pass the stable
tests, and its demonstration has to fail with it and pass without it.
"""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME='/root')
DEMO = r'''#!/bin/bash
# runs demo_test.go inside the package %(pkg)s of the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$repo" "$here" > "$tmp/o.json"
go test -vet=off -count=1 %(flags)s -timeout 200s -overlay "$tmp/o.json" -run TestZzDemo ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,errors="replace", **kw)

class Failed(Exception):
    pass

def die(msg, out=''):
    print('SEED FAILED:', msg); print(out[-2500:]); raise Failed(msg)

def blame_ok(repo, path, old):
    """are the lines this change replaces lines of the original repository?"""
    first = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], repo).stdout.strip()
    text = open(os.path.join(repo, path)).read()
    at = text.index(old); l0 = text[:at].count('\n') + 1; l1 = l0 + old.rstrip('\n').count('\n')
    out = sh(['git', 'blame', '-l', '-L', f'{l0},{l1}', path], repo).stdout
    return any(first[:30] in l.split()[0] for l in out.splitlines()), out

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for d in g['SEEDS']:
        if len(sys.argv) > 2 and d['ID'] not in sys.argv[2:] or len(sys.argv) == 2 and os.path.exists('/verif/seeded/' + d['ID']):
            continue
        print('==', d['ID'], flush=True)
        try:
            plant(d)
        except Failed:
            pass

def plant(d):
    dest = f"/verif/seeded/{d['ID']}"
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        repo = w + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        sh(['git', 'checkout', '--', '.'], repo)
        demo = w + '/demo'; os.makedirs(demo)
        if 'TEST' in d:
            open(demo + '/demo_test.go', 'w').write(d['TEST'])
            open(demo + '/demo.sh', 'w').write(DEMO % {'pkg': d['PKG'], 'flags': d.get('FLAGS', '')})
        else:
            open(demo + '/demo.sh', 'w').write(d['DEMO'])
        for n, t in d.get('FILES', {}).items():
            os.makedirs(os.path.dirname(f'{demo}/{n}'), exist_ok=True); open(f'{demo}/{n}', 'w').write(t)
        os.chmod(demo + '/demo.sh', 0o755)
        r = sh(['bash', demo + '/demo.sh'], repo, timeout=300)
        if r.returncode: die('demo fails on the unchanged tree', r.stdout)
        orig = False
        for path, old, new in d['EDITS']:
            p = os.path.join(repo, path); t = open(p).read()
            if t.count(old) != 1: die(f'{path}: text found {t.count(old)} times: {old}')
            ok, out = blame_ok(repo, path, old); orig |= ok
        for path, old, new in d['EDITS']:
            p = os.path.join(repo, path); t = open(p).read()
            open(p, 'w').write(t.replace(old, new))
        if not orig: print('WARNING: no original line changed\n', out)
        pkgs = [p for p in sh(['go', 'list', './...'], repo).stdout.split() if not p.endswith('/generate')]
        r = sh(['go', 'build'] + pkgs, repo)
        if r.returncode: die('does not build', r.stdout)
        r = sh(['go', 'test', '-vet=off', '-count=1', '-v', './...'], repo)
        stable = [t.rsplit('/', 1)[1] for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]
        for t in stable:
            if f'--- PASS: {t} ' not in r.stdout: die(f'stable test {t} fails', r.stdout)
        r = sh(['bash', demo + '/demo.sh'], repo, timeout=300)
        if r.returncode == 0: die('demo passes with the change', r.stdout)
        print(r.stdout[-500:])
        if 'build failed' in r.stdout or 'setup failed' in r.stdout: die('demo does not build with the change', r.stdout)
        diff = sh(['git', 'diff'], repo).stdout
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(demo, dest)
        open(dest + '/patch.diff', 'w').write(diff)
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(dest + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        print('SEEDED', d['ID'])
    finally:
        shutil.rmtree(w, ignore_errors=True)
main()
