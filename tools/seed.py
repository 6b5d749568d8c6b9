#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/bugs/*.py: patch.diff, demo.sh, demo.rs, meta.json.

seed.py write [ID...]   write the folders (the diff is taken from a scratch copy of /repo's HEAD)
seed.py demo  [ID...]   run each demo on /repo as it is, then with the patch
seed.py tests [ID...]   build.sh and test.sh of /opt/vp with the patch applied; stable tests must pass
seed.py check [ID...]   run the owning property's quick check with the patch (all: every check)

The patch is applied to /repo only while a command runs, and undone straight afterwards."""
import glob
import json
import os
import runpy
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')

DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it; bad*.rs, where there are any, must not compile.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here" "$PWD" <<'PY'
import glob, os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:]
env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='1.88.0')
env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
for k in ('RUSTC', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'):
    env.pop(k, None)
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + '/src/bin')
    with open(d + '/Cargo.toml', 'w') as f:
        f.write('[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\n'
                f'derive_builder = {{ path = "{repo}/derive_builder" }}\\n'
                + (f'derive_builder_core = {{ path = "{repo}/derive_builder_core" }}\\nsyn = {{ version = "2", features = ["full"] }}\\nquote = "1"\\n'
                   if os.path.exists(here + '/core') else ''))
    if os.path.exists(repo + '/Cargo.lock'):
        shutil.copy(repo + '/Cargo.lock', d)
    for f in glob.glob(here + '/*.rs'):
        shutil.copy(f, d + '/src/bin')
    def cargo(*a):
        return subprocess.run(['cargo', *a], cwd=d, env=env).returncode
    if cargo('run', '-q', '--offline', '--bin', 'demo'):
        sys.exit('demo.rs failed')
    for f in sorted(glob.glob(here + '/bad*.rs')):
        if cargo('build', '-q', '--offline', '--bin', os.path.basename(f)[:-3]) == 0:
            sys.exit(os.path.basename(f) + ' compiled')
PY
'''


def bugs():
    out = {}
    for f in sorted(glob.glob(HERE + '/bugs/*.py')):
        out.update(runpy.run_path(f)['BUGS'])
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class applied:
    def __init__(self, i):
        self.i = i

    def __enter__(self):
        assert not sh(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).stdout.strip()
        r = sh(['git', '-C', '/repo', 'apply', f'{SEEDED}/{self.i}/patch.diff'])
        assert r.returncode == 0, r.stdout

    def __exit__(self, *a):
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])


def write(i, b):
    d = os.path.join(SEEDED, i)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        sh(['git', 'clone', '-q', '/repo', t + '/r'])
        for path, old, new in b['edits']:
            p = f'{t}/r/{path}'
            s = open(p).read()
            n = s.split('mod tests {')[0].count(old)
            assert n == 1, (i, path, old, n)
            open(p, 'w').write(s.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', t + '/r', 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    for n in ('demo', 'bad', 'bad2'):
        if n in b:
            open(f'{d}/{n}.rs', 'w').write(b[n].lstrip('\n'))
    if b.get('core'):
        open(d + '/core', 'w').write('uses derive_builder_core\n')
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        f.write('\n')


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    all_ = False
    if ids and ids[0] == 'all':
        all_, ids = True, ids[1:]
    B = bugs()
    for i in ids or sorted(B):
        b = B[i]
        if cmd == 'write':
            write(i, b)
            continue
        if cmd == 'demo':
            a = sh([f'{SEEDED}/{i}/demo.sh'], cwd='/repo')
            with applied(i):
                c = sh([f'{SEEDED}/{i}/demo.sh'], cwd='/repo')
            ok = a.returncode == 0 and c.returncode != 0
            print(i, 'ok' if ok else 'BAD', a.returncode, c.returncode, '' if ok else '\n' + a.stdout + '-----\n' + c.stdout, flush=True)
        if cmd == 'tests':
            with applied(i):
                r = sh(['bash', '/opt/vp/build.sh'])
                rc = r.returncode
                out = f'/tmp/seed-{i}.json'
                sh(['bash', '/opt/vp/test.sh', out])
            base = json.load(open('/opt/vp/BASELINE.json'))
            want = set(base['stable'])
            got = set(json.load(open(out))['passed'])
            lost = sorted(want - got)
            print(i, 'ok' if rc == 0 and not lost else 'BAD', rc, lost[:6], '' if rc == 0 else r.stdout[-1500:], flush=True)
        if cmd == 'check':
            with applied(i):
                for p in ([f'P{k:02d}' for k in range(1, 21)] if all_ else [b['property']]):
                    t = time.time()
                    r = sh([f'{VERIF}/check.py', p], cwd=VERIF)
                    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                    print(i, b['property'], p, {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, f'rc{r.returncode}'), v[:1], f'{time.time() - t:.0f}s', flush=True)
                    if r.returncode not in (0, 1) or (r.returncode == 1 and not v):
                        print(r.stdout[-2000:])


main()
