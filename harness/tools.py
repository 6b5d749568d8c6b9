"""Paths, processes, TLC and cargo, shared by the layers."""
import contextlib
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
TOOLCHAIN = '1.88.0'
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CRATES = ['derive_builder_core', 'derive_builder_macro', 'derive_builder']


class ToolError(Exception):
    """The machinery itself failed: says nothing about the property."""


class BuildError(ToolError):
    """A crate did not compile."""

    def __init__(self, package, text):
        ToolError.__init__(self, f'build of {package} failed:\n{text}')
        self.package, self.text = package, text


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTC', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    e.update(PATH='/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin'), RUSTUP_TOOLCHAIN=TOOLCHAIN,
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUST_BACKTRACE='0',
             RUSTFLAGS='--cap-lints=allow', LC_ALL='C.UTF-8', LANG='C.UTF-8')
    e.update(kw)
    return e


def run(cmd, timeout=600, **kw):
    kw.setdefault('env', env())
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                          errors='replace', **kw)


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


@contextlib.contextmanager
def scratch(prefix):
    d = tempfile.mkdtemp(prefix='verif-' + prefix + '-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def source_hash():
    """Hash of everything of /repo that the builds depend on."""
    h = hashlib.sha256()
    for c in CRATES:
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, c))):
            dirs[:] = sorted(d for d in dirs if d not in ('target', 'tests', 'examples'))
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith('.rs') or f == 'Cargo.toml' or f.endswith('.md'):
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def cargo(manifest_dir, target, args, stamp_extra=''):
    """cargo build into build/<target>; never trusts mtimes for /repo's sources."""
    tdir = os.path.join(BUILD, target)
    stamp = os.path.join(tdir, 'source.stamp')
    want = source_hash() + stamp_extra
    have = open(stamp).read() if os.path.exists(stamp) else ''
    if have != want and os.path.isdir(tdir):
        if os.path.exists(stamp):
            os.remove(stamp)
        fp = os.path.join(tdir, 'debug', '.fingerprint')
        for d in os.listdir(fp) if os.path.isdir(fp) else []:
            if d.startswith(('derive_builder', 'vsupport', 'expander')):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = run(['cargo', 'build', '--offline', '--target-dir', tdir, '--message-format=json', '-j8'] + args, cwd=manifest_dir)
    arts = {}
    errors = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            for f in m['filenames']:
                if f.endswith('.rlib') or f.endswith('.so'):
                    arts[m['target']['name']] = f
            if m.get('executable'):
                arts['bin:' + m['target']['name']] = m['executable']
        elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            errors.append((m['target']['name'], m['message'].get('rendered', '')))
    if p.returncode != 0:
        if errors:
            raise BuildError(errors[0][0], ''.join(e for _, e in errors)[:3000])
        raise ToolError('cargo build failed in %s:\n%s' % (manifest_dir, p.stderr[-3000:]))
    with open(stamp, 'w') as f:
        f.write(want)
    return tdir, arts


class TlcResult:
    pass


def tlc(module, variables, cfg='Empty.cfg', timeout=600, workers=1, extra=(), heap='6g', spec_dir=SPEC):
    """Runs TLC; `variables` go into the environment (read through IOEnv)."""
    with scratch('tlc') as d:
        cmd = ['java', '-XX:+UseParallelGC', '-Xss512m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-Dsun.jnu.encoding=UTF-8', '-cp', TLA, 'tlc2.TLC', '-metadir', d, '-workers', str(workers), '-deadlock',
               '-noGenerateSpecTE', '-config', cfg, *extra, module + '.tla']
        t = time.time()
        p = run(cmd, timeout=timeout, cwd=spec_dir, env=env(**{k: str(v) for k, v in variables.items()}))
        r = TlcResult()
        r.out = p.stdout + p.stderr
        r.rc = p.returncode
        r.wall = time.time() - t
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
        r.generated, r.states = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        r.ok = 'Model checking completed. No error has been found' in r.out
        r.violated = re.findall(r'(?:Invariant|Action property|Temporal properties?) ?(\S*) (?:is|was|were) violated', r.out)
        return r


def ndjson(path):
    with open(path, encoding='utf-8') as f:
        return [json.loads(l) for l in f if l.strip()]
