"""The runtime layer: renders cases as Rust modules, compiles, runs, records traces."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import render
import tools

EDITIONS = ['2018', '2021', '2024']
SHARDS = 8
HEAD = ('#![allow(warnings)]\n#![allow(unknown_lints, unexpected_cfgs)]\n')


def support(lib='std'):
    """Builds vsupport (and with it the library under test) in a feature set."""
    with tools.lock('vsupport-' + lib):
        args = [] if lib == 'none' else ['--features', lib]
        tdir, arts = tools.cargo(os.path.join(tools.VERIF, 'harness', 'vsupport'), 'vsupport-' + lib, args)
        return {'deps': os.path.join(tdir, 'debug', 'deps'), 'vsupport': arts['vsupport'],
                'derive_builder': arts['derive_builder']}


def source(cases, seed, nostd=False, neutral=False):
    head = ('#![no_std]\n' if nostd else '') + HEAD
    lines, starts = [head], []
    n = head.count('\n') + 1
    for c in cases:
        m = render.module(c, seed * 1000003 + c.get('sid', c['id']), neutral)
        starts.append((n, c['id']))
        lines.append(m + '\n')
        n += m.count('\n') + 1
    table = ', '.join(f'({c["id"]}, m{c["id"]}::make as fn() -> ::vsupport::std::boxed::Box<dyn ::vsupport::Driver>)'
                      for c in cases)
    lines.append(f'pub fn run(a: &str, b: &str) {{ ::vsupport::run_all(a, b, &[{table}]) }}\n')
    if not nostd:
        lines.append('fn main() { let a: ::std::vec::Vec<::std::string::String> = ::std::env::args().collect(); run(&a[1], &a[2]) }\n')
    return ''.join(lines), starts


def blame(starts, line):
    owner = None
    for n, tid in starts:
        if n <= line:
            owner = tid
    return owner


def all_spans(msg):
    for s in msg.get('spans', []):
        while s:
            yield s
            s = (s.get('expansion') or {}).get('span')
    for c in msg.get('children', []):
        yield from all_spans(c)


def rustc(src, out, crate_type, edition, externs, deps, extra=()):
    cmd = ['rustc', src, '--crate-type', crate_type, '--edition', edition, '-o', out, '-L', 'dependency=' + deps,
           '--error-format=json', '--cap-lints=allow', '-Cdebuginfo=0', '-Copt-level=0', '-Cincremental=', '-Ccodegen-units=1',
           *extra]
    for k, v in externs:
        cmd += ['--extern', f'{k}={v}']
    try:
        p = tools.run([c for c in cmd if c != '-Cincremental='], timeout=240)
    except subprocess.TimeoutExpired:
        return -1, [], 'rustc did not end'
    msgs = []
    for line in p.stderr.splitlines():
        try:
            msgs.append(json.loads(line))
        except ValueError:
            pass
    return p.returncode, [m for m in msgs if m.get('level') == 'error'], p.stderr


def shard(work, k, cases, seed, env, sup, neutral=False, execute=True):
    """Compiles and runs some cases. Returns ({tid: [compile errors]}, events)."""
    edition = EDITIONS[k % 3]
    failed = {}
    left = list(cases)
    src, exe = os.path.join(work, f's{k}.rs'), os.path.join(work, f's{k}.exe')
    externs = [('vsupport', sup['vsupport'])]
    extra = []
    if env == 'alias':
        externs.append(('db_alias', sup['derive_builder']))
    elif env == 'reexport':
        externs.append(('reexp', sup['reexp']))
    else:
        externs.append(('derive_builder', sup['derive_builder']))
    rounds = 0
    nostd = env in ('nostd', 'noalloc')
    while left:
        rounds += 1
        text, starts = source(left, seed, nostd, neutral)
        with open(src, 'w', encoding='utf-8') as f:
            f.write(text)
        if nostd:
            rlib = os.path.join(work, f'libs{k}.rlib')
            rc, errors, raw = rustc(src, rlib, 'rlib', edition, externs, sup['deps'], ['--crate-name', f's{k}'])
            if rc == 0:
                main = os.path.join(work, f'main{k}.rs')
                with open(main, 'w') as f:
                    f.write('fn main() { let a: Vec<String> = std::env::args().collect(); sut::run(&a[1], &a[2]) }\n')
                rc2, _, raw2 = rustc(main, exe, 'bin', '2021', [('sut', rlib)], sup['deps'])
                if rc2:
                    raise tools.ToolError('main of a no_std shard: ' + raw2[:2000])
        else:
            rc, errors, raw = rustc(src, exe, 'bin', edition, externs, sup['deps'], extra)
        if rc == 0:
            break
        bad = {}
        texts = text.split('\n')
        for e in errors:
            spans = [s for s in all_spans(e) if s['file_name'] == src]
            spans = [s for s in spans if s['is_primary']] or spans
            if spans and blame(starts, spans[0]['line_start']) is not None:
                line = texts[spans[0]['line_start'] - 1]
                tags = line.split('//@')[1].split(',') if '//@' in line else []
                bad.setdefault(blame(starts, spans[0]['line_start']), []).append(
                    {'code': (e.get('code') or {}).get('code', ''), 'message': e['message'], 'tags': tags,
                     'rendered': e.get('rendered', ''), 'edition': edition})
        if not bad or rounds > 12:
            # errors that point at no case, or a compiler that ended without any: find the cases by halving
            if len(left) == 1:
                failed[left[0]['id']] = [{'code': '', 'message': (errors[0]['message'] if errors else raw[-200:]), 'tags': [],
                                          'rendered': raw[-1500:], 'edition': edition}]
                return failed, []
            events = []
            for half in (left[::2], left[1::2]):
                f, e = shard(work, k, half, seed, env, sup, neutral, execute)
                failed.update(f)
                events += e
            return failed, events
        failed.update(bad)
        left = [c for c in left if c['id'] not in bad]
    if not left or not execute:
        return failed, []
    return failed, drive(work, k, exe, left)


DEAD = [{'live': False, 's': []}] * 3


def drive(work, k, exe, cases):
    """Runs the operations of some cases. A crash or hang is recorded as a panic of the operation it happened in."""
    left, events = list(cases), []
    for _ in range(6):
        ops, out = os.path.join(work, f's{k}.ops'), os.path.join(work, f's{k}.events')
        with open(ops, 'w', encoding='utf-8') as f:
            f.write(''.join(render.ops_lines(c) for c in left))
        open(out, 'w').close()
        try:
            rc = tools.run([exe, ops, out], timeout=120).returncode
        except subprocess.TimeoutExpired:
            rc = -1
        with open(out, encoding='utf-8', errors='replace') as f:
            lines = f.read().split('\n')[:-1]
        got = [json.loads(l) for l in lines]
        if rc == 0:
            return events + got
        per = {}
        for e in got:
            per.setdefault(e['tid'], []).append(e)
        crashed = next((c for c in left if len(per.get(c['id'], [])) < len(c['ops'])
                        and not any(e['out'] == 'panic' for e in per.get(c['id'], []))), None)
        if crashed is None:
            raise tools.ToolError(f'driver exited with {rc} after all operations')
        done = left[:left.index(crashed)]
        events += [e for c in done for e in per.get(c['id'], [])] + per.get(crashed['id'], [])
        events.append({'tid': crashed['id'], 'out': 'panic', 'log': [], 'clones': 0, 'early': 0, 'post': DEAD})
        left = left[left.index(crashed) + 1:]
        if not left:
            return events
    return events


def reexport(sup, work):
    src, out = os.path.join(work, 'reexp.rs'), os.path.join(work, 'libreexp.rlib')
    with open(src, 'w') as f:
        f.write('pub extern crate derive_builder as db;\n')
    rc, errors, raw = rustc(src, out, 'rlib', '2021', [('derive_builder', sup['derive_builder'])], sup['deps'],
                            ['--crate-name', 'reexp'])
    if rc:
        raise tools.ToolError('reexport crate: ' + raw)
    return dict(sup, reexp=out)


def run_cases(work, cases, seed, neutral=False, execute=True):
    """{tid: [compile errors]}, {tid: [events]} of the typed cases."""
    failed, events = {}, {}
    jobs = []
    groups = {}
    for c in cases:
        env = c['cfg']['env']
        groups.setdefault(('std' if env in ('macro', 'local') else env, c['cfg']['lib']), []).append(c)
    n = 0
    for (env, lib), cs in sorted(groups.items()):
        sup = support(lib)
        if env == 'reexport':
            sup = reexport(sup, work)
        k = min(SHARDS, len(cs)) if len(groups) == 1 else max(1, min(3, len(cs) // 8))
        for j in range(k):
            part = cs[j::k]
            if part:
                jobs.append((work, n, part, seed, env, sup, neutral, execute))
                n += 1
    with ThreadPoolExecutor(8) as ex:
        for f, ev in ex.map(lambda a: shard(*a), jobs):
            failed.update(f)
            for e in ev:
                events.setdefault(e['tid'], []).append(e)
    return failed, events
