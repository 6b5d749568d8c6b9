"""What the compiler's lints say about generated code."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

import l2
import render
import tools

# Names are the user's, and so are the parentheses and braces around the expressions in options.
HEAD = ('#![warn(unused, missing_docs, unsafe_code)]\n'
        '#![allow(nonstandard_style, uncommon_codepoints, confusable_idents, mixed_script_confusables, unused_braces, unused_parens, unknown_lints)]\n'
        '//! documented\n')


def derived(span):
    while span:
        e = span.get('expansion')
        if e and 'derive(Builder)' in e['macro_decl_name']:
            return True
        span = (e or {}).get('span')
    return False


def shard(work, k, cases, seed, env, sup):
    """{tid: [lints]} of those of the cases that compile"""
    edition = l2.EDITIONS[k % 3]
    src = os.path.join(work, f'l{k}.rs')
    nostd = env in ('nostd', 'noalloc')
    externs = [('vsupport', sup['vsupport'])]
    if env == 'alias':
        externs.append(('db_alias', sup['derive_builder']))
    elif env == 'reexport':
        externs.append(('reexp', sup['reexp']))
    else:
        externs.append(('derive_builder', sup['derive_builder']))
    left = list(cases)
    for _ in range(12):
        lines = [('#![no_std]\n' if nostd else '') + HEAD]
        n, starts, items = lines[0].count('\n') + 1, [], set()
        for c in left:
            m = render.module(c, seed * 1000003 + c['id'], public=True, lean=c['lean']) + '\n'
            starts.append((n, c['id']))
            inside = False
            for i, line in enumerate(m.split('\n')):
                inside = line == render.ITEM or (inside and line != render.REST)
                if inside:
                    items.add(n + i)
            lines.append(m)
            n += m.count('\n')
        with open(src, 'w', encoding='utf-8') as f:
            f.write(''.join(lines))
        rc, msgs = compile(src, os.path.join(work, f'l{k}.rmeta'), edition, externs, sup['deps'])
        if rc == 0:
            obs = {c['id']: [] for c in left}
            for m in msgs:
                spans = [s for s in l2.all_spans(m) if s['file_name'] == src]
                spans = [s for s in spans if s['is_primary']] or spans
                mine = [s for s in spans if s['line_start'] in items]
                if not mine or not (m.get('code') or {}).get('code'):
                    continue
                obs[l2.blame(starts, mine[0]['line_start'])].append(
                    {'code': m['code']['code'], 'text': m['message'][:200], 'rendered': m.get('rendered', ''), 'edition': edition})
            return obs
        bad = set()
        for m in msgs:
            if m.get('level') == 'error':
                for s in l2.all_spans(m):
                    if s['file_name'] == src and l2.blame(starts, s['line_start']) is not None:
                        bad.add(l2.blame(starts, s['line_start']))
                        break
        if not bad:
            raise tools.ToolError('lints: rustc failed without a place')
        left = [c for c in left if c['id'] not in bad]
        if not left:
            return {}
    return {}


def compile(src, out, edition, externs, deps):
    cmd = ['rustc', src, '--crate-type', 'lib', '--crate-name', 'sut', '--edition', edition, '-o', out, '--emit=metadata',
           '-L', 'dependency=' + deps, '--error-format=json']
    for k, v in externs:
        cmd += ['--extern', f'{k}={v}']
    p = tools.run(cmd, timeout=240)
    msgs = []
    for line in p.stderr.splitlines():
        try:
            msgs.append(json.loads(line))
        except ValueError:
            pass
    return p.returncode, msgs


def run(work, cases, seed):
    groups, jobs, n, obs = {}, [], 0, {}
    for c in cases:
        groups.setdefault((c['cfg']['env'], c['cfg']['lib']), []).append(c)
    for (env, lib), cs in sorted(groups.items()):
        sup = l2.support(lib)
        if env == 'reexport':
            sup = l2.reexport(sup, work)
        k = 8 if env == 'std' else 3
        for j in range(k):
            if cs[j::k]:
                jobs.append((work, n, cs[j::k], seed, env, sup))
                n += 1
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(lambda a: shard(*a), jobs):
            obs.update(o)
    return obs
