"""The surface layer: applies the real derive to rendered items and reports what it generated."""
import json
import os
import subprocess

import render
import tools


def expander(lib='std'):
    with tools.lock('expander-' + lib):
        args = [] if lib == 'none' else ['--features', lib]
        _, arts = tools.cargo(os.path.join(tools.VERIF, 'harness', 'expander'), 'expander-' + lib, args)
        return arts['bin:expander']


def run_expander(work, exe, sources, lib, timeout, **kw):
    """(finished normally, {id: observation}, ids of the items it was at when it ended)"""
    inp, out = os.path.join(work, f'x-{lib}.in'), os.path.join(work, f'x-{lib}.out')
    with open(inp, 'w', encoding='utf-8') as f:
        for i, s in sources:
            f.write(json.dumps({'id': i, 'src': s}) + '\n')
    open(out, 'w').close()
    try:
        p = tools.run([exe, inp, out], timeout=timeout, **kw)
        fine = p.returncode == 0
    except subprocess.TimeoutExpired:
        fine = False
    obs, started = {}, []
    with open(out, encoding='utf-8', errors='replace') as f:
        for line in f.read().split('\n')[:-1]:
            o = json.loads(line)
            if 'start' in o:
                started.append(o['start'])
            else:
                obs[o['id']] = o
    return fine, obs, [i for i in started if i not in obs]


def expand(work, sources, lib):
    """[(id, src)] -> {id: observation}; an item that the derive crashes or hangs on is reported as a panic"""
    if not sources:
        return {}
    exe = expander(lib)
    res, left, deaths = {}, list(sources), 0
    while left:
        fine, obs, open_ = run_expander(work, exe, left, lib, 60 + len(left) / 20)
        res.update(obs)
        left = [(i, s) for i, s in left if i not in obs]
        if fine and not left:
            break
        if not open_ or deaths > 8:
            raise tools.ToolError('expander failed without a cause')
        for i in open_:
            src = dict(left)[i]
            fine, obs, _ = run_expander(work, exe, [(i, src)], lib, 20)
            if fine:
                res.update(obs)
            else:
                deaths += 1
                res[i] = {'id': i, 'outcome': 'panic', 'facts': {'outcome': 'panic'}, 'attrs': {}, 'bodies': {}, 'same': True, 'why': 'crash or hang'}
        left = [(i, s) for i, s in left if i not in res]
    return res


def otherwise(work, sources, lib, obs):
    """Expands everything again, in another process, order and environment, and notes what comes out different."""
    if not sources:
        return
    env = dict(tools.env(), CARGO_PKG_NAME='other', CARGO_CRATE_NAME='other', CARGO_PKG_VERSION='9.9.9', CARGO_MANIFEST_DIR='/',
               OUT_DIR='/', PROFILE='release', RUST_BACKTRACE='1', LANG='tr_TR.UTF-8', USER='other', HOME='/', TZ='Asia/Tokyo')
    _, again, _ = run_expander(work, expander(lib), list(reversed(sources)), lib, 60 + len(sources) / 20, env=env, cwd='/')
    for i, o in again.items():
        if o != obs[i]:
            obs[i]['same'] = False


def observe(work, cases, seed, twice=False):
    """Renders and expands every case; {id: observation} and {id: source}."""
    src = {c['id']: render.item(c['cfg'], c['res'], seed * 7919 + c['id'], derive='') for c in cases}
    obs = {}
    for lib in ('std', 'alloc', 'none'):
        mine = [(c['id'], src[c['id']]) for c in cases if c['cfg']['lib'] == lib]
        obs.update(expand(work, mine, lib))
        if twice:
            otherwise(work, mine, lib, obs)
    return obs, src


def observe_pairs(work, rows, seed):
    """Both members of every pair (spec/GenPairs.tla); {id: {a, b}} and {id: (source, source)}."""
    src = {}
    for r in rows:
        two = r['kind'] == 'spelling'
        src[r['id']] = (render.item(r['cfg'], r['res'], seed * 7919 + r['id'], derive='', plain=True, neutral=not two),
                        render.item(r['alt'], r['altres'], seed * 104729 + r['id'] + 1, derive='', plain=True, neutral=not two))
    obs = {}
    for lib in ('std', 'alloc', 'none'):
        flat = [(2 * r['id'] + k, src[r['id']][k]) for r in rows if r['cfg']['lib'] == lib for k in (0, 1)]
        obs.update(expand(work, flat, lib))
    return {r['id']: {'a': obs[2 * r['id']], 'b': obs[2 * r['id'] + 1]} for r in rows}, src
