"""Which properties a failure to compile or to expand belongs to.

A failing configuration is put back to its defaults feature by feature (the
specification module Reduce does that); the features without which it does not
fail are the ones that the failure is about.
"""
import json
import os

import l1
import l2
import render
import tools

# feature -> properties whose subject it is; order is that of the reduction
FEATURES = {
    'spelling': {'P20'}, 'attrs': {'P14'}, 'vis': {'P13'}, 'derive': {'P16', 'P17'}, 'ctor': {'P17'}, 'empty': {'P12', 'P17'},
    'names': {'P12'}, 'ids': {'P12'}, 'setname': {'P12'}, 'env': {'P19'}, 'err': {'P10'}, 'validate': {'P09'}, 'word': {'P11'},
    'custom': {'P11'}, 'skip': {'P11'}, 'into': {'P08'}, 'strip': {'P08'}, 'each': {'P07'}, 'try': {'P06'}, 'fdflt': {'P03'},
    'sdflt': {'P03'}, 'fld': {'P18'}, 'generics': {'P16', 'P17'}, 'pattern': {'P05', 'P16'}, 'types': {'P08', 'P16'},
    'fields': {'P01', 'P02'}}
EVERY = {'P%02d' % i for i in range(1, 21)}


def resets(work, asks):
    """[(id, cfg, [features])] -> {id: row}"""
    ask, out = os.path.join(work, 'ask.json'), os.path.join(work, 'answer.json')
    with open(ask, 'w', encoding='utf-8') as f:
        for i, c, ks in asks:
            f.write(json.dumps({'id': i, 'cfg': c, 'reset': ks}, ensure_ascii=False) + '\n')
    r = tools.tlc('Reduce', {'ASK': ask, 'OUT': out})
    if not r.ok:
        raise tools.ToolError('Reduce: ' + r.out[-2000:])
    return {x['id']: x for x in tools.ndjson(out)}


class Reducer:
    """fails(rows, seed) -> set of ids of those rows that still show the failure"""

    def __init__(self, work, fails, usable):
        self.work, self.fails, self.usable = work, fails, usable

    def attempt(self, cfg, sets, sid):
        """For each list of features: does the configuration without them still fail? (None: cannot tell)"""
        rows = resets(self.work, [(i, cfg, [k for k in ks if k != 'spelling']) for i, ks in enumerate(sets)])
        todo = []
        for i, ks in enumerate(sets):
            r = rows[i]
            if self.usable(r):
                todo.append(dict(r, sid=sid, neutral='spelling' in ks))
        bad = self.fails(todo)
        ok = {r['id'] for r in todo}
        return [(i in bad) if i in ok else None for i in range(len(sets))]

    def necessary(self, cfg, sid):
        """(features that the failure needs, smallest failing configuration found)"""
        gone, left = [], list(FEATURES)
        for _ in range(30):
            res = self.attempt(cfg, [gone + [k] for k in left], sid)
            free = [k for k, r in zip(left, res) if r]
            if not free:
                break
            # as many at once as still fail
            while len(free) > 1 and not self.attempt(cfg, [gone + free], sid)[0]:
                free = free[:(len(free) + 1) // 2] if len(free) > 2 else free[:1]
            gone = gone + free
            left = [k for k in left if k not in free]
            if not left:
                break
        row = resets(self.work, [(0, cfg, [k for k in gone if k != 'spelling'])])[0]
        return left, dict(row, sid=sid, neutral='spelling' in gone)


def props_of(features):
    # when nothing at all is needed, every builder is broken
    return set().union({'P15'}, *(FEATURES[k] for k in features)) if features else set(EVERY)


def compile_failure(work, case, seed):
    """Properties that a compile error in a generated module belongs to, and a small failing case."""
    def fails(rows):
        bad = set()
        for neutral in (False, True):
            part = [r for r in rows if r['neutral'] == neutral]
            if part:
                failed, _ = l2.run_cases(work, part, seed, neutral=neutral, execute=False)
                bad |= set(failed)
        return bad
    red = Reducer(work, fails, lambda r: r['typed'])
    need, row = red.necessary(case['cfg'], case['id'])
    return props_of(need), need, row


def wrong_outcome(work, case, seed, got):
    """The same for a configuration whose expansion did not end as specified."""
    lib = case['cfg']['lib']

    def fails(rows):
        bad = set()
        for lib in ('std', 'alloc', 'none'):
            src = [(r['id'], render.item(r['cfg'], r['res'], seed * 7919 + r['sid'], derive='', neutral=r['neutral']))
                   for r in rows if r['cfg']['lib'] == lib]
            obs = l1.expand(work, src, lib)
            bad |= {r['id'] for r in rows if r['id'] in obs and obs[r['id']]['outcome'] == got and r['outcome'] != got}
        return bad
    red = Reducer(work, fails, lambda r: r['unique'])
    need, row = red.necessary(case['cfg'], case['id'])
    return props_of(need), need, row
