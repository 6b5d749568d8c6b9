"""One check: model checking, generation, observation of the real code, validation, verdict."""
import json
import os
import re
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import blame
import l1
import l2
import lints
import render
import tools

LEVEL = 'model_checking'
# N random runtime cases, their length, family members, one in how many pairs of transitions (0: none);
# random surface cases, family members, senseless inputs; pairs of variants: random, family
QUICK = dict(run=520, len=15, fam=540, pairs=0, surf=1300, sfam=3200, soup=0, prand=0, pfam=0, lint=0, lfam=0)
THOROUGH = dict(run=500, len=30, fam=700, pairs=6, surf=800, sfam=6000, soup=0, prand=0, pfam=0, lint=0, lfam=0)
SPECIAL = {
    'P15': {'quick': dict(soup=5000, surf=1600), 'thorough': dict(soup=20000, surf=3000)},
    'P20': {'quick': dict(prand=400, pfam=400), 'thorough': dict(prand=900, pfam=1500)},
    'P21': {'quick': dict(run=0, fam=0, lint=700, lfam=700), 'thorough': dict(run=0, fam=0, lint=1200, lfam=2400)},
    'P04': {'quick': dict(surf=250), 'thorough': {}},
    'P02': {'quick': dict(surf=250), 'thorough': {}},
}
THOROUGH_SECONDS = 1500


def size(prop, tier):
    d = dict(THOROUGH if tier == 'thorough' else QUICK)
    d.update(SPECIAL.get(prop, {}).get(tier, {}))
    return d


def mismatches(out):
    r = []
    for line in out.splitlines():
        if line.startswith('"MISMATCH '):
            r.append(json.loads(json.loads(line)[9:]))
    return r


class Check:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.t0 = time.time()
        self.found = []          # violations of this property
        self.elsewhere = {}      # mismatches that belong to other properties
        self.samples = []
        self.lock = threading.Lock()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'spec_states': 0, 'spec_transitions': 0,
                    'runtime_cases': 0, 'runtime_events': 0, 'surface_cases': 0, 'surface_outcomes': {}, 'variant_pairs': 0, 'lint_cases': 0,
                    'compile_failures': 0, 'distinct_configurations': 0, 'rounds': 0}
        self.cfgs = set()

    # ------------------------------------------------------------- helpers
    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def tlc(self, *a, **k):
        r = tools.tlc(*a, **k)
        if not r.ok:
            raise tools.ToolError(f'TLC on {a[0]}:\n{r.out[-3000:]}')
        with self.lock:
            self.cov['states'] += r.states
            self.cov['transitions'] += r.generated
        return r

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] += v

    def note(self, props, what, detail):
        """A difference between the code and the specification, and whose it is."""
        with self.lock:
            if self.prop in props:
                self.found.append((what, detail))
            else:
                k = f'{what} [{",".join(sorted(props))}]'
                self.elsewhere[k] = self.elsewhere.get(k, 0) + 1
                if os.environ.get('VERIF_DEBUG'):
                    with open(os.environ['VERIF_DEBUG'], 'a', encoding='utf-8') as f:
                        f.write(json.dumps({'what': what, 'props': sorted(props), 'detail': detail}, ensure_ascii=False) + '\n')

    def keep(self, cases):
        with self.lock:
            for c in cases:
                self.cfgs.add(hash(json.dumps(c['cfg'], sort_keys=True)))

    # -------------------------------------------------------------- layers
    def surface(self, seed, z):
        w = self.dir(f'surf{seed}')
        cases_f, obs_f = os.path.join(w, 'cases.json'), os.path.join(w, 'obs.json')
        self.tlc('GenSurf', dict(PROP=self.prop, SEED=seed, N=z['surf'], FAM=z['sfam'], SOUP=z['soup'], OUT=cases_f))
        cases = tools.ndjson(cases_f)
        obs, src = l1.observe(w, cases, seed, twice=self.prop == 'P20')
        with open(obs_f, 'w', encoding='utf-8') as f:
            for c in cases:
                f.write(json.dumps(obs[c['id']], ensure_ascii=False) + '\n')
        r = self.tlc('TraceSurface', dict(CASES=cases_f, OBS=obs_f), cfg='TraceSurface.cfg', workers=4)
        by = {c['id']: c for c in cases}
        self.keep(cases)
        oc = {}
        for o in obs.values():
            oc[o['outcome']] = oc.get(o['outcome'], 0) + 1
        with self.lock:
            for k, v in oc.items():
                self.cov['surface_outcomes'][k] = self.cov['surface_outcomes'].get(k, 0) + v
            self.cov['surface_cases'] += len(cases)
            self.cov['traces_validated_against_impl'] += len(cases)
            self.samples.append({'kind': 'surface', 'source': src[cases[0]['id']],
                                 'facts': dict(sorted(obs[cases[0]['id']]['facts'].items())[:25])})
        asked = {}
        for m in mismatches(r.out):
            c = by[m['id']]
            props, extra = set(m['props']), {}
            if m['aspect'] == 'outcome':
                if m['got'] == 'unparsable':
                    raise tools.ToolError('the renderer wrote something that does not parse: ' + src[c['id']] + m['why'])
                if m['want'] == 'items':
                    key = (m['got'], m['why'][:80])
                    if key not in asked and len(asked) < 3:
                        asked[key] = blame.wrong_outcome(w, c, seed, m['got'])
                    if key in asked:
                        p, need, row = asked[key]
                        props |= p
                        extra = {'features': need, 'reduced': render.item(row['cfg'], row['res'], seed * 7919 + row['sid'],
                                                                         neutral=row['neutral'])}
            self.note(props, f'{m["aspect"]}: {m["key"]}', dict(m, source=src[c['id']], seed=seed, **extra))

    def variants(self, seed, z):
        if not z['prand'] and not z['pfam']:
            return
        w = self.dir(f'pairs{seed}')
        cases_f, obs_f = os.path.join(w, 'cases.json'), os.path.join(w, 'obs.json')
        r = self.tlc('GenPairs', dict(SEED=seed, N=z['prand'], FAM=z['pfam'], OUT=cases_f))
        if 'SPEC-DISAGREES' in r.out:
            raise tools.ToolError('the specification tells a configuration from its explicit form: ' + r.out[-1500:])
        rows = tools.ndjson(cases_f)
        obs, src = l1.observe_pairs(w, rows, seed)
        with open(obs_f, 'w', encoding='utf-8') as f:
            for c in rows:
                f.write(json.dumps(obs[c['id']], ensure_ascii=False) + '\n')
        r = self.tlc('TracePairs', dict(CASES=cases_f, OBS=obs_f), cfg='TracePairs.cfg', workers=4)
        self.keep(rows)
        self.add(variant_pairs=len(rows), traces_validated_against_impl=len(rows))
        with self.lock:
            self.samples.append({'kind': rows[1]['kind'] + ' pair', 'sources': src[rows[1]['id']]})
        for m in mismatches(r.out):
            self.note(set(m['props']), f'{m["aspect"]}: {m["key"]}', dict(m, sources=src[m['id']], seed=seed))

    def lints(self, seed, z):
        if not z['lint']:
            return
        w = self.dir(f'lint{seed}')
        cases_f, obs_f = os.path.join(w, 'cases.json'), os.path.join(w, 'obs.json')
        self.tlc('GenLint', dict(SEED=seed, N=z['lint'], FAM=z['lfam'], OUT=cases_f))
        cases = tools.ndjson(cases_f)
        obs = lints.run(w, cases, seed)
        if len(obs) < len(cases) / 2:
            raise tools.ToolError(f'only {len(obs)} of {len(cases)} cases compile under lints')
        with open(obs_f, 'w', encoding='utf-8') as f:
            for c in cases:
                f.write(json.dumps({'lints': obs.get(c['id'], [])}, ensure_ascii=False) + '\n')
        r = self.tlc('TraceLint', dict(CASES=cases_f, OBS=obs_f), cfg='TraceLint.cfg', workers=4)
        by = {c['id']: c for c in cases}
        self.keep(cases)
        self.add(lint_cases=len(obs), traces_validated_against_impl=len(obs))
        with self.lock:
            i = sorted(obs)[0]
            self.samples.append({'kind': 'lints', 'source': render.item(by[i]['cfg'], by[i]['res'], seed * 1000003 + i, public=True),
                                 'lints': obs[i]})
        for m in mismatches(r.out):
            c = by[m['id']]
            self.note(set(m['props']), f'lint {m["key"]}: {re.sub("`[^`]*`", "`_`", m["got"])}',
                      dict(m, seed=seed, lints=obs[m['id']][:3],
                           source=render.module(c, seed * 1000003 + c['id'], public=True, lean=c['lean'])))

    def runtime(self, seed, z):
        if not z['run'] and not z['fam']:
            return
        w = self.dir(f'run{seed}')
        cases_f, ev_f = os.path.join(w, 'cases.json'), os.path.join(w, 'events.json')
        self.tlc('GenRun', dict(PROP=self.prop, SEED=seed, N=z['run'], LEN=z['len'], FAM=z['fam'], PAIRS=z['pairs'], OUT=cases_f))
        cases = tools.ndjson(cases_f)
        typed = [c for c in cases if c['typed']]
        failed, events = l2.run_cases(w, typed, seed)
        with open(ev_f, 'w', encoding='utf-8') as f:
            for i, c in enumerate(cases, 1):
                if c['id'] in events:
                    f.write(json.dumps({'case': i, 'events': events[c['id']]}, ensure_ascii=False) + '\n')
        by = {c['id']: c for c in cases}
        self.keep(typed)
        n = sum(map(len, events.values()))
        self.add(runtime_cases=len(typed), runtime_events=n, traces_validated_against_impl=len(events), compile_failures=len(failed))
        if events:
            r = self.tlc('TraceRun', dict(CASES=cases_f, EVENTS=ev_f), cfg='TraceRun.cfg', workers=4)
            if r.states < n:
                # every event is a step, so there are as many states as events and one more for each trace
                if 'UNCHECKED' not in r.out and not mismatches(r.out):
                    raise tools.ToolError(f'{n} events but only {r.states} states: {r.out[-1500:]}')
            first = {}
            for m in mismatches(r.out):
                c = by[m['id']]
                # what follows the first mismatch of a trace may be its consequence
                self.note(set(m['props']), m['aspect'],
                          dict(m, source=render.module(c, seed * 1000003 + c['id']), history=c['ops'][:m['at']], seed=seed))
            i = sorted(events)[0]
            with self.lock:
                self.samples.append({'kind': 'runtime', 'source': render.item(by[i]['cfg'], by[i]['res'], seed * 1000003 + i),
                                     'trace': [dict(op=o, event=e) for o, e in list(zip(by[i]['ops'], events[i]))[:6]]})
        asked = {}
        for tid, errs in sorted(failed.items()):
            tagged = [e for e in errs if e['tags']]
            c = by[tid]
            src = render.module(c, seed * 1000003 + c['id'])
            if len(tagged) == len(errs):
                props, extra = set().union(*(e['tags'] for e in tagged)), {}
            else:
                e = next(e for e in errs if not e['tags'])
                key = (e['code'], re.sub(r'`[^`]*`', '`_`', e['message'])[:60])
                if key not in asked and len(asked) < 3:
                    asked[key] = blame.compile_failure(self.dir(f'blame{seed}'), c, seed)
                props, need, row = asked.get(key, ({'P15'}, [], None))
                extra = {'features': need}
                if row:
                    extra['reduced'] = render.module(dict(row, id=row['sid']), seed * 1000003 + row['sid'], row['neutral'])
            self.note(props, 'does not compile: ' + errs[0]['message'][:100],
                      dict(id=tid, seed=seed, errors=[e['rendered'] for e in errs[:3]], source=src, edition=errs[0]['edition'],
                           props=sorted(props), **extra))

    def model(self):
        """TLC on the property itself, over the specification alone."""
        import mc
        mc.check(self)

    # ---------------------------------------------------------------- whole
    def round(self, seed, z, with_model):
        jobs = [lambda: self.surface(seed, z), lambda: self.runtime(seed, z), lambda: self.variants(seed, z), lambda: self.lints(seed, z)]
        if with_model:
            jobs.append(self.model)
        with ThreadPoolExecutor(len(jobs)) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()
        self.add(rounds=1)

    def libraries(self):
        """Builds the library and the harness; a library that only builds in some feature sets is a finding of P19."""
        for lib in ('std', 'alloc', 'none'):
            try:
                l2.support(lib)
                l1.expander(lib)
            except tools.BuildError as e:
                if lib == 'std':
                    if e.package == 'vsupport' and self.prop in ('P10', 'P19'):
                        self.note({'P10', 'P19'}, 'library interface', {'errors': e.text, 'seed': self.seed})
                        return False
                    raise
                if self.prop == 'P19':
                    self.note({'P19'}, f'library does not build with features {lib}', {'errors': e.text, 'seed': self.seed})
                    return False
                raise
        return True

    def main(self):
        z = size(self.prop, self.tier)
        if self.libraries():
            self.round(self.seed % 1400, z, True)
            if self.tier == 'thorough':
                k = 1
                while time.time() - self.t0 < THOROUGH_SECONDS * 0.8 and not self.found:
                    self.round((self.seed + 37 * k) % 1400, z, False)
                    k += 1
        return self.verdict()

    def known(self):
        """Recorded findings: `finding: property=<id> match=<text>` in known_findings.txt."""
        r = []
        p = os.path.join(tools.VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                m = re.match(r'finding: property=(\S+) match=(.*)', line.strip())
                if m and m.group(1) == self.prop:
                    r.append(m.group(2))
        return r

    def verdict(self):
        fresh, old = [], set()
        for what, detail in self.found:
            text = what + ' ' + json.dumps(detail, ensure_ascii=False, sort_keys=True)
            hit = next((k for k in self.known() if k in text), None)
            if hit:
                old.add(hit)
            else:
                fresh.append((what, detail))
        for k in sorted(old):
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        replay = ''
        if fresh:
            d = os.path.join(tools.BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, f'{self.prop}-{self.tier}-{self.seed}.json')
            with open(replay, 'w', encoding='utf-8') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                           'rerun': f'cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./check.py {self.prop}',
                           'violations': [{'what': w, 'detail': x} for w, x in fresh[:20]], 'count': len(fresh)},
                          f, indent=1, ensure_ascii=False)
        self.cov['distinct_configurations'] = len(self.cfgs)
        self.cov['samples'] = self.samples[:4]
        if self.elsewhere:
            self.cov['differences_belonging_to_other_properties'] = dict(sorted(self.elsewhere.items())[:20])
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': LEVEL, 'coverage': self.cov,
              'assumptions': ['the harness types stand for all types of their kind', 'rustc ' + tools.TOOLCHAIN + ' and TLC are correct',
                              'the expander reads the generated items as rustc does'],
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(fresh)}
        os.makedirs(os.path.join(tools.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(tools.VERIF, 'evidence', self.prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        c = self.cov
        print(f'{self.prop}: {c["surface_cases"]} surface cases, {c["variant_pairs"]} pairs, {c["runtime_cases"]} runtime cases with '
              f'{c["runtime_events"]} events, {c["states"]} states; {len(self.found)} violations, '
              f'{sum(self.elsewhere.values())} differences of other properties; {ev["wall_s"]} s')
        seen = set()
        for w, x in fresh:
            if w not in seen and len(seen) < 8:
                seen.add(w)
                print('  ' + w)
        for k, n in sorted(self.elsewhere.items())[:6]:
            print(f'  (not of {self.prop}: {k} x{n})')
        if fresh:
            print(f'VIOLATION property={self.prop} replay={replay}')
            return 1
        return 0
