"""The properties on the specification itself: TLC over spec/Props.tla and spec/SurfProps.tla.

Nothing here looks at the code; a failure means that the specification does not
have the properties it is used to check the code against, which is an error of
the machinery.
"""
import tools

RUNTIME = {'P%02d' % i for i in range(1, 12)} | {'P16', 'P17', 'P18', 'P19'}
SURFACE = {'P05', 'P06', 'P07', 'P08'} | {'P%02d' % i for i in range(10, 22)}


def check(chk):
    thorough = chk.tier == 'thorough'
    jobs = []
    if chk.prop in RUNTIME:
        jobs.append(('Props', dict(CONFIGS=400 if thorough else 40, DEPTH=6 if thorough else 4)))
    if chk.prop in SURFACE:
        jobs.append(('SurfProps', dict(CONFIGS=800 if thorough else 16)))
    for module, size in jobs:
        r = tools.tlc(module, dict(PROP=chk.prop, SEED=chk.seed % 1400, **size), cfg=module + '.cfg',
                      workers=4 if thorough else 2, timeout=1500)
        if not r.ok:
            raise tools.ToolError(f'{module} for {chk.prop}: ' + r.out[-4000:])
        if r.states < 100:
            raise tools.ToolError(f'{module} for {chk.prop} reached only {r.states} states')
        chk.add(spec_states=r.states, spec_transitions=r.generated, states=r.states, transitions=r.generated)
