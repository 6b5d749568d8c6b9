#!/usr/bin/env python3
"""Runs trial edits (tools/trials/*.py) in private copies of /repo and /verif, bound over the real ones in mount
namespaces of their own: trial.py [-j N] [ID...]   Each edit: the quick check of its property; prints what happened.
Also seed:ID (or seed:*) for the planted bugs in /verif/seeded."""
import fnmatch, glob, json, os, runpy, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.abspath(__file__))
W = '/tmp/trials'


def prepare(n):
    d = f'{W}/{n}'
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude=/build/replay', '/repo/', d + '/repo/'], check=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude=/build', '/verif/', d + '/verif/'], check=True)
    if not os.path.isdir(d + '/verif/build'):
        subprocess.run(['cp', '-a', '/verif/build', d + '/verif/build'], check=True)
    return d


def main():
    a = sys.argv[1:]
    j = 2
    if a[:1] == ['-j']:
        j, a = int(a[1]), a[2:]
    props = [x for x in a if x[0] == 'P' and x[1:].isdigit()]
    a = [x for x in a if x not in props]
    T = []
    for f in sorted(glob.glob(HERE + '/trials/*.py')):
        T += runpy.run_path(f)['T']
    T = [t for t in T if not a or t[0] in a or any(x.endswith('*') and t[0].startswith(x[:-1]) for x in a)]
    for x in a:
        if x.startswith('seed:'):
            for d in sorted(glob.glob('/verif/seeded/*')):
                if fnmatch.fnmatch(os.path.basename(d), x[5:]):
                    T.append((os.path.basename(d), json.load(open(d + '/meta.json'))['property'], d + '/patch.diff'))
    free = queue.Queue()
    for n in range(j):
        free.put(prepare(n))

    def one(t):
        i, own, edits = t
        d = free.get()
        try:
            subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            if isinstance(edits, str):
                r = subprocess.run(['git', '-C', d + '/repo', 'apply', edits])
                if r.returncode:
                    print(i, 'DOES NOT APPLY', flush=True)
                    return
                edits = []
            for path, old, new in edits:
                p = f'{d}/repo/{path}'
                s = open(p).read()
                n = s.split('mod tests {')[0].count(old)
                if n != 1:
                    print(i, 'DOES NOT APPLY', path, n, flush=True)
                    return
                open(p, 'w').write(s.replace(old, new, 1))
            for p in props or [own]:
                t0 = time.time()
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && ./check.py {p}'],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                lines = [l.strip() for l in r.stdout.splitlines()]
                body = lines[1:-1] if r.returncode == 1 else ['quiet: ' + lines[0]] if r.returncode == 0 else lines[-25:]
                print(f'{i:36} {p} {({0: "quiet", 1: "CAUGHT"}).get(r.returncode, "rc%d" % r.returncode)} {time.time() - t0:.0f}s  ' + (' | '.join(body[:3])[:230] if r.returncode < 2 else '\n'.join(body)), flush=True)
        finally:
            subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
            free.put(d)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(one, T))


main()
