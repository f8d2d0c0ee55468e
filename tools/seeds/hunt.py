#!/usr/bin/env python3
"""Runs checks against the seeded changes: hunt.py [-j N] [id[:check,check]...]; used by hand, no check needs it.

Every one runs in a mount namespace of its own, where copies lie at /repo and /verif."""
import json, os, shutil, subprocess, sys, time, concurrent.futures as cf
S = os.environ.get('SEEDS_OUT', '/verif/seeded')
W = '/tmp/hunt'
a = sys.argv[1:]
jobs = 3
if a[:1] == ['-j']:
    jobs = int(a[1])
    a = a[2:]
tier = 'quick'
if a[:1] == ['-t']:
    tier = 'thorough'
    a = a[1:]
todo = a or sorted(os.listdir(S))

def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def worker(k):
    d = f'{W}/{k}'
    os.makedirs(d)
    sh('git', 'clone', '-q', '/repo', d + '/repo')
    sh('cp', '-a', '/repo/Cargo.lock', d + '/repo/')
    # no -a for the sources of the repository: cargo goes by the time of change
    sh('cp', '-a', '/verif', d + '/verif')
    for x in todo[k::jobs]:
        i, _, checks = x.partition(':')
        m = json.load(open(f'{S}/{i}/meta.json'))
        r = sh('git', '-C', d + '/repo', 'apply', f'{S}/{i}/patch.diff')
        if r.returncode:
            print(i, 'does not apply', r.stdout)
            continue
        for c in checks.split(',') if checks else [m['property']]:
            t = time.time()
            r = sh('unshare', '-m', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec python3 run.py {c} {tier}')
            first = [l for l in r.stdout.splitlines() if l.startswith('[') or l.startswith('no verdict')]
            ok = r.returncode == 1 and 'VIOLATION property=' + c in r.stdout
            print(f'{i:28} {c} exit {r.returncode} {time.time() - t:5.1f} s  {"CAUGHT" if ok else "MISSED"}  {first[0][:200] if first else r.stdout[-300:] if r.returncode else ""}', flush=True)
        sh('git', '-C', d + '/repo', 'checkout', '-q', '--', '.')

shutil.rmtree(W, ignore_errors=True)
with cf.ThreadPoolExecutor(jobs) as ex:
    list(ex.map(worker, range(jobs)))
shutil.rmtree(W, ignore_errors=True)
