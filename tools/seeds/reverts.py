#!/usr/bin/env python3
"""Reverts each fix: commit in a copy and runs the checks that known_findings.txt names for it; used by hand.

reverts.py [commit...]; where later commits changed the same lines, the revert may not apply and is reported as such."""
import collections, os, re, shutil, subprocess, sys, concurrent.futures as cf
W = '/tmp/reverts'
todo = collections.OrderedDict()
for l in open('/verif/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+)', l)
    if m and (len(sys.argv) < 2 or m[2] in sys.argv[1:]):
        todo.setdefault(m[2], []).append(m[1])

def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def worker(k):
    d = f'{W}/{k}'
    os.makedirs(d)
    sh('git', 'clone', '-q', '/repo', d + '/repo')
    sh('cp', '-a', '/repo/Cargo.lock', d + '/repo/')
    sh('cp', '-a', '/verif', d + '/verif')
    for commit, props in list(todo.items())[k::3]:
        r = sh('git', '-C', d + '/repo', 'revert', '-n', commit)
        if r.returncode:
            print(commit, 'cannot be reverted alone', flush=True)
            sh('git', '-C', d + '/repo', 'reset', '-q', '--hard')
            continue
        for p in props:
            r = sh('unshare', '-m', 'bash', '-c', f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec python3 run.py {p} quick')
            first = [l for l in r.stdout.splitlines() if l.startswith('[') or l.startswith('no verdict')]
            ok = r.returncode == 1 and 'VIOLATION property=' + p in r.stdout
            print(commit, p, 'CAUGHT' if ok else 'MISSED', r.returncode, first[0][:160] if first else r.stdout[-300:], flush=True)
        sh('git', '-C', d + '/repo', 'reset', '-q', '--hard')

shutil.rmtree(W, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    list(ex.map(worker, range(3)))
shutil.rmtree(W, ignore_errors=True)
