#!/usr/bin/env python3
"""Writes and validates /verif/seeded/*: mk.py [id...]; used by hand, no check needs it."""
import glob, importlib, json, os, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUGS = []
for f in sorted(glob.glob(HERE + '/bugs*.py')):
    BUGS += importlib.import_module(os.path.basename(f)[:-3]).BUGS
assert len({b['id'] for b in BUGS}) == len(BUGS)
OUT = os.environ.get('SEEDS_OUT', '/verif/seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def one(b, slot):
    w = f'/tmp/seedwork/{slot}'
    sh(['git', 'checkout', '-q', '--', '.'], w)
    edits = b['edits'] if isinstance(b['edits'], list) else [b['edits']]
    for e in edits:
        f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1 and not b.get('many'):
            return f'{b["id"]}: {s.count(old)} matches of {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new, 1))
    d = os.path.join(OUT, b['id'])
    os.makedirs(d, exist_ok=True)
    patch = sh(['git', 'diff'], w).stdout
    open(d + '/patch.diff', 'w').write(patch)
    if 'script' in b:
        open(d + '/demo.sh', 'w').write(b['script'])
    else:
        shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
        shutil.copy(HERE + '/mini.rs', d + '/mini.rs')
    open(d + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # the demo on the unchanged tree and on the changed one; the tests on the changed one
    env = dict(os.environ, CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true')
    t = sh(['cargo', 'test', '--workspace', '--offline'], w, env=env)
    passed = sum(int(x.split(' passed')[0].split()[-1]) for x in t.stdout.splitlines() if x.startswith('test result: ok'))
    if t.returncode or passed != 20:
        return f'{b["id"]}: tests: {passed} passed\n{t.stdout[-1500:]}'
    bad = sh(['bash', d + '/demo.sh'], w)
    sh(['git', 'checkout', '-q', '--', '.'], w)
    good = sh(['bash', d + '/demo.sh'], w)
    if good.returncode != 0:
        return f'{b["id"]}: demo fails on the unchanged tree ({good.returncode})\n{good.stdout[-1500:]}'
    if bad.returncode == 0 or bad.returncode == 3:
        return f'{b["id"]}: demo: {bad.returncode} with the change\n{bad.stdout[-800:]}'
    return None

def main():
    ids = sys.argv[1:]
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    shutil.rmtree('/tmp/seedwork', ignore_errors=True)
    os.makedirs('/tmp/seedwork')
    n = min(8, len(todo))
    for k in range(n):
        sh(['git', 'clone', '-q', '/repo', f'/tmp/seedwork/{k}'], '/tmp')
    def worker(k):
        out = []
        for b in todo[k::n]:
            out.append((b['id'], one(b, k)))
        return out
    bad = 0
    with cf.ThreadPoolExecutor(n) as ex:
        for o in ex.map(worker, range(n)):
            for i, e in o:
                if e:
                    bad += 1
                    print('BAD', e)
    print(len(todo) - bad, 'of', len(todo), 'valid')
    shutil.rmtree('/tmp/seedwork', ignore_errors=True)

main()
