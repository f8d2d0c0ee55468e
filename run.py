#!/usr/bin/env python3
"""Runs the monitors of one property against /repo: run.py <property> [quick|thorough]

exit 0: nothing was violated; 1: a violation (with a VIOLATION line); 2: no verdict."""
import collections, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource
import shutil, signal, struct, subprocess, sys, time, zipfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
SHARDS = 8
TARGET = 'x86_64-unknown-linux-gnu'
INSTRUMENTED = {
    'asan': ('-Zsanitizer=address', []),
    'tsan': ('-Zsanitizer=thread', ['-Zbuild-std']),
    'msan': ('-Zsanitizer=memory -Zsanitizer-memory-track-origins', ['-Zbuild-std']),
}
# a platform of 32 bits, run by the processor, and one with the other byte order, interpreted by Miri
TARGET32 = 'i686-unknown-linux-gnu'
TARGETBE = 's390x-unknown-linux-gnu'
SAN_EXIT = 99
# how much of each workload that is no enumeration a quick run does, in percent of what the registry lists
QUICK = {'C02': 400, 'C03': 1500, 'C04': 1500, 'C05': 500, 'C06': 600, 'C07': 500, 'C08': 400, 'C09': 1500, 'C10': 2000,
         'C11': 2000, 'C12': 1000, 'C13': 500, 'C14': 1500, 'C15': 2500, 'C16': 800, 'C17': 800, 'C18': 3000, 'C19': 1500,
         'C22': 1500, 'C28': 300, 'C30': 200}

with open(os.path.join(VERIF, 'tools', 'rules.json')) as f:
    RULES = json.load(f)


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), HARNESS, os.path.join(VERIF, 'tools')]
    files = [os.path.join(REPO, x) for x in ('Cargo.toml', 'Cargo.lock', 'build.rs')]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '__pycache__'))
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def env_for(kind):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTUP_TOOLCHAIN',
              'CARGO_BUILD_TARGET', 'RUST_BACKTRACE', 'MIRIFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['LLVM_PROFILE_FILE'] = '/dev/null'
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, kind)
    if kind == 'cov':
        e['RUSTC_WRAPPER'] = os.path.join(VERIF, 'tools', 'rustc-cov.sh')
    elif kind == 'x32':
        e['RUSTFLAGS'] = '-Crelocation-model=static'
        e['CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER'] = os.path.join(VERIF, 'tools', 'ld32.sh')
    elif kind in ('miri', 'miribe'):
        e['XDG_CACHE_HOME'] = os.path.join(BUILD, 'xdg')
        e['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-ignore-leaks'
    elif kind in INSTRUMENTED:
        e['RUSTFLAGS'] = INSTRUMENTED[kind][0]
        e['ASAN_OPTIONS'] = f'exitcode={SAN_EXIT}:detect_leaks=0:detect_stack_use_after_return=1'
        e['TSAN_OPTIONS'] = f'exitcode={SAN_EXIT}:halt_on_error=1:report_signal_unsafe=0'
        e['MSAN_OPTIONS'] = f'exitcode={SAN_EXIT}:halt_on_error=1'
    return e


def sh(cmd, env, what):
    r = subprocess.run(cmd, env=env, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise NoVerdict(f'{what} failed:\n{r.stdout[-4000:]}')


def build(kind):
    """builds the harness and jbcrs from the current tree; returns the executable"""
    os.makedirs(BUILD, exist_ok=True)
    t = os.path.join(BUILD, kind)
    os.makedirs(t, exist_ok=True)
    env = env_for(kind)
    exe = {
        'cov': f'{t}/release/jbmon', 'dbg': f'{t}/debug/jbmon', 'miri': '', 'miribe': '',
        'x32': f'{t}/{TARGET32}/release/jbmon',
    }.get(kind, f'{t}/{TARGET}/release/jbmon')
    with open(os.path.join(BUILD, kind + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = source_hash()
        stamp = os.path.join(BUILD, kind + '.stamp')
        have = open(stamp).read() if os.path.exists(stamp) else ''
        if have == want and (not exe or os.path.exists(exe)):
            return exe
        start = time.time()
        tool = ['cargo'] + (['+nightly'] if kind in ('miri', 'miribe', 'x32') or kind in INSTRUMENTED else [])
        target = {'x32': ['--target', TARGET32], 'miribe': ['--target', TARGETBE]}.get(kind, ['--target', TARGET] if kind in INSTRUMENTED else [])
        if os.path.exists(stamp):
            os.remove(stamp)
        # mtimes decide nothing: whatever an earlier tree left behind goes first
        clean = tool + ['clean', '--offline', '-p', 'jbcrs', '-p', 'jbmon'] + target
        if have or os.listdir(t):
            subprocess.run(clean, env=env, cwd=HARNESS, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if kind in ('miri', 'miribe'):
            sh(tool + ['miri', 'setup'] + target, env, 'miri setup')
            shutil.rmtree(os.path.join(t, 'miri'), ignore_errors=True)
            sh(tool + ['miri', 'run', '--offline'] + target + ['--', 'union', '/nonexistent', '0'], env, 'building for miri')
        else:
            cmd = tool + ['build', '--offline']
            if kind != 'dbg':
                cmd.append('--release')
            cmd += target + (INSTRUMENTED[kind][1] if kind in INSTRUMENTED else ['-Zbuild-std'] if kind == 'x32' else [])
            sh(cmd, env, f'building ({kind})')
        with open(stamp, 'w') as f:
            f.write(want)
        log(f'built {kind} in {time.time() - start:.1f} s')
    return exe


def can32():
    """whether this machine has what it takes to run programs of 32 bits"""
    return os.path.exists('/lib32/libc.so.6') and os.path.exists('/lib32/libgcc_s.so.1') and shutil.which('clang') is not None


def jdk(thorough):
    """real classes as a blob, from the JDK that is installed here; '-' if there is none"""
    mods = sorted({os.path.realpath(m) for m in glob.glob('/usr/lib/jvm/*/jmods/*.jmod')})
    if not thorough:
        mods = [m for m in mods if os.path.basename(m) == 'java.base.jmod'][:1]
    if not mods:
        return '-', 0
    out = os.path.join(BUILD, 'jdk-all.bin' if thorough else 'jdk.bin')
    with open(out + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            with open(out + '.tmp', 'wb') as f:
                for m in mods:
                    z = zipfile.ZipFile(m)
                    for i in z.infolist():
                        if i.filename.endswith('.class'):
                            b = z.read(i)
                            f.write(struct.pack('>I', len(b)) + b)
            os.rename(out + '.tmp', out)
    return out, len(mods)


# ---------------------------------------------------------------- running

Dead = collections.namedtuple('Dead', 'what workload idx data run', defaults=[None])


class Run:
    """8 workers over the workloads of a property, in one build"""

    def __init__(self, prop, kind, tier, seed, seconds, scale=100, only=None, name=None):
        self.prop, self.kind, self.tier, self.seed = prop, kind, tier, seed
        self.seconds, self.scale, self.only = seconds, scale, only
        self.name = name or kind
        self.dir = os.path.join(SCRATCH, self.name)
        self.results, self.violations, self.problems = [], [], []
        self.distinct = 0

    def command(self, exe, shard):
        a = ['work', self.prop, str(shard), str(SHARDS), self.tier, str(self.seed), self.dir, JDK, str(self.seconds), str(self.scale)]
        if self.only:
            a.append(self.only)
        if self.kind in ('miri', 'miribe'):
            return ['cargo', '+nightly', 'miri', 'run', '--offline', '-q'] + (['--target', TARGETBE] if self.kind == 'miribe' else []) + ['--'] + a
        return [exe] + a

    def limits(self):
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if self.kind in ('cov', 'dbg'):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        os.setpgid(0, 0)

    def go(self):
        exe = build(self.kind)
        os.makedirs(self.dir)
        start = time.time()
        env = env_for(self.kind)
        procs = []
        for s in range(SHARDS):
            err = open(f'{self.dir}/stderr.{s}', 'w')
            procs.append(subprocess.Popen(self.command(exe, s), env=env, cwd=HARNESS, stdout=err, stderr=err, preexec_fn=self.limits))
        end = start + self.seconds + 240
        for s, p in enumerate(procs):
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                self.problems.append(f'{self.name}: worker {s} did not end')
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                continue
            self.ended(s, p.returncode)
        if self.kind in ('cov', 'dbg', 'x32'):
            r = subprocess.run([exe, 'union', self.dir, str(SHARDS)], env=env, stdout=subprocess.PIPE, text=True)
            self.distinct = int(r.stdout or 0)
        else:
            seen = set()
            for s in range(SHARDS):
                if os.path.exists(f'{self.dir}/hashes.{s}'):
                    b = open(f'{self.dir}/hashes.{s}', 'rb').read()
                    seen.update(x[0] for x in struct.iter_unpack('<Q', b))
            self.distinct = len(seen)
        self.wall = time.time() - start
        return self

    def ended(self, shard, code):
        for v in sorted(glob.glob(f'{self.dir}/viol.{shard}.*')):
            b = open(v, 'rb').read()
            w, i, m, data = b.split(b'\n', 3)
            self.violations.append(Dead(m.decode(errors='replace'), w.decode(), int(i), data, self))
        err = open(f'{self.dir}/stderr.{shard}', errors='replace').read()
        if code == 0:
            with open(f'{self.dir}/result.{shard}') as f:
                self.results.append(json.load(f))
            return
        what = None
        if code == SAN_EXIT and self.kind in INSTRUMENTED or self.kind in INSTRUMENTED and 'Sanitizer:' in err and code != 101:
            m = re.search(r'(ERROR|WARNING): (\w+Sanitizer.*)', err)
            what = f'{m[2] if m else "sanitizer report"} ({excerpt(err)})'
        elif self.kind in ('miri', 'miribe') and 'Undefined Behavior' in err:
            m = re.search(r'error: Undefined Behavior: .*', err)
            what = f'{m[0] if m else "undefined behaviour"} ({excerpt(err)})'
        elif code == 77:
            what = 'the parse did not end within its step limit'
        elif code < 0 and -code not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            what = f'the process died of {signal.Signals(-code).name} ({err.strip()[-300:]})'
        if what is None:
            self.problems.append(f'{self.name}: worker {shard} ended with {code}: {err[-1500:]}')
            return
        w, i, data = '?', 0, b''
        try:
            b = open(f'{self.dir}/inflight.{shard}', 'rb').read()
            h = b[:64].decode(errors='replace').split('\n')[0].rsplit(' ', 2)
            w, i, data = h[0], int(h[1]), b[64:64 + int(h[2])]
        except (OSError, ValueError, IndexError):
            pass
        self.violations.append(Dead(what.replace('\n', ' '), w, i, data, self))


def excerpt(err):
    keep = [l.strip() for l in err.splitlines() if re.search(r'jbcrs|error:|-->|SUMMARY', l)]
    return ' | '.join(keep[:8])[:700]


def callgrind(tier, workers=SHARDS):
    """instructions per input family at growing sizes, counted by valgrind"""
    exe = build('cov')
    env = env_for('cov')
    families = subprocess.run([exe, 'linear', 'list'], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n')[:-1]
    scales = [4, 16, 64] if tier == 'thorough' else [3, 9, 32]

    def growth(a, b):
        return (b[1] / max(1, a[1])) / (b[0] / a[0])

    def one(i):
        d = os.path.join(SCRATCH, f'callgrind.{i}')
        os.makedirs(d)
        got = {}
        for n, k in enumerate(scales):
            # a family that has grown too fast would take too long at the next scale
            mine = [f for f in families[i::workers] if not (k == 64 and f in ('constants/push 5', 'constants/push 6'))
                    and not (n > 1 and (f, scales[n - 1]) in got and growth(got[f, scales[n - 2]], got[f, scales[n - 1]]) > 2.5)
                    and not (n and (f, scales[n - 1]) not in got)]
            if not mine:
                continue
            r = subprocess.run(
                ['valgrind', '--tool=callgrind', '--instr-atstart=no', f'--callgrind-out-file={d}/o{k}', exe, 'linear', 'run', str(k), '--'] + mine,
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=700 if tier == 'quick' else 3600)
            if r.returncode:
                raise NoVerdict(f'valgrind ended with {r.returncode}: {r.stdout[-1500:]}')
            for f in glob.glob(f'{d}/o{k}.*'):
                t = open(f, errors='replace').read()
                m, s = re.search(r'Client Request: (.*)\n', t), re.search(r'totals: (\d+)', t)
                if m and s:
                    fam, kk, n = m[1].split('|')
                    got[(fam, int(kk))] = (int(n), int(s[1]))
        return got

    res = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        for o in ex.map(one, range(workers)):
            res.update(o)
    bad, rows = [], []
    for f in families:
        v = [res[(f, k)] for k in scales if (f, k) in res]
        if len(v) < 2:
            raise NoVerdict(f'no counts for {f}')
        for (n1, c1), (n2, c2) in zip(v, v[1:]):
            ratio = growth((n1, c1), (n2, c2))
            rows.append((ratio, f, n1, n2, c1, c2))
            if ratio > 2.5:
                bad.append(Dead(f'{c1} instructions for {n1} bytes but {c2} for {n2}: the work grows faster than the input ({f})', f'callgrind {f}', 0, b''))
        for n, c in v:
            if c > 5000 * n + 1_000_000:
                bad.append(Dead(f'{c} instructions for {n} bytes ({f})', f'callgrind {f}', 0, b''))
    rows.sort(reverse=True)
    return len(rows) + len(families), bad, {
        'families': len(families),
        'scales': scales,
        'growth of instructions over growth of input, greatest': [{'family': r[1], 'bytes': [r[2], r[3]], 'instructions': [r[4], r[5]], 'ratio': round(r[0], 3)} for r in rows[:8]],
        'instructions per byte, greatest': round(max(r[5] / r[3] for r in rows), 1),
    }


# ---------------------------------------------------------------- findings

def known():
    """listed findings: finding: property=<id> sha256=<of the input>|message=<start of the report> <what fails>"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (sha256|message)=("[^"]*"|\S+) (.*)', l.strip())
            if m:
                out.append((m[1], m[2], m[3].strip('"'), m[4]))
    return out


def split_known(prop, violations):
    fresh, seen = [], []
    for v in violations:
        for p, how, key, what in known():
            if p == prop and (how == 'sha256' and v.data and hashlib.sha256(v.data).hexdigest() == key or how == 'message' and v.what.startswith(key)):
                seen.append(what)
                break
        else:
            fresh.append(v)
    return fresh, sorted(set(seen))


def add(a, b, how):
    for k, v in b.items():
        a[k] = how(a[k], v) if k in a else v


def main():
    global SCRATCH, JDK
    prop = sys.argv[1] if len(sys.argv) > 1 else ''
    os.makedirs(BUILD, exist_ok=True)
    if prop == 'setup':
        jdk(False)
        with cf.ThreadPoolExecutor(6) as ex:
            list(ex.map(build, ['cov', 'dbg', 'asan', 'tsan', 'miri'] + (['x32'] if can32() else [])))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) & (2 ** 63 - 1)
    if tier not in ('quick', 'thorough') or prop not in RULES:
        sys.exit('usage: run.py <property> [quick|thorough]')
    start = time.time()
    thorough = tier == 'thorough'
    SCRATCH = os.path.join(BUILD, 'run', f'{prop}.{os.getpid()}')
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    problems, runs, extra, extra_evals = [], [], {}, 0
    violations = []
    seconds = 600 if thorough else 200
    scale = 100 if thorough else QUICK.get(prop, 100)
    try:
        JDK, modules = jdk(thorough)
        extra['JDK modules read'] = modules
        todo = [Run(prop, 'cov', tier, seed, seconds, scale)]
        if prop == 'C02':
            todo = [Run(prop, kind, tier, seed, seconds // 2, scale) for kind in ('cov', 'dbg')]
        if prop == 'C29':
            todo = [Run(prop, 'asan', tier, seed, 150, scale),
                    Run('C29m', 'miri', tier, seed, 250 if thorough else 60),
                    Run(prop, 'tsan', tier, seed, 100, scale, None if thorough else 'threads')]
            if thorough:
                todo += [Run(prop, 'msan', tier, seed, 100)]
        if prop == 'C28' and thorough:
            todo.append(Run('C28m', 'miribe', tier, seed, 250))
        if prop not in ('C29', 'C30'):
            # there is no reason why a platform of 32 bits should see the same inputs
            if can32():
                todo.append(Run(prop, 'x32', tier, seed + 1, seconds // 2, scale // 2))
            else:
                extra['platform of 32 bits'] = 'not observed: the runtime libraries for it are missing'
        with cf.ThreadPoolExecutor(len(todo)) as ex:
            list(ex.map(build, [r.kind for r in todo]))
        for r in todo:
            runs.append(r.go())
            violations += r.violations
            problems += r.problems
            if r.violations:
                break
        if prop == 'C30' and not violations:
            extra_evals, v, extra['callgrind'] = callgrind(tier)
            violations += v
    except NoVerdict as e:
        problems.append(str(e))
    finally:
        pass

    stats, maxs, samples, coverage_runs = {}, {}, [], {}
    evals, distinct, skipped = extra_evals, 0, 0
    for r in runs:
        s, m, ms, hit, regions = {}, {}, {}, set(), 0
        for x in r.results:
            add(s, x['stats'], lambda a, b: a + b)
            add(m, x['maxs'], max)
            add(ms, x['ms'], lambda a, b: a + b)
            hit.update(x['hit'])
            regions = x['regions']
        e = sum(x['evals'] for x in r.results)
        evals += e
        distinct = max(distinct, r.distinct)
        skipped += sum(x['skipped'] for x in r.results)
        coverage_runs[r.name] = {
            'evaluations': e, 'distinct': r.distinct, 'observed': dict(sorted(s.items())[:150]), 'greatest': m,
            'cpu ms by workload': ms, 'wall_s': round(r.wall, 1),
        }
        if regions:
            coverage_runs[r.name]['code regions of jbcrs entered'] = f'{len(hit)} of {regions}'
        if len(samples) < 12:
            for k in range(4):
                samples += [x['samples'][k][:500] for x in r.results[k::4] if len(x['samples']) > k][:3]
    for f in extra.get('callgrind', {}).get('growth of instructions over growth of input, greatest', [])[:3]:
        samples.append(json.dumps(f))
    if runs and not problems and not violations and (evals == 0 or distinct == 0):
        problems.append('nothing was observed')

    fresh, listed = split_known(prop, violations)
    cov = {'evaluations': evals, 'distinct_nontrivial': distinct, 'rule': RULES[prop], 'samples': samples[:14] or ['none'],
           'runs': coverage_runs, 'cases left out for lack of time': skipped}
    cov.update(extra)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
        'assumptions': ['the reference decoder and encoder of the harness follow the Java SE 9 class file format',
                        'compiler, sanitizers and standard library do what they document'],
        'wall_s': round(time.time() - start, 2), 'violations': len(fresh),
    }
    if problems:
        evidence['problems'] = [p[:1500] for p in problems[:5]]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    text = json.dumps(evidence, indent=1)
    if len(text) > 60000:
        cov['samples'] = cov['samples'][:3]
        for r in coverage_runs.values():
            r['observed'] = dict(list(r['observed'].items())[:40])
        text = json.dumps(evidence, indent=1)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        f.write(text)

    for l in listed:
        log(f'KNOWN-FINDING: property={prop} {l}')
    replays = os.path.join(VERIF, 'replays')
    shown = set()
    for v in fresh:
        if len(shown) >= 5 or v.what in shown:
            continue
        shown.add(v.what)
        os.makedirs(replays, exist_ok=True)
        base = os.path.join(replays, f'{prop}-{tier}-{seed}-{len(shown)}')
        with open(base + '.txt', 'w') as f:
            f.write(f'property: {prop}\nworkload: {v.workload}\ncase: {v.idx}\nseed: {seed}\ntier: {tier}\nreport: {v.what}\n')
            if v.run:
                f.write(f'build: {v.run.kind}\nagain: jbmon replay {v.run.prop} {v.run.seed} {tier} "{v.workload}" {v.idx} {JDK}\n')
            if v.data:
                f.write(f'input: {base}.bin (jbmon bytes FILE shows what jbcrs and the reference say)\n')
        if v.data:
            with open(base + '.bin', 'wb') as f:
                f.write(v.data)
        log(f'[{v.run.kind + " " if v.run else ""}{v.workload} {v.idx}] {v.what[:600]}')
        log(f'VIOLATION property={prop} replay={base}.txt')
    shutil.rmtree(SCRATCH, ignore_errors=True)
    log(f'{prop} {tier} seed {seed}: {evals} evaluations, {distinct} distinct, {len(fresh)} violations, {time.time() - start:.1f} s')
    if fresh:
        return 1
    if problems:
        for p in problems:
            log('no verdict:', p)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
