#!/usr/bin/env python3
"""Builds and runs the check of one property:  run.py C05   (VERIF_TIER, VERIF_SEED in the environment)
   Replay of a violation:                      run.py C05 --replay replays/C05-....json

Exit 0: the property held on everything observed. Exit 1 with a VIOLATION line: it is broken.
Exit 2: no answer (harness does not build, nothing was observed, ...)."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS, PACKAGES  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
CACHE = os.path.join(VERIF, 'build')
FLAVORS = {
    # address + undefined, asserts on, uninitialised stack variables and heap filled with a pattern
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS'],
    # plain: only for long numerical searches where the sanitizer run is done separately
    'fast': ['-O2', '-g1', '-D_GLIBCXX_ASSERTIONS'],
}
LINK = {'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread'], 'fast': []}
LIBS = ['-lfmt', '-lpcl_io', '-lpcl_filters', '-lpcl_kdtree', '-lpcl_search', '-lpcl_common', '-lboost_system',
        '-lboost_filesystem', '-lpthread']
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:'
                    'check_initialization_order=1:strict_init_order=1:max_malloc_fill_size=65536:'
                    'malloc_fill_byte=190:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1',
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def headers():
    r = []
    for root in [REPO] + [os.path.join(VERIF, 'shim'), os.path.join(VERIF, 'include')]:
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ('.git', '_build', 'build', 'docs')]
            r += [os.path.join(d, f) for f in fs
                  if f.endswith(('.hpp', '.h', '.hxx', '.inl', '.ipp', '.tpp'))]
    return r


def includes():
    inc = ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'include'), '-I' + REPO]
    for p in PACKAGES:
        inc.append('-I' + os.path.join(REPO, p, 'include'))
    return inc + ['-I' + os.path.join(REPO, 'rotationlib', 'testlib'), '-isystem', '/usr/include/pcl-1.14',
                  '-isystem', '/usr/include/eigen3']


def sources(stage):
    r = [os.path.join(VERIF, 'harness', h) for h in [stage['harness']] + stage.get('with', [])]
    for pat in stage.get('repo', []):
        if pat.startswith('!'):
            drop = set(glob.glob(os.path.join(REPO, pat[1:]), recursive=True))
            r = [x for x in r if x not in drop]
        else:
            r += sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
    return r


def build(stage, hh):
    """Returns the path of the executable, or None. Objects are cached by the content of everything they see."""
    flavor = stage.get('flavor', 'asan')
    os.makedirs(CACHE, exist_ok=True)
    flags = ['-std=c++17', '-w', '-DVERIF_MONITOR', '-DEIGEN_MALLOC_ALREADY_ALIGNED=1'] + FLAVORS[flavor] + stage.get('flags', []) + includes()
    allcpp = None
    jobs = []
    objs = []
    for s in sources(stage):
        deps = [s]
        fl = flags + (stage.get('hflags', []) if s.startswith(VERIF) else [])
        if s.startswith(VERIF):     # harnesses include application sources
            if allcpp is None:
                allcpp = [x for p in PACKAGES for x in
                          glob.glob(os.path.join(REPO, p, '**', '*.cpp'), recursive=True)]
            deps = deps + allcpp
        key = hashlib.sha256(('\0'.join(fl) + hh + file_hash(deps)).encode()).hexdigest()[:32]
        o = os.path.join(CACHE, key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, fl))
    # biggest first
    jobs.sort(key=lambda j: (not j[0].startswith(VERIF), -os.path.getsize(j[0])))

    def one(job):
        s, o, fl = job
        tmp = '%s.%d.tmp.o' % (o, os.getpid())
        p = subprocess.run(['g++'] + fl + ['-c', s, '-o', tmp], capture_output=True, text=True)
        if p.returncode:
            return s, p.stderr
        os.replace(tmp, o)
        return s, None
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for s, err in ex.map(one, jobs):
            if err:
                log('does not compile: %s\n%s' % (s, err[-6000:]))
                return None
    exe = os.path.join(CACHE, hashlib.sha256('\0'.join(objs + [flavor] + stage.get('libs', [])).encode()).hexdigest()[:32] + '.exe')
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        p = subprocess.run(['g++'] + LINK[flavor] + objs + stage.get('libs', LIBS) + ['-o', tmp], capture_output=True, text=True)
        if p.returncode:
            log('does not link:\n' + p.stderr[-6000:])
            return None
        os.replace(tmp, exe)
    return exe


def crash_key(err):
    m = re.search(r'([^\s/]+\.[ch]pp):\d+: .*?: Assertion [`\'](.*?)\' failed', err)
    if m:
        return 'assert ' + m.group(1) + ' ' + m.group(2)
    m = re.search(r'([^\s/]+):\d+(?::\d+)?: runtime error: (.*)', err)
    if m:
        return 'ubsan ' + m.group(1) + ' ' + re.sub(r'-?[0-9.]+(e[+-]?\d+)?|0x[0-9a-f]+|-?nan|-?inf', '#', m.group(2))[:100]
    m = re.search(r'SUMMARY: (\w+Sanitizer): (\S+)(.*)', err)
    if m:
        where = re.findall(re.escape(REPO) + r'/(\S+?):\d+', err)
        return '%s %s %s' % (m.group(1), m.group(2), where[0] if where else '')
    return 'crash'


class Shard:
    def __init__(self, cmd, scratch, name, env):
        self.cmd, self.scratch, self.name, self.env = cmd, scratch, name, env


def run_shard(cmd, base, scratch, stage, cases, shard, nshards, only=None, stuck=None):
    """Runs one shard to its end, restarting after crashes. Returns (records, problems)."""
    stuck = stuck or stage.get('stuck_s', 90)
    out = os.path.join(scratch, base + '.out')
    prog = os.path.join(scratch, base + '.prog')
    work = os.path.join(scratch, base + '.work')
    os.makedirs(work, exist_ok=True)
    start, crashes, viols = 0, 0, []
    env = dict(os.environ)
    env.update(SAN_ENV)
    env['VERIF_REPO'] = REPO
    env['TMPDIR'] = work
    while True:
        args = cmd + ['--cases', str(cases), '--shard', str(shard), '--nshards', str(nshards),
                      '--start', str(start), '--out', out, '--progress', prog, '--scratch', work]
        if only is not None:
            args += ['--only', str(only)]
        errf = os.path.join(scratch, base + '.err')
        if os.path.exists(prog):
            os.unlink(prog)
        with open(errf, 'wb') as ef:
            p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=work,
                                 start_new_session=True)
            last, since, hung = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    cur = open(prog).read() if os.path.exists(prog) else ''
                    if cur != last:
                        last, since = cur, time.time()
                    elif time.time() - since > stuck:
                        hung = True
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        p.wait()
                        break
        if p.returncode == 0 and not hung:
            return out, viols, True
        case = -1
        if os.path.exists(prog):
            t = open(prog).read().split()
            case = int(t[0]) if t else -1
        err = open(errf, 'rb').read().decode('utf8', 'replace')
        if p.returncode == 3 and not hung:
            log('harness error: ' + err[-2000:])
            return out, viols, False
        if case < 0:
            log('harness failed before its first case (rc %s): %s' % (p.returncode, err[-3000:]))
            return out, viols, False
        if hung:
            if only is None:
                # once more, alone, before it is called a hang
                o2, v2, ok2 = run_shard(cmd, base + '-again%d' % case, scratch, stage, cases, 0, 1, only=case,
                                        stuck=2 * stuck)
                viols += [v for v in v2]
                if not v2 and not ok2:
                    return out, viols, False
            else:
                viols.append({'case': case, 'key': 'hang', 'msg': 'case %d did not end within %d s' % (case, stuck)})
                return out, viols, True
        else:
            sig = -p.returncode if p.returncode < 0 else p.returncode
            tail = err
            m = re.search(r'(==\d+==ERROR|runtime error|Assertion|WARNING: ThreadSanitizer)', err)
            if m:
                tail = err[max(0, m.start() - 300):m.start() + 3500]
            else:
                tail = err[-2500:]
            viols.append({'case': case, 'key': crash_key(err), 'msg': 'process died (%s) in case %d: %s' % (sig, case, tail)})
            crashes += 1
            if only is not None:
                return out, viols, True
        if crashes >= 3:
            return out, viols, True
        start = case + 1


def known_findings():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)', line.strip())
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


def main():
    pid = sys.argv[1]
    check = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    if '--replay' in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        seed, tier = replay['seed'], replay['tier']
        thorough = tier == 'thorough'
    t0 = time.time()
    hh = file_hash(headers())
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = run_check(pid, check, tier, thorough, seed, replay, hh, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run_check(pid, check, tier, thorough, seed, replay, hh, scratch, t0):
    stages = [s for s in check['stages'] if thorough or not s.get('thorough_only')]
    viols, counters, samples, sigs = [], {}, [], set()
    evaluations = nontrivial = 0
    ok = True
    for si, stage in enumerate(stages):
        if replay and replay['stage'] != si:
            continue
        if 'harness' in stage and stage['harness'].endswith('.py'):
            cmd = [stage.get('python', '/opt/veriftools/pyvenv/bin/python3'),
                   os.path.join(VERIF, 'harness', stage['harness'])]
        else:
            exe = build(stage, hh)
            if exe is None:
                ok = False
                continue
            cmd = [exe]
        t1 = time.time()
        cases = stage['cases'][1 if thorough else 0]
        cmd = cmd + ['--seed', str(seed), '--tier', tier]
        if 'mode' in stage:
            cmd += ['--mode', stage['mode']]
        if 'prepare' in stage:      # a script that writes what the harness reads
            prepared = os.path.join(scratch, 's%d.prepared' % si)
            p = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', os.path.join(VERIF, 'harness', stage['prepare']), '--seed', str(seed), '--out', prepared],
                               capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO), timeout=300)
            if p.returncode:
                log('%s failed: %s' % (stage['prepare'], p.stderr[-3000:]))
                ok = False
                continue
            os.environ['VERIF_PREPARED'] = prepared
        n = min(stage.get('shards', NCPU), max(1, cases))
        if replay:
            results = [run_shard(cmd, 's%d-r' % si, scratch, stage, cases, 0, 1, only=replay['case'])]
        else:
            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                results = list(ex.map(lambda k: run_shard(cmd, 's%d-%d' % (si, k), scratch, stage, cases, k, n), range(n)))
        for out, vs, fine in results:
            ok = ok and fine
            for v in vs:
                viols.append(dict(v, stage=si))
            if os.path.exists(out):
                for line in open(out):
                    r = json.loads(line)
                    if r['t'] == 'viol':
                        viols.append({'stage': si, 'case': r['case'], 'key': r['key'], 'msg': r['msg']})
                    else:
                        evaluations += r['evaluations']
                        nontrivial += r['nontrivial']
                        for k, v in r['counters'].items():
                            counters[k] = counters.get(k, 0) + v
                        sigs.update((si, x) for x in r['sigs'])
                        if len(samples) < 6:
                            samples += r['samples'][:2]
        log('%s stage %d (%s): built %.1f s, ran %.1f s' % (pid, si, stage['harness'], t1 - t0, time.time() - t1))
    known = [k for k in known_findings() if k[0] == pid]
    new = []
    seen_known = {}
    for v in viols:
        hit = [k for k in known if k[1] == v['key']]
        if hit:
            seen_known[hit[0][1]] = hit[0][2]
        else:
            new.append(v)
    wall = time.time() - t0
    lacking = []
    if not replay:
        for k, lo in check.get('require', {}).items():
            if counters.get(k, 0) < lo:
                lacking.append('%s: %d < %d' % (k, counters.get(k, 0), lo))
        if len(sigs) < 2:
            lacking.append('distinct non-trivial cases: %d' % len(sigs))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evaluations, 'distinct_nontrivial': len(sigs),
                'rule': check['rule'], 'samples': [s[:1500] for s in samples[:6]] or ['none'],
                'observed': dict(sorted(counters.items())),
                'monitors': sorted({s.get('flavor', 'asan') if not s['harness'].endswith('.py') else 'python'
                                    for s in stages}),
            },
            'assumptions': check.get('assumptions', []),
            'wall_s': round(wall, 2), 'violations': len(new),
        }
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for key, what in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for v in new:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            name = '%s-%s.json' % (pid, hashlib.sha256((v['key'] + str(v['case'])).encode()).hexdigest()[:10])
            path = os.path.join(VERIF, 'replays', name)
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, seed=seed, tier=tier,
                               how='python3 run.py %s --replay %s' % (pid, path)), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  [%s] %s' % (v['key'], v['msg'][:1800].replace('\n', '\n    ')))
        return 1
    if not ok:
        print('no answer: a part of the harness failed')
        return 2
    if lacking:
        print('no answer: too little was observed: ' + '; '.join(lacking))
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %d oracle checks, %.1f s' % (
        pid, evaluations, len(sigs), counters.get('oracle_checks', 0), wall))
    return 0


if __name__ == '__main__':
    main()
