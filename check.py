#!/usr/bin/env python3
"""check.py <property>            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
check.py <property> --replay F    re-run one replay file against /repo's current tree
check.py --setup                  build what does not depend on /repo
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

EIGEN = '/usr/include/eigen3'
INC = ['-I' + HERE + '/engine', '-I' + HERE + '/harness',
       '-I' + REPO + '/nmpc_ddp/include', '-I' + REPO + '/nmpc_fmpc/include', '-I' + REPO + '/nmpc_cgmres/include',
       '-isystem', EIGEN]
BUILD = os.path.join(HERE, 'build')
COMMON = ['engine/pbt.cpp', 'harness/gen.cpp', 'harness/boxref.cpp', 'harness/fmpcref.cpp', 'harness/fmpcgen.cpp']
MODES = {
    'plain': ('g++', ['-std=c++17', '-O1', '-g0'], []),
    'san': ('g++', ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                    '-fno-omit-frame-pointer'], ['-fsanitize=address,undefined']),
    'tsan': ('g++', ['-std=c++17', '-O1', '-g1', '-fsanitize=thread'], ['-fsanitize=thread']),
    'fuzz': ('clang++', ['-std=c++17', '-O1', '-g0', '-fsanitize=fuzzer', '-DPBT_FUZZER'], ['-fsanitize=fuzzer']),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def die(msg):
    print(msg)
    sys.stdout.flush()
    os._exit(2)


def compile_one(job):
    cmd, out, cache = job
    if cache and os.path.exists(out):
        return 0, ''
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh(cmd + ['-o', tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    return r.returncode, r.stdout


def own_objects(mode):
    """Objects that depend only on /verif (cached by content)."""
    cxx, flags, _ = MODES[mode]
    h = hashlib.sha1(' '.join([cxx] + flags).encode())
    for d in ('engine', 'harness'):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if f.endswith('.h') or d + '/' + f in COMMON:
                h.update(open(os.path.join(HERE, d, f), 'rb').read())
    dst = os.path.join(BUILD, 'own-' + mode + '-' + h.hexdigest()[:12])
    os.makedirs(dst, exist_ok=True)
    jobs = []
    for f in COMMON:
        out = os.path.join(dst, os.path.basename(f)[:-4] + '.o')
        jobs.append(([cxx] + flags + ['-I' + HERE + '/engine', '-I' + HERE + '/harness', '-isystem', EIGEN, '-c', os.path.join(HERE, f)], out, True))
    return jobs


def build(pid, mode):
    """Build the harness of a property from /repo's current tree. Returns the binary."""
    c = CHECKS[pid]
    if 'py' in c:
        return os.path.join(HERE, 'harness', c['py'])
    cxx, flags, link = MODES[mode]
    dst = os.path.join(BUILD, pid + '-' + mode)
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(dst):
        os.unlink(os.path.join(dst, f))
    jobs = own_objects(mode)
    base = [cxx] + flags + c.get('flags', []) + INC
    srcs = c['src'] if isinstance(c['src'], list) else [c['src']]
    for src in srcs:
        src, insts = src if isinstance(src, tuple) else (src, c['inst'])
        for inst in (insts or [None]):
            d, name = [], src
            if inst:
                name += '_' + '_'.join(str(v) for v in inst)
                d = ['-DINX=%d' % inst[0], '-DINU=%d' % inst[1], '-DINC=%d' % (inst[2] if len(inst) > 2 else 0),
                     '-DPBT_SUFFIX="_%s"' % '_'.join('D' if v < 0 else str(v) for v in inst)]
            jobs.append((base + d + ['-c', os.path.join(HERE, 'harness', src + '.cpp')], os.path.join(dst, name + '.o'), False))
    for i, s in enumerate(f for g in c.get('repo_src', []) for f in sorted(glob.glob(os.path.join(REPO, g)))):
        jobs.append((base + ['-c', s], os.path.join(dst, 'repo%d.o' % i), False))
    # the slow translation units first
    jobs.sort(key=lambda j: j[2])
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for (rc, out), j in zip(ex.map(compile_one, jobs), jobs):
            if rc:
                print('\n'.join(l for l in out.splitlines() if re.search(r'error|undefined', l))[:4000] or out[:4000])
                msg = probe(c['probe']) if 'probe' in c else None
                if msg:
                    raise BuildError(msg)
                die('BUILD-ERROR: ' + ' '.join(j[0][-1:]))
    exe = os.path.join(dst, 'run')
    r = sh([cxx] + [j[1] for j in jobs] + link + c.get('link', []) + ['-o', exe])
    if r.returncode:
        print(r.stdout[-3000:])
        die('BUILD-ERROR: link')
    return exe


class BuildError(Exception):
    pass


def probe(src):
    """The harness does not compile: are run-time dimensions still supported where compile-time ones are?"""
    for d, dims in ((['-DPROBE_DDP'], ['-1,1', '0,1']), ([], ['-1,-1', '1,-1', '-1,1', '1,0', '0,1', '0,0'])):
        def ok(nu, nc):
            return sh(['g++', '-std=c++17', '-O0', '-fsyntax-only'] + d + ['-DPNU=' + nu, '-DPNC=' + nc] + INC
                      + [os.path.join(HERE, 'harness', src)]).returncode == 0
        if ok('1', '1'):
            for v in dims:
                if not ok(*v.split(',')):
                    return 'does not compile with (input, inequality) dimensions (%s), -1 being Eigen::Dynamic: %s' % (
                        v, 'DDPSolver' if d else 'FmpcSolver')
    return None


def runner(exe):
    return ['python3-vt', exe] if exe.endswith('.py') else [exe]


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    if sys.argv[1:] == ['--setup']:
        with cf.ThreadPoolExecutor(8) as ex:
            for (rc, out), j in zip(ex.map(compile_one, own_objects('plain')), own_objects('plain')):
                if rc:
                    print(out[:4000])
                    return 2
        return 0
    pid = sys.argv[1]
    c = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1',
               TSAN_OPTIONS='halt_on_error=1:abort_on_error=1:report_signal_unsafe=0', UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1')
    if '--replay' in sys.argv:
        exe = build(pid, 'plain')
        return subprocess.call(runner(exe) + ['--replay', sys.argv[sys.argv.index('--replay') + 1]], env=env)
    for d in ('evidence', 'replays', 'build'):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    for k in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    scratch = os.path.join(BUILD, pid + '-scratch')
    os.makedirs(scratch, exist_ok=True)
    env['PBT_SCRATCH'] = scratch
    replay = os.path.join(HERE, 'replays', '%s-%s-%d.txt' % (pid, tier, seed))
    if os.path.exists(replay):
        os.unlink(replay)
    runs, bad = [], None

    def engine(exe, cases, sd, max_s, label):
        out = os.path.join(BUILD, pid + '-out.json')
        if os.path.exists(out):
            os.unlink(out)
        t = time.time()
        r = sh(runner(exe) + ['--seed', str(sd), '--cases', str(cases), '--jobs', str(os.cpu_count() or 8), '--max-s', str(max_s),
                '--out', out, '--replay-out', replay, '--cpu-limit', str(c.get('cpu', 30))], env=env)
        if not os.path.exists(out):
            print(r.stdout[-3000:])
            die('CHECK-ERROR: the generator did not finish')
        j = json.load(open(out))
        j['label'], j['run_s'], j['seed'] = label, round(time.time() - t, 2), sd
        runs.append(j)
        if r.returncode == 3:
            print(r.stdout[-2000:])
            die('CHECK-ERROR: a case was killed or hung once and passed when repeated')
        return j['message'] if j['verdict'] != 'ok' else None

    try:
        exe = build(pid, 'plain')
    except BuildError as e:
        with open(replay, 'w') as f:
            f.write('# compile harness/%s as described\n# %s\n' % (c['probe'], e))
        print(e)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, HERE)))
        return 1
    t_build = time.time() - t0
    quick = tier != 'thorough'
    bad = engine(exe, c['cases'][0 if quick else 1], seed, 400 if quick else 3000, 'generated')
    fuzz = None
    if not bad and quick and c.get('quick_san'):
        bad = engine(build(pid, 'san'), c['quick_san'], seed + 1000003, 300, 'generated under ASan+UBSan')
    if not bad and c.get('tsan'):
        bad = engine(build(pid, 'tsan'), c['tsan'][0 if quick else 1], seed + 2000003, 300 if quick else 1200, 'generated under ThreadSanitizer')
    if not bad and not quick and 'py' not in c:
        if c.get('san', True):
            bad = engine(build(pid, 'san'), c['cases'][0] // c.get('san_div', 8), seed + 1000003, 1500, 'generated under ASan+UBSan')
        if not bad and c.get('fuzz', 120):
            fz = build(pid, 'fuzz')
            corpus = os.path.join(scratch, 'corpus')
            os.makedirs(corpus, exist_ok=True)
            env2 = dict(env, PBT_REPLAY_OUT=replay)
            ps = [subprocess.Popen([fz, corpus, '-seed=%d' % (seed * 100 + i), '-max_total_time=%d' % c.get('fuzz', 120),
                                    '-max_len=4096', '-len_control=20', '-reload=5', '-timeout=60', '-rss_limit_mb=3000',
                                    '-artifact_prefix=' + scratch + '/', '-print_final_stats=1'],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', env=env2)
                  for i in range(6)]
            n, cov = 0, 0
            for p in ps:
                err = p.communicate()[1]
                m = re.search(r'stat::number_of_executed_units:\s*(\d+)', err)
                n += int(m.group(1)) if m else 0
                m = re.findall(r'cov: (\d+)', err)
                cov = max(cov, int(m[-1]) if m else 0)
                f = re.search(r'PBT-FAIL (.*)', err)
                if f:
                    bad = f.group(1)
                elif p.returncode:
                    bad = bad or 'libFuzzer: ' + err[-800:]
            fuzz = dict(executions=n, edges=cov)
            subprocess.call(['rm', '-rf', corpus])
            if bad and os.path.exists(replay) and os.path.exists(exe):
                pass
    wall = time.time() - t0
    rules = json.load(open(os.path.join(HERE, 'rules.json'))) if os.path.exists(os.path.join(HERE, 'rules.json')) else {}
    main_run = runs[0]
    cov = dict(evaluations=sum(r['evaluations'] for r in runs), distinct_nontrivial=main_run['distinct_nontrivial'],
               rule=rules.get(pid, ''), samples=main_run['samples'][:4], assertions=sum(r['assertions'] for r in runs),
               discarded=main_run['discarded'], discard_reasons=main_run['discard_reasons'],
               per_subproperty=main_run['per_subproperty'], labels=main_run['labels'],
               runs=[dict(kind=r['label'], seed=r['seed'], cases=r['evaluations'], nontrivial=r['distinct_nontrivial'], seconds=r['run_s'],
                          stopped_by_time=r['workers_stopped_by_time']) for r in runs],
               build_s=round(t_build, 1))
    if fuzz:
        cov['coverage_guided'] = fuzz
    ev = dict(property=pid, tier='quick' if quick else 'thorough', seed=seed, level='exploration', coverage=cov,
              assumptions=['double arithmetic; oracle tolerances as stated in DESIGN.md', 'the installed Eigen and compiler'],
              wall_s=round(wall, 2), violations=1 if bad else 0)
    if bad:
        ev['coverage']['violation'] = bad[:2000]
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        print(bad[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, HERE)))
        return 1
    print('%s: held on %d generated cases (%d distinct non-trivial), %d assertions, %.1f s (build %.1f s)'
          % (pid, cov['evaluations'], cov['distinct_nontrivial'], cov['assertions'], wall, t_build))
    return 0


if __name__ == '__main__':
    sys.exit(main())
