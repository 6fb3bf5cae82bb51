#!/usr/bin/env python3
"""Driver of the generated-history checks.

  run.py <property> [--tier quick|thorough]      run a check (VERIF_SEED, VERIF_TIER)
  run.py --replay <file>                         rebuild from /repo and replay a saved case
  run.py --setup                                 sanity of the toolchain

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import ENGINES, PROPS, QUICK_SECONDS, THOROUGH_SECONDS   # noqa: E402

HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
CXX = 'clang++'
FLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fsanitize=address',
         '-fsanitize=shift,integer-divide-by-zero,bounds,alignment,signed-integer-overflow,unreachable,return',
         '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
NW = int(os.environ.get('VF_JOBS', os.cpu_count() or 8))
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:hard_rss_limit_mb=3000:symbolize=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=4'
ENV['UBSAN_OPTIONS'] = 'exitcode=66:print_stacktrace=1'
ENV['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''


def sh_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def tree_files():
    r = []
    for root, _, fs in os.walk(os.path.join(REPO, 'include')):
        r += [os.path.join(root, f) for f in fs]
    return r


def includes():
    inc = ['-I' + HARN, '-I' + os.path.join(REPO, 'include')]
    if os.path.isdir('/opt/vp/compat'):
        inc += ['-isystem', '/opt/vp/compat']
    return inc


def exe_name(e, part):
    return '%s-%s' % (e, part)


def compile_one(d, e, part):
    """returns (exe path or None, log)"""
    out = os.path.join(d, exe_name(e, part))
    if os.path.exists(out):
        return out, ''
    src = os.path.join(HARN, ENGINES[e]['src'])
    cmd = [CXX] + FLAGS + ENGINES[e].get('flags', []) + ['-DVF_PART=%d' % part] + includes() + [src, '-o', out + '.tmp%d' % os.getpid()]
    log = ''
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        log = ' '.join(cmd) + '\n' + p.stdout
        if p.returncode == 0:
            os.rename(out + '.tmp%d' % os.getpid(), out)
            return out, log
        if p.returncode > 0 and 'error:' in p.stdout and 'clang frontend command failed' not in p.stdout:
            break
        time.sleep(2)
    return None, log


def build_dir():
    hs = [os.path.join(HARN, f) for f in os.listdir(HARN) if not f.startswith('.')]
    key = sh_hash(tree_files() + hs, CXX + ' '.join(FLAGS) + REPO)
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    ds = sorted((x for x in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(x)), key=os.path.getmtime)
    for x in ds[:-4]:
        shutil.rmtree(x, ignore_errors=True)
    return d


class Failure(Exception):
    pass


def exit_kind(rc, out):
    if rc == 0:
        return 'ok'
    if rc == 77:
        return 'oracle'
    if rc == 78:
        return 'timeout'
    if rc == -signal.SIGKILL:
        return 'killed'
    if rc == 66:
        return 'oom' if 'hard rss limit' in out else 'sanitizer'
    return 'crash'


def tail_reason(out):
    m = re.findall(r'^(ORACLE-FAIL.*)$', out, re.M)
    if m:
        return m[-1]
    m = re.findall(r'^(SUMMARY: .*)$', out, re.M)
    m2 = re.findall(r'(runtime error: .*)$', out, re.M)
    if m2:
        return m2[-1]
    if m:
        return m[-1]
    m = re.findall(r'^(.*Assertion.*)$', out, re.M)
    if m:
        return m[-1]
    ls = [x for x in out.strip().splitlines() if x.strip()]
    return ls[-1][:300] if ls else 'abnormal exit'


def run_case(exe, prop, path, limit, trace=False):
    cmd = [exe, '--replay', path, '--prop', prop, '--limit', str(limit)] + (['--trace'] if trace else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, timeout=240)
    except subprocess.TimeoutExpired:
        return 'killed', 'wall clock limit'
    return exit_kind(p.returncode, p.stdout), p.stdout


def parse_case(text):
    cfg, ops = None, []
    for l in text.splitlines():
        if l.startswith('cfg '):
            cfg = [int(x) for x in l.split()[1:]]
        elif l.startswith('op '):
            ops.append([int(x) for x in l.split()[1:]])
    return cfg, ops


def case_text(cfg, ops):
    return 'cfg ' + ' '.join(map(str, cfg)) + '\n' + ''.join('op ' + ' '.join(map(str, o)) + '\n' for o in ops)


def shrink(exe, prop, cfg, ops, limit, tmp, budget=45.0):
    t0 = time.time()
    bad = ('oracle', 'sanitizer', 'crash', 'timeout', 'oom')
    n = [0]

    def fails(cf_, op_):
        n[0] += 1
        p = os.path.join(tmp, 'shrink-%d.case' % threading.get_ident())
        open(p, 'w').write(case_text(cf_, op_))
        k, _ = run_case(exe, prop, p, limit)
        return k in bad

    def left():
        return time.time() - t0 < budget
    # cut the tail first, then ddmin, then simplify arguments
    lo, hi = 0, len(ops)
    while hi - lo > 1 and left():
        mid = (lo + hi) // 2
        if fails(cfg, ops[:mid]):
            hi = mid
        else:
            lo = mid
    ops = ops[:hi]
    chunk = max(1, len(ops) // 2)
    while left():
        i, changed = 0, False
        while i < len(ops) and left():
            cand = ops[:i] + ops[i + chunk:]
            if fails(cfg, cand):
                ops = cand; changed = True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = max(1, chunk // 2) if not (chunk == 1 and changed) else 1
    for i in range(1, len(cfg)):
        for v in (0, 1):
            if left() and cfg[i] != v and cfg[i] > v:
                c2 = cfg[:i] + [v] + cfg[i + 1:]
                if fails(c2, ops):
                    cfg = c2; break
    for i in range(len(ops)):
        for j in range(1, len(ops[i])):
            for v in (0, 1, 2, 3, ops[i][j] % 64):
                if left() and ops[i][j] > v:
                    o2 = [list(o) for o in ops]; o2[i][j] = v
                    if fails(cfg, o2):
                        ops = o2; break
    return cfg, ops, n[0]


def report(prop, engine, part, exe, cfg, ops, kind, out, extra=''):
    os.makedirs(REPLAYS, exist_ok=True)
    body = case_text(cfg, ops)
    name = '%s-%s-%d-%s.case' % (prop, engine, part, hashlib.sha256(body.encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        f.write('# property %s engine %s part %d\n# %s: %s\n' % (prop, engine, part, kind, tail_reason(out)))
        f.write('# replay: python3 %s/run.py --replay %s\n' % (VERIF, path))
        if extra:
            f.write('# ' + extra + '\n')
        f.write(body)
        f.write('\n'.join('# ' + l for l in out.splitlines()[:160]) + '\n')
    print('%s: %s' % (kind, tail_reason(out)))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return path


def known_findings(prop):
    """lines 'property=<id> engine=<e> part=<n> match=<regex of the failure text> <what>' of recorded, unrepaired defects"""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                r.append(l[len('finding: '):])
    return r


def check(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    os.makedirs(EVID, exist_ok=True)
    limit = 10
    tmp = tempfile.mkdtemp(prefix='vf-')
    try:
        return _check(prop, tier, seed, spec, t0, limit, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(prop, tier, seed, t0, cov, violations):
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': violations,
          'assumptions': ['the reference model in harness/ states the documented behaviour',
                          'g++/clang++ and the address and undefined-behaviour sanitizers are correct',
                          'only histories within the stated generator bounds were explored']}
    p = os.path.join(EVID, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def _check(prop, tier, seed, spec, t0, limit, tmp):
    d = build_dir()
    jobs = []     # (engine, part, share)
    for e, quick, every, weight in spec['runs']:
        parts = quick if tier == 'quick' else every
        for p in parts:
            jobs.append((e, p, weight / len(parts)))
    jobs.sort(key=lambda j: -ENGINES[j[0]].get('cost', 10))
    secs = (QUICK_SECONDS if tier == 'quick' else THOROUGH_SECONDS) * spec.get('scale', 1.0)
    totw = sum(j[2] for j in jobs)
    exes, fail = {}, None
    with cf.ThreadPoolExecutor(NW) as ex:
        fut = {ex.submit(compile_one, d, e, p): (e, p) for e, p, _ in jobs}
        for f in cf.as_completed(fut):
            exe, log = f.result()
            exes[fut[f]] = exe
            if exe is None and fail is None:
                fail = (fut[f], log)
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': spec['rule'], 'samples': []}
    if fail:
        (e, p), log = fail
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%s-%d-compile.log' % (prop, e, p))
        open(path, 'w').write('# property %s engine %s part %d\n# the public API the check uses no longer compiles\n%s\n' % (prop, e, p, log[:20000]))
        print('the harness %s (part %d), which uses the documented interface only, does not compile against this tree:' % (e, p))
        print('\n'.join([l for l in log.splitlines() if 'error:' in l][:5]))
        cov['samples'] = ['compilation of harness %s part %d' % (e, p)]
        write_evidence(prop, tier, seed, t0, cov, 1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    tcompile = time.time() - t0
    # ---- search: a number of cases that depends on the tier only
    tasks = []
    for e, p, w in jobs:
        rate = spec.get('rate', {}).get(e, ENGINES[e]['rate'])
        total = int(secs * NW * rate * w / totw)
        k = max(1, min(NW, round(NW * 1.5 * w / totw)))
        for i in range(k):
            tasks.append((e, p, i, k, max(20, total // k)))
    stop = threading.Event()
    procs = set(); lock = threading.Lock()
    results, failures, notes = [], [], []

    def worker(task):
        e, p, first, stride, count = task
        if stop.is_set():
            return
        base = os.path.join(tmp, '%s-%d-%d' % (e, p, first))
        cmd = [exes[(e, p)], '--run', '--prop', prop, '--seed', str(seed), '--first', str(first), '--stride', str(stride), '--count', str(count),
               '--prog', base + '.prog', '--out', base + '.json', '--hashes', base + '.hash', '--limit', str(limit), '--wall', str(max(60, secs * 5))]
        for attempt in range(2):
            with open(base + '.log', 'w') as lf:
                pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=ENV)
                with lock:
                    procs.add(pr)
                rc = pr.wait()
                with lock:
                    procs.discard(pr)
            out = open(base + '.log', errors='replace').read()
            k = exit_kind(rc, out)
            if k == 'ok':
                r = json.load(open(base + '.json'))
                hs = open(base + '.hash', 'rb').read()
                results.append((task, r, hs))
                return
            if stop.is_set():
                return
            if k == 'killed' and attempt == 0:
                continue
            idx = None
            try:
                idx, st = struct.unpack('<QQ', open(base + '.prog', 'rb').read(16))
            except Exception:
                pass
            failures.append((task, k, idx, out))
            stop.set()
            with lock:
                for q in list(procs):
                    q.terminate()
            return

    with cf.ThreadPoolExecutor(NW) as ex:
        list(ex.map(worker, tasks))
    # ---- merge statistics
    H, stats, per = set(), {}, {}
    nontriv = abandoned = 0
    samples = []
    for task, r, hs in sorted(results, key=lambda x: x[0]):
        cov['evaluations'] += r['evals']; nontriv += r['nontrivial']; abandoned += r['abandoned']
        tag = struct.pack('<H', hash_tag(task[0]))
        for i in range(0, len(hs), 8):
            H.add(hs[i:i + 8] + tag)
        for k, v in r['stat'].items():
            stats[k] = stats.get(k, 0) + v
        per[task[0]] = per.get(task[0], 0) + r['evals']
        if r['limit_hit']:
            notes.append('wall limit reached in %s part %d' % (task[0], task[1]))
        if r['samples'] and len([s for s in samples if s['engine'] == task[0]]) < 2:
            samples.append({'engine': task[0], 'case': r['samples'][0].splitlines()[:60]})
    cov['distinct_nontrivial'] = len(H)
    cov['samples'] = samples[:8]
    cov.update({'nontrivial': nontriv, 'abandoned_for_other_properties': abandoned, 'cases_per_engine': per, 'distribution': stats,
                'compile_s': round(tcompile, 1), 'notes': notes})
    for l in known_findings(prop):
        print('KNOWN-FINDING: ' + l)
    if not failures:
        write_evidence(prop, tier, seed, t0, cov, 0)
        print('%s: %d cases, %d distinct non-trivial, %.1f s (compile %.1f s)' % (prop, cov['evaluations'], len(H), time.time() - t0, tcompile))
        return 0
    # ---- confirm, shrink, report
    for task, k, idx, out in failures:
        e, p = task[0], task[1]
        exe = exes[(e, p)]
        if idx is None:
            notes.append('worker died without a case (%s): %s' % (k, tail_reason(out)))
            continue
        dump = subprocess.run([exe, '--dump', '--prop', prop, '--seed', str(seed), '--first', str(idx)], stdout=subprocess.PIPE, text=True, env=ENV).stdout
        cfg, ops = parse_case(dump)
        cp = os.path.join(tmp, 'confirm.case')
        open(cp, 'w').write(case_text(cfg, ops))
        rs = [run_case(exe, prop, cp, limit) for _ in range(3)]
        bad = [r for r in rs if r[0] in ('oracle', 'sanitizer', 'crash', 'timeout', 'oom')]
        if len(bad) == 3:
            cfg, ops, n = shrink(exe, prop, cfg, ops, limit, tmp)
            open(cp, 'w').write(case_text(cfg, ops))
            kk, oo = run_case(exe, prop, cp, limit, trace=True)
            cov['samples'] = (cov['samples'] or []) + [{'engine': e, 'violating_case': oo.splitlines()[:40]}]
            cov['evaluations'] += 1; cov['distinct_nontrivial'] = max(1, len(H))
            write_evidence(prop, tier, seed, t0, cov, 1)
            report(prop, e, p, exe, cfg, ops, kk, oo, 'shrunk to %d operations in %d attempts; found at case %d of seed %d' % (len(ops), n, idx, seed))
            return 1
        # not reproducible alone: the same chunk again
        base = os.path.join(tmp, 'again')
        cmd = [exe, '--run', '--prop', prop, '--seed', str(seed), '--first', str(task[2]), '--stride', str(task[3]), '--count', str((idx - task[2]) // task[3] + 1), '--limit', str(limit)]
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV)
        q2 = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV)
        k1, k2 = exit_kind(q.returncode, q.stdout), exit_kind(q2.returncode, q2.stdout)
        okk = ('ok', 'killed')
        if (k1 not in okk and k2 not in okk) or len(bad) >= 1:
            write_evidence(prop, tier, seed, t0, cov, 1)
            report(prop, e, p, exe, cfg, ops, k, out, 'needs its predecessors in the same process: ' + ' '.join(cmd))
            return 1
        notes.append('a failure (%s) did not reproduce: %s' % (k, tail_reason(out)))
    cov['notes'] = notes
    write_evidence(prop, tier, seed, t0, cov, 0)
    print('%s: inconclusive: %s' % (prop, '; '.join(notes)))
    return 0


def hash_tag(e):
    return int(hashlib.sha256(e.encode()).hexdigest()[:4], 16)


def replay(path):
    txt = open(path).read()
    m = re.search(r'^# property (\S+) engine (\S+) part (\d+)', txt, re.M)
    prop, e, p = m.group(1), m.group(2), int(m.group(3))
    exe, log = compile_one(build_dir(), e, p)
    if exe is None:
        print(log[:4000]); print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    k, out = run_case(exe, prop, path, 20, trace=True)
    print(out[-6000:])
    if k != 'ok':
        print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--setup':
        for t in (CXX,):
            if not shutil.which(t):
                print('missing ' + t); return 1
        for dd in (BUILD, REPLAYS, EVID):
            os.makedirs(dd, exist_ok=True)
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return check(prop, 'thorough' if tier == 'thorough' else 'quick', seed)


if __name__ == '__main__':
    sys.exit(main())
