#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py setup                 build everything from the committed files and /repo
  check.py run PROP [--tier T]   decide one property on /repo's working tree
  check.py replay FILE           replay a counterexample natively
  check.py list                  the properties and their jobs

Every run recompiles /repo's current source to LLVM IR, executes the harnesses of the property
symbolically with the engine in /verif/engine, and replays what it finds (a violation, and sample
traces of every job) on native dev and release builds of the same harness and the same source.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(HERE, 'work')
ENGINE = os.path.join(HERE, 'engine', 'target', 'release', 'rsym')
sys.path.insert(0, HERE)
import jobs as J

ENV = dict(os.environ)
ENV['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
ENV['CARGO_NET_OFFLINE'] = 'true'
for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout.decode(errors='replace')


def harness_dir(crate):
    return os.path.join(HERE, 'harness', J.CRATES[crate].get('dir', crate))


def source_hash(crate):
    """what the harness crate is built from, by content (mtimes are not trusted)"""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in J.CRATES[crate]['sources']]
    roots += [os.path.join(HERE, 'harness', d) for d in J.CRATES[crate]['harness_dirs']]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock', '.yaml')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_engine():
    with Lock('engine'):
        sh(['cargo', 'build', '--release', '--offline', '-q'], os.path.join(HERE, 'engine'))


def prepare(crate, kind):
    """target directory of a build; stale artefacts of /repo's crates are thrown away"""
    t = os.path.join(WORK, '%s-%s' % (crate, kind))
    stamp = os.path.join(t, 'stamp')
    want = source_hash(crate)
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != want:
        if os.path.isdir(t):
            for pk in J.CRATES[crate]['clean']:
                subprocess.run(['cargo', 'clean', '--offline', '-q', '--target-dir', t, '-p', pk] +
                               (['--profile', 'sym'] if kind == 'ir' else []),
                               cwd=harness_dir(crate), env=ENV,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if kind != 'ir':
                    subprocess.run(['cargo', 'clean', '--offline', '-q', '--target-dir', t, '-p', pk, '--release'],
                                   cwd=harness_dir(crate), env=ENV,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(t, exist_ok=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
    return t, stamp, want


def build_ir(crate):
    with Lock(crate + '-ir'):
        t, stamp, want = prepare(crate, 'ir')
        name = J.CRATES[crate]['package']
        if not os.path.exists(stamp):
            for f in glob.glob(os.path.join(t, 'sym', 'deps', name + '-*.ll')):
                os.unlink(f)
        sh(['cargo', 'rustc', '--offline', '-q', '--profile', 'sym', '--target-dir', t] + J.CRATES[crate].get('cargo_args', []) +
           ['--', '--emit=llvm-ir',
            '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all'], harness_dir(crate))
        l = glob.glob(os.path.join(t, 'sym', 'deps', name + '-*.ll'))
        if len(l) != 1:
            raise CheckError('expected one IR file, found %r' % l)
        open(stamp, 'w').write(want)
        return l[0]


def build_native(crate):
    with Lock(crate + '-native'):
        t, stamp, want = prepare(crate, 'native')
        d = harness_dir(crate)
        a = ['cargo', 'build', '--offline', '-q', '--features', 'native', '--target-dir', t] + J.CRATES[crate].get('cargo_args', [])
        sh(a, d)
        sh(a + ['--release'], d)
        open(stamp, 'w').write(want)
        n = J.CRATES[crate]['package']
        return [os.path.join(t, 'debug', n), os.path.join(t, 'release', n)]


def native(binary, job, tape, timeout=60):
    env = dict(ENV)
    env['RSYM_TAPE'] = tape
    env['RSYM_PARAM'] = str(job['param'])
    env['RUST_BACKTRACE'] = '0'
    try:
        p = subprocess.run([binary, job['fn']], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'rc': 'timeout', 'obs': [], 'covers': [], 'out': '', 'err': ''}
    out = p.stdout.decode(errors='replace')
    return {
        'rc': p.returncode,
        'obs': [l[4:] for l in out.splitlines() if l.startswith('OBS ')],
        'covers': [l[6:] for l in out.splitlines() if l.startswith('COVER ')],
        'out': out,
        'err': p.stderr.decode(errors='replace')[-600:],
    }


def native_until(binary, job, tape, good, attempts):
    """run until the outcome is `good`; builds with randomly ordered hash maps get several attempts"""
    for _ in range(attempts):
        r = native(binary, job, tape)
        if good(r):
            break
    return r


def fails(r):
    """did the native run violate the property (panic, crash, failed check, endless loop)?"""
    return r['rc'] not in (0, 10)


def run_job(ir, job, workers, limit, tmp):
    out = os.path.join(tmp, '%s-%d-%d.json' % (job['fn'], job['param'], threading.get_ident()))
    cmd = [ENGINE, '--ll', ir, '--fn', job['fn'], '--param', str(job['param']), '--workers', str(workers),
           '--time', str(limit), '--samples', str(job.get('samples', 4)), '--out', out,
           '--max-steps', str(job.get('max_steps', 30000000))] + job.get('engine_args', [])
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 120)
    if p.returncode != 0 or not os.path.exists(out):
        return {'status': 'error', 'error': 'engine exit %s: %s' % (p.returncode, p.stdout.decode(errors='replace')[-800:])}
    d = json.load(open(out))
    parts = [d]
    if d['status'] == 'split':
        if d['failed']:
            return {'status': 'error', 'error': '%d engine workers died (memory?)' % d['failed']}
        parts = [json.load(open('%s.%d' % (out, w))) for w in range(d['workers'])]
    r = {'job': job, 'wall_s': round(time.time() - t0, 3), 'covers': {}, 'funcs': {}, 'samples': []}
    for k in ('paths', 'infeasible', 'forks', 'instructions', 'checks', 'checks_smt', 'branch_table', 'queries', 'sat',
              'unsat', 'unknown', 'cache_hits', 'solver_s', 'closed', 'open', 'closed_paths'):
        r[k] = round(sum(x[k] for x in parts), 3)
    r['max_tape'] = max(x['max_tape'] for x in parts)
    for x in parts:
        for k, v in x['covers'].items():
            r['covers'][k] = r['covers'].get(k, 0) + v
        for k, v in x['funcs'].items():
            r['funcs'][k] = r['funcs'].get(k, 0) + v
        r['samples'] += x['samples']
    r['status'] = 'ok'
    for s in ('incomplete', 'error', 'violation'):
        for x in parts:
            if x['status'] == s:
                r['status'] = s
                r[s] = x[s]
    for f in glob.glob(out + '*'):
        os.unlink(f)
    return r


def schedule(ir, jobs, limit, tmp, stop_on_violation=True):
    """heavy jobs get all cores one after another, the others one core each; those of the others
    that take more than a fifth of the time are begun anew as heavy ones"""
    res = []
    stop = threading.Event()
    t0 = time.time()

    def one(job, workers, cap=limit):
        if stop.is_set():
            return None
        left = int(limit - (time.time() - t0))
        if left < 5:
            return {'status': 'incomplete', 'incomplete': 'not begun', 'job': job, 'samples': []}
        r = run_job(ir, job, workers, min(left, cap), tmp)
        r['job'] = job
        if r['status'] not in ('ok', 'incomplete') and stop_on_violation:
            stop.set()
        return r

    light = [j for j in jobs if not j.get('heavy')]
    heavy = [j for j in jobs if j.get('heavy')]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: one(j, 1, limit // 5), light):
            if r and r['status'] == 'incomplete':
                heavy.append(r['job'])
            elif r:
                res.append(r)
    for j in heavy:
        r = one(j, 8)
        if r:
            res.append(r)
    return res


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = J.PROPS[prop]
    jobs = [dict(j) for j in spec['jobs'](tier)]
    for j in jobs:
        j.setdefault('param', 0)
        j['engine_args'] = J.CRATES[spec['crate']].get('engine_args', [])
    crates = sorted({j.get('crate', spec['crate']) for j in jobs})
    crate = crates[0]
    limit = J.LIMIT[tier]
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, crate)
        fn = ex.submit(build_native, crate)
        fe.result()
        ir = fi.result()
        tb = time.time() - t0
        tmp = os.path.join(WORK, 'run-%d' % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        try:
            results = schedule(ir, jobs, limit, tmp)
            bins = fn.result()
            return judge(prop, spec, tier, seed, jobs, results, bins, crate, ir, t0, tb, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def judge(prop, spec, tier, seed, jobs, results, bins, crate, ir, t0, tb, tmp):
    problems = []
    violation = None
    attempts = J.CRATES[crate].get('attempts', 1)
    for r in results:
        if r['status'] == 'violation':
            v = r['violation']
            runs = [(b, native_until(b, r['job'], v['tape'], fails, attempts)) for b in bins]
            rep = [b for b, x in runs if fails(x)]
            if not rep:
                problems.append('counterexample of %s(%d) does not reproduce natively: %s %s tape=%s' %
                                (r['job']['fn'], r['job']['param'], v['kind'], v['detail'], v['tape']))
                continue
            d = os.path.join(WORK, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s-%d.json' % (prop, r['job']['fn'], r['job']['param']))
            json.dump({'property': prop, 'crate': crate, 'fn': r['job']['fn'], 'param': r['job']['param'], 'tape': v['tape'],
                       'kind': v['kind'], 'detail': v['detail'],
                       'native': [{'binary': b, 'rc': x['rc'], 'stdout': x['out'][-1500:], 'stderr': x['err']} for b, x in runs],
                       'how': 'python3 /verif/check.py replay ' + path}, open(path, 'w'), indent=1)
            violation = (path, r, v, [x for _, x in runs])
            break
        if r['status'] == 'error':
            problems.append('%s(%d): %s: %s' % (r['job']['fn'], r['job']['param'], r['status'], r.get(r['status'])))
    # The time of a run is limited: what was explored of a job counts, and what was left is said.
    unfinished = [r for r in results if r['status'] == 'incomplete']
    if not violation and 2 * len(unfinished) > len(results):
        problems.append('out of time: %d of %d jobs unfinished' % (len(unfinished), len(results)))
    cut = {r['job']['fn'] for r in unfinished}
    # reachability witnesses: every named point of the harness was reached by a feasible path
    covers = {}
    for r in results:
        for k, v in r.get('covers', {}).items():
            covers.setdefault(r['job']['fn'], {})
            covers[r['job']['fn']][k] = covers[r['job']['fn']].get(k, 0) + v
    validated = 0
    mismatches = []
    samples = []
    if not violation and not problems:
        for fn_, want in spec.get('covers', {}).items():
            for c in want:
                if covers.get(fn_, {}).get(c, 0) == 0 and fn_ not in cut:
                    problems.append('vacuous: %s never reached "%s"' % (fn_, c))
        # translator validation: sampled traces give the same observations natively
        work = []
        for r in results:
            for s in r['samples'][:J.VALIDATE[tier]]:
                for b in bins:
                    work.append((r['job'], s, b))
        with cf.ThreadPoolExecutor(8) as ex:
            agree = lambda w: lambda x: x['rc'] == 0 and x['obs'] == [str(o) for o in w[1]['obs']]
            for w, x in zip(work, ex.map(lambda w: native_until(w[2], w[0], w[1]['tape'], agree(w), attempts), work)):
                job, s, b = w
                if agree(w)(x):
                    validated += 1
                else:
                    mismatches.append('%s(%d) tape=%s: engine obs %s, native rc=%s obs=%s %s' %
                                      (job['fn'], job['param'], s['tape'], s['obs'], x['rc'], x['obs'], x['err'][-200:]))
        if mismatches:
            problems.append('the engine and the native build disagree on %d sampled traces, e.g. %s' % (len(mismatches), mismatches[0]))
        if validated == 0:
            problems.append('no trace was validated')
    # known findings of this property: they must still be what the list says
    known = []
    if not violation and not problems:
        for k in load_known()['findings']:
            if k['property'] != prop:
                continue
            job = {'fn': k['fn'], 'param': k.get('param', 0), 'engine_args': J.CRATES[crate].get('engine_args', [])}
            r = run_job(ir, job, 1, 120, tmp)
            if r['status'] == 'violation':
                v = r['violation']
                if any(fails(native_until(b, job, v['tape'], fails, attempts)) for b in bins):
                    known.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                else:
                    problems.append('known finding %s: counterexample does not reproduce' % k['id'])
            elif r['status'] != 'ok':
                problems.append('known finding %s: %s' % (k['id'], r.get(r['status'])))
            else:
                print('note: known finding %s no longer occurs' % k['id'])
    tot = {k: sum(r.get(k, 0) for r in results) for k in
           ('paths', 'infeasible', 'forks', 'instructions', 'checks', 'checks_smt', 'branch_table', 'queries', 'sat', 'unsat', 'unknown', 'cache_hits', 'closed', 'open', 'closed_paths')}
    funcs = {}
    for r in results:
        for k, v in r.get('funcs', {}).items():
            funcs[k] = funcs.get(k, 0) + v
    mine = sorted(k for k in funcs if 'apiformes' in k)
    for r in results:
        for s in r.get('samples', [])[:1]:
            samples.append({'harness': r['job']['fn'], 'param': r['job']['param'], 'input_bytes': s['tape'], 'observations': s['obs']})
    samples = samples[:: max(1, len(samples) // 8)][:8]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['instructions'],
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': not problems and not violation and not unfinished,
            'slowest_jobs': [{'harness': r['job']['fn'], 'param': r['job']['param'], 'wall_s': r['wall_s']} for r in sorted(results, key=lambda r: -r.get('wall_s', 0))[:3] if 'wall_s' in r],
            'unfinished_jobs': [{'harness': r['job']['fn'], 'param': r['job']['param'], 'paths_explored': r.get('paths', 0), 'why': r['incomplete']} for r in unfinished],
            'meaning': 'states: feasible symbolic paths explored to their end; transitions: LLVM IR instructions executed symbolically; '
                       'traces: sampled paths whose solver-made input was run on the native dev and release builds with equal observations; closure query: '
                       '"the path conditions of a subtree cover every input and every schedule that reaches its root", asked of the solver as one formula',
            'bounds': spec['bounds'][tier] if isinstance(spec['bounds'], dict) else spec['bounds'],
            'outside': spec['outside'],
            'jobs': len(results),
            'job_list': [{'harness': r['job']['fn'], 'param': r['job']['param'], 'paths': r.get('paths'), 'symbolic_bytes': r.get('max_tape'),
                          'solver_s': r.get('solver_s'), 'wall_s': r.get('wall_s')} for r in results],
            'forks': tot['forks'], 'assertions': tot['checks'], 'assertions_decided_by_smt_query': tot['checks_smt'],
            'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'],
            'branches_decided_by_domain_table': tot['branch_table'], 'query_cache_hits': tot['cache_hits'],
            'closure_queries_unsat': tot['closed'], 'closure_not_asked_or_undecided': tot['open'], 'paths_in_closed_subtrees': tot['closed_paths'],
            'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
            'functions_encoded': len(funcs), 'functions_of_repo_encoded': mine,
            'reachability_witnesses': covers,
            'known_findings': [k['id'] for k in known],
            'build_s': round(tb, 1),
        },
        'assumptions': spec['assumptions'] + J.ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if violation:
        path, r, v, runs = violation
        print('%s(%d): %s: %s' % (r['job']['fn'], r['job']['param'], v['kind'], v['detail']))
        for x in runs:
            print('  native rc=%s %s %s' % (x['rc'], x['out'].strip().splitlines()[-1:], x['err'].strip().splitlines()[-1:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        for p in problems[:6]:
            print('ERROR: ' + p)
        return 3
    if unfinished:
        print('NOTE: out of time, held on what was explored; unfinished: %s' % ' '.join('%s(%d)' % (r['job']['fn'], r['job']['param']) for r in unfinished))
    print('%s held: %d jobs, %d paths, %d assertions, %d queries, solver %.1f s, %d traces validated, %.1f s' %
          (prop, len(results), tot['paths'], tot['checks'], tot['queries'], ev['coverage']['solver_s'], validated, ev['wall_s']))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == 'setup':
            build_engine()
            print(sh([ENGINE, 'selftest', '20000'], HERE).strip())
            for c in J.CRATES:
                build_ir(c)
                build_native(c)
            return 0
        if a and a[0] == 'list':
            for p in J.PROPS:
                print(p, [(j['fn'], j.get('param', 0)) for j in J.PROPS[p]['jobs']('quick')])
            return 0
        if a and a[0] == 'replay':
            d = json.load(open(a[1]))
            bad = 0
            for b in build_native(d['crate']):
                x = native(b, d, d['tape'])
                print(b, 'rc=%s' % x['rc'])
                print(x['out'], x['err'])
                bad |= fails(x)
            return 1 if bad else 0
        if a and a[0] == 'run':
            tier = os.environ.get('VERIF_TIER', 'quick')
            if '--tier' in a:
                tier = a[a.index('--tier') + 1]
            return run(a[1], tier)
    except CheckError as e:
        print('ERROR: %s' % e)
        return 3
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
