#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]  -- solver-based check of one property against /repo's current working tree.

 1. compile /repo's sources and the property's harness to LLVM IR (clang), link with the runtime model
 2. run the symbolic executor (engine/symx, z3 + cvc5) on every shard of the harness
 3. replay every counterexample against the natively compiled code (g++ with ASan/UBSan)
 4. run sampled symbolic paths natively and compare the observed values
 5. write evidence/<ID>.json; exit 0 / 1 (VIOLATION line)
"""
import sys, os, json, collections, subprocess, time, tempfile, shutil, glob, concurrent.futures as cf, threading, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
NCPU = int(os.environ.get('SX_JOBS', '0')) or min(8, os.cpu_count() or 1)

IRFLAGS = ['-std=c++14', '-O2', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-g1', '-emit-llvm', '-c', '-w',
           '-include', os.path.join(HERE, 'rt', 'sx_pre.h'), '-fno-strict-aliasing', '-fno-builtin-printf', '-fno-builtin-snprintf', '-fno-builtin-sprintf', '-DGUL_USING_STATIC_LIB_OR_OBJECTS',
           '-DLIBGUL_API_VERSION=0.0', '-U_FORTIFY_SOURCE', '-fno-inline-functions-called-once'] 
IRFLAGS = [f for f in IRFLAGS if f != '-fno-inline-functions-called-once']
UBFLAGS = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift-exponent,bool,unreachable,return,float-cast-overflow', '-fsanitize-trap=all']
NATFLAGS = ['-std=c++14', '-O1', '-g1', '-w', '-DGUL_USING_STATIC_LIB_OR_OBJECTS', '-DLIBGUL_API_VERSION=0.0', '-ffp-contract=off',
            '-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift-exponent,bool,unreachable,return,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
RTFLAGS = ['-std=c++14', '-O1', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-include', os.path.join(HERE, 'rt', 'sx_pre.h'), '-g1', '-fno-builtin', '-emit-llvm', '-c', '-w']


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def die(msg):
    print(msg); sys.stdout.flush(); sys.exit(2)


def newer(dst, srcs):
    if not os.path.exists(dst): return False
    t = os.path.getmtime(dst)
    return all(os.path.getmtime(s) <= t for s in srcs)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    srcs = [p for p in glob.glob(os.path.join(HERE, 'engine', '*')) if os.path.isfile(p)]
    if not newer(os.path.join(BUILD, 'symx'), srcs):
        r = run(['make', '-s', '-j4', '-C', os.path.join(HERE, 'engine')])
        if r.returncode: die('engine build failed\n' + r.stdout + r.stderr)
    rts = sorted(glob.glob(os.path.join(HERE, 'rt', 'rt_*.cc')))
    hdr = glob.glob(os.path.join(HERE, 'rt', '*.h'))

    def one(s):
        o = os.path.join(BUILD, os.path.basename(s)[:-3] + '.bc')
        if newer(o, [s] + hdr): return None
        r = run(['clang++-18'] + RTFLAGS + ['-fno-access-control'] + ['-I' + os.path.join(HERE, 'rt'), s, '-o', o + '.tmp'])
        if r.returncode: return r.stderr
        os.rename(o + '.tmp', o)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(one, rts):
            if e: die('runtime model build failed\n' + e)
    return [os.path.join(BUILD, os.path.basename(s)[:-3] + '.bc') for s in rts]


def repo_inc():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'rt'), '-I' + os.path.join(HERE, 'harness')]


def compile_ir(cfg, scratch):
    """harness + library sources -> list of .bc (fresh from the working tree, every run)"""
    srcs = [os.path.join(REPO, 'src', s) for s in cfg.get('src', [])] if 'src' in cfg else sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))
    jobs = [(os.path.join(HERE, 'harness', cfg['harness']), os.path.join(scratch, 'harness.bc'), cfg.get('flags', []))]
    for s in srcs: jobs.append((s, os.path.join(scratch, os.path.basename(s) + '.bc'), cfg.get('flags', [])))

    def one(j):
        f = IRFLAGS + (UBFLAGS if cfg.get('ub', True) else []) + j[2]
        r = run(['clang++-18'] + f + repo_inc() + [j[0], '-o', j[1]])
        return None if r.returncode == 0 else 'clang: ' + j[0] + '\n' + r.stderr[:4000]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(one, jobs):
            if e: die("build of the tree failed\n" + "\n".join([l for l in e.split("\n") if "error" in l][:8]) + "\n" + e)
    return [j[1] for j in jobs]


def compile_native(cfg, scratch):
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))) + [os.path.join(HERE, 'harness', cfg['harness']), os.path.join(HERE, 'rt', 'native.cc')]
    fl = NATFLAGS + repo_inc()
    if cfg.get('threads'): fl = fl + ['-DSX_THREADS']; srcs.append(os.path.join(HERE, 'rt', 'native_threads.cc'))

    def one(s):
        o = os.path.join(scratch, 'n_' + os.path.basename(s) + '.o')
        r = run(['g++'] + fl + cfg.get('natflags', []) + ['-c', s, '-o', o])
        return (o, None if r.returncode == 0 else r.stderr[:4000])
    with cf.ThreadPoolExecutor(4) as ex: res = list(ex.map(one, srcs))
    for o, e in res:
        if e: return None, e
    exe = os.path.join(scratch, 'native')
    r = run(['g++'] + [f for f in fl if f.startswith('-fsan')] + ['-rdynamic', '-o', exe] + [o for o, _ in res] + ['-ldl', '-lpthread'])
    return (exe, None) if r.returncode == 0 else (None, r.stderr[:4000])


def run_native(exe, entry, params, inputs, scratch, tag, timeout=60):
    f = os.path.join(scratch, 'in_%s.txt' % tag)
    with open(f, 'w') as o:
        for n, v in inputs: o.write('%s %s\n' % (n, v))
    try: r = run([exe, entry, f] + [str(p) for p in params], timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='hard_rss_limit_mb=3000:detect_leaks=0'))
    except subprocess.TimeoutExpired: return {'rc': -999, 'out': 'timeout', 'obs': None}
    finally:
        if os.path.exists(f): os.unlink(f)
    m = re.search(r'^OBS(.*)$', r.stdout, re.M)
    return {'rc': r.returncode, 'out': (r.stdout + r.stderr)[-6000:], 'obs': [int(x) for x in m.group(1).split()] if m else None}


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k['status'] == 'open']


def main():
    if sys.argv[1:] == ['--setup']: build_engine(); print('engine and runtime model built'); return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    import checks
    cfg = checks.CHECKS[pid]
    t0 = time.time()
    rts = build_engine()
    scratch = tempfile.mkdtemp(prefix='sx_%s_' % pid)
    try: rc = check(pid, tier, cfg, rts, scratch, t0, only)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, cfg, rts, scratch, t0, only):
    verbose = bool(os.environ.get('SX_VERBOSE'))
    nat_res = [None, 'not built']
    def bn(): nat_res[0], nat_res[1] = compile_native(cfg, scratch)
    nth = threading.Thread(target=bn); nth.start()
    bcs = compile_ir(cfg, scratch)
    linked = os.path.join(scratch, 'all.bc')
    r = run(['llvm-link-18', '-o', linked] + bcs + rts)
    if r.returncode: nth.join(); die('link failed\n' + r.stderr[:4000])
    shards = list(cfg['shards'](tier))
    if only: shards = [s for s in shards if re.search(only, s['entry'] + ':' + ','.join(map(str, s.get('params', []))))]
    budget = cfg.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    deadline = t0 + budget
    known = load_known(pid)
    results = []; lock = threading.Lock(); stop = threading.Event(); procs = set()

    def shard(i_s):
        i, s = i_s
        left = deadline - time.time()
        if left < 3 or stop.is_set(): return {'shard': s, 'skipped': 'deadline' if left < 3 else 'violation found'}
        out = os.path.join(scratch, 'r%d.json' % i)
        tm = min(left, s.get('time', 200 if tier == 'quick' else 1500))
        cmd = [os.path.join(BUILD, 'symx'), linked, '--entry', s['entry'], '--out', out, '--time', '%.0f' % tm, '--solver-timeout', str(s.get('solver_ms', 20000 if tier == 'quick' else 120000)),
               '--samples', str(s.get('samples', 4)), '--mem', str(s.get('mem', 3500))]
        for p in s.get('params', []): cmd += ['--param', str(p)]
        cmd += s.get('opts', [])
        with open(out + '.log', 'w') as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf)
            with lock: procs.add(p)
            try: p.wait(timeout=tm + 60)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            with lock: procs.discard(p)
        res = {'shard': s, 'rc': p.returncode}
        try: res['json'] = json.load(open(out))
        except Exception: res['error' if not stop.is_set() else 'killed'] = 'engine exit %s: %s' % (p.returncode, open(out + '.log').read()[-1500:])
        if verbose: print(s['entry'], s.get('params', []), open(out + '.log').read().strip()[:3000]); sys.stdout.flush()
        if (res.get('json') or {}).get('violations'):
            nth.join()
            res['recs'] = [confirm(i, s, v) for v in res['json']['violations']]
            if any(rec['confirmed_by'] and not kf for rec, kf in res['recs']):
                stop.set()
                with lock:
                    for q in procs: q.kill()
        return res

    def confirm(i, s, v):
        """replay one counterexample against the real code"""
        conf = None; detail = ''; nat = nat_res[0]
        if nat:
            n = run_native(nat, s['entry'], s.get('params', []), v['inputs'], scratch, 'v%d' % i, timeout=15 if v['kind'] == 'nontermination' else 60)
            detail = n['out']
            if n['rc'] not in (0, 4, 5): conf = 'native (exit %s)' % n['rc']
        if not conf and (v['kind'] not in ('check', 'property') or cfg.get('engine_replay')):
            # what sanitizers cannot see (uninitialised reads, schedules): concrete replay of the real code's IR
            f = os.path.join(scratch, 'rep%d.txt' % i)
            with open(f, 'w') as o:
                for n_, x in v['inputs']: o.write('%s %s\n' % (n_, x))
            cmd = [os.path.join(BUILD, 'symx'), linked, '--entry', s['entry'], '--replay', f, '--out', os.path.join(scratch, 'rep%d.json' % i), '--time', '60'] + sum([['--param', str(p)] for p in s.get('params', [])], []) + s.get('opts', [])
            rr = run(cmd)
            if rr.returncode == 1: conf = 'interpreted IR of the real code, concrete inputs'
            detail += '\n' + rr.stderr[-3000:]
        rec = {'property': pid, 'entry': s['entry'], 'params': s.get('params', []), 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'stack': v['stack'], 'inputs': v['inputs'], 'confirmed_by': conf, 'replay_output': detail}
        kf = [q for q in known if q.get('entry', s['entry']) == s['entry'] and q['match'] in v['msg'] + ' @ ' + v['where']]
        return rec, (kf[0] if kf and conf else None)
    # most workers take the long shards first, the others the short ones (quick counterexamples)
    dq = collections.deque(sorted(enumerate(shards), key=lambda x: -x[1].get('weight', 1)))
    def worker(w):
        while True:
            with lock:
                if not dq: return
                it = dq.popleft() if w % 8 < 5 else dq.pop()
            r = shard(it)
            with lock: results.append((it[0], r))
    with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(worker, range(NCPU)))
    results = [r for _, r in sorted(results, key=lambda x: x[0])]
    nth.join()
    nat, naterr = nat_res
    known_hit = {}
    viols, unconfirmed, mismatches, validated = [], [], [], 0
    for recs in (r.get('recs', []) for r in results):
        for rec, kf in recs:
            if kf: known_hit[kf['id']] = kf
            elif rec['confirmed_by']: viols.append(rec)
            else: unconfirmed.append(rec)
    # validate sampled paths natively
    todo = []
    for k, res in enumerate(results):
        for j, sm in enumerate((res.get('json') or {}).get('samples', [])): todo.append((k, j, res['shard'], sm))
    cap = 600 if tier == 'quick' else 3000
    todo = todo[:: max(1, len(todo) // cap + (1 if len(todo) > cap else 0))]
    if nat and not cfg.get('no_native_samples'):
        def val(t):
            k, j, s, sm = t
            return t, run_native(nat, s['entry'], s.get('params', []), sm['in'], scratch, 's%d_%d' % (k, j))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for t, n in ex.map(val, todo):
                if n['rc'] == 0 and n['obs'] == [int(x) for x in t[3]['obs']]: validated += 1
                else: mismatches.append({'entry': t[2]['entry'], 'params': t[2].get('params', []), 'in': t[3]['in'], 'engine_obs': t[3]['obs'], 'native_obs': n['obs'], 'rc': n['rc'], 'out': n['out'][-800:]})
    js = [r['json'] for r in results if r.get('json')]
    S = lambda key: sum(j.get(key, 0) for j in js)
    reached = {}
    for j in js:
        for l, c in j['reached'].items(): reached[l] = reached.get(l, 0) + c
    incomplete = {}
    for j in js:
        for l, c in j['incomplete'].items(): incomplete[l] = incomplete.get(l, 0) + c
    funcs = sorted(set(f for j in js for f in j['functions']))
    errs = [r.get('error') for r in results if r.get('error')]
    skipped = [r for r in results if r.get('skipped')]
    partial = [('%s%s: %s' % (r['shard']['entry'], r['shard'].get('params', []), r['json']['stop'] or 'incomplete paths')) for r in results if r.get('json') and not r['json']['exhausted'] and not r['json']['violations']]
    vac = [l for l in cfg.get('reach', []) if l not in reached] if not only else []
    samples = [{'entry': t[2]['entry'], 'params': t[2].get('params', []), 'inputs': t[3]['in'][:40], 'observed': t[3]['obs'][:20]} for t in todo[:5]]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': S('states'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated, 'samples': samples,
                       'technique': 'symbolic execution of the LLVM IR of the real code; z3 and cvc5 decide every branch and assertion for all values within the bounds',
                       'functions_encoded': funcs, 'bounds': cfg.get('bounds', ''), 'outside_bounds': cfg.get('outside', ''),
                       'shards': len(shards), 'shards_exhausted': sum(1 for j in js if j['exhausted']), 'shards_skipped': len(skipped), 'shards_partial': partial[:40],
                       'paths': S('paths'), 'paths_assumption_excluded': S('assume_killed'), 'paths_incomplete': S('incomplete_paths'), 'incomplete_reasons': dict(sorted(incomplete.items(), key=lambda x: -x[1])[:10]),
                       'queries': S('queries'), 'solver_calls': S('solver_calls'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'), 'cvc5_solved': S('cvc5_solved'), 'interval_discharged': S('interval_unsat'),
                       'assertions_checked': S('checks'), 'assertions_symbolic': S('symbolic_checks'), 'solver_s': round(S('solver_s'), 2), 'max_query_s': round(max([j['max_query_s'] for j in js] or [0]), 2), 'engine_cpu_s': round(S('wall_s'), 2),
                       'sched_points': S('sched_points'), 'max_threads': max([j['max_threads'] for j in js] or [0]),
                       'reached': reached, 'unreached_expected_labels': vac, 'engine_errors': errs[:5], 'native_build_error': naterr,
                       'sample_mismatches': mismatches[:5], 'unconfirmed': [{k: u[k] for k in ('entry', 'params', 'kind', 'msg', 'where', 'inputs')} for u in unconfirmed[:5]],
                       'exhaustive_within_bounds': not partial and not skipped and not errs and not vac},
          'assumptions': cfg.get('assumptions', []) + checks_common_assumptions(), 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    if os.environ.get('SX_NO_EVIDENCE') is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in known_hit.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    c = ev['coverage']
    print('%s %s: shards %d (exhausted %d, partial %d, skipped %d, errors %d) paths %d queries %d solver %.1fs assertions %d (symbolic %d) validated %d mismatches %d wall %.1fs' % (pid, tier, c['shards'], c['shards_exhausted'], len(partial), len(skipped), len(errs), c['paths'], c['queries'], c['solver_s'], c['assertions_checked'], c['assertions_symbolic'], validated, len(mismatches), ev['wall_s']))
    for e in errs[:3]: print('ENGINE-ERROR', e)
    for l in vac: print('VACUITY: expected label never reached:', l)
    for p in partial[:8]: print('PARTIAL', p)
    for k_, n_ in c['incomplete_reasons'].items(): print('INCOMPLETE %d x %s' % (n_, k_))
    for m in mismatches[:3]: print('SAMPLE-MISMATCH', json.dumps(m)[:1500])
    for u in unconfirmed[:3]: print('UNCONFIRMED', u['kind'], u['msg'], u['where'], u['inputs'][:60], u['replay_output'][-600:])
    if naterr: print('NATIVE-BUILD', naterr[:1500])
    if viols:
        d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viols[:5]):
            p = os.path.join(d, '%s_%d.json' % (pid, n))
            with open(p, 'w') as f: json.dump(v, f, indent=1)
            print('  %s: %s at %s' % (v['kind'], v['msg'], v['where'])); print('  inputs: %s' % ' '.join('%s=%s' % (a, b) for a, b in v['inputs'])[:1500]); print('  confirmed by: %s' % v['confirmed_by'])
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


def checks_common_assumptions():
    return ['LLVM IR produced by clang 18 at -O2 represents the sources; the out-of-line parts of libstdc++ and libc are replaced by the models in /verif/rt (sampled paths are re-run natively with g++ and real libstdc++)',
            'allocation does not fail unless the harness injects it; little-endian x86-64, LP64']


if __name__ == '__main__': main()
