#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of the real code.
exit 0: holds on everything explored; exit 1 + VIOLATION line: counterexample reproduced on the real code;
exit 2: no verdict (incomplete exploration, build failure, unreproduced counterexample)."""
import json, os, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
from build import VERIF, OUT

def known_file():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}

def fmt_inputs(task, inputs):
    s = ''.join('param %s %d\n' % kv for kv in sorted(task['params'].items()))
    for n, h in inputs: s += 'input %s %s\n' % (n, h or '-')
    return s

def hexof(v):  # engine emits strings already hex encoded
    return v

class Runner:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.B = build.Builder()
        self.work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    def replay(self, h, entry, text, extra_env=None, timeout=60):
        """runs one concrete input against the native build; returns (kind, stdout, stderr)"""
        exe = self.B.native(h).result()
        fd, f = tempfile.mkstemp(dir=self.work); os.write(fd, text.encode()); os.close(fd)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:' + (extra_env or ''))
        try:
            p = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 'timeout', '', ''
        out, err = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
        if p.returncode == 0: k = 'ok'
        elif p.returncode == 77: k = 'assume'
        elif 'ASSERT-FAIL' in out: k = 'assert'
        elif 'AddressSanitizer' in err: k = 'memory'
        elif 'TERMINATE' in out: k = 'terminate'
        elif p.returncode < 0: k = 'signal%d' % -p.returncode
        else: k = 'exit%d' % p.returncode
        return k, out, err

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    R = Runner(prop, tier)
    try:
        return work(R, prop, tier, seed, P)
    except build.BuildError as e:
        print('ERROR property=%s build failed\n%s' % (prop, e)); return 2
    except Exception:
        import traceback; traceback.print_exc(file=sys.stdout); print('ERROR property=%s internal error' % prop); return 2
    finally:
        shutil.rmtree(R.work, ignore_errors=True)

def work(R, prop, tier, seed, P):
    B = R.B
    tasks = P['tasks'](tier)
    byh = {}
    for i, t in enumerate(tasks):
        t['id'] = 't%04d' % i
        byh.setdefault(t['h'], []).append(t)
    entries = {h: sorted(set(t['entry'] for t in ts)) for h, ts in byh.items()}
    eng = B.fut('engine', B._engine)
    progs = {h: B.prog(h, tuple(entries[h])) for h in byh}
    eng = eng.result()
    order = sorted(byh, key=lambda h: -sum(t.get('cost', 1) for t in byh[h]))
    results = {}
    # the native build for replays proceeds once the bitcode is there
    bad = []
    for h in order: progs[h].result()
    t_build = time.time() - R.t0
    natives = {h: B.native(h) for h in byh}
    t1 = time.time()
    procs = []
    jobs_total = 8
    # all harness programs run together, sharing the cores through one task queue per program
    share = {}
    tot = sum(sum(t.get('cost', 1) for t in byh[h]) for h in byh)
    sem_jobs = ThreadPoolExecutor(max_workers=jobs_total)
    def run_group(h, ts, k):
        wd = os.path.join(R.work, '%s_%d' % (h, k)); os.makedirs(wd)
        with open(wd + '/tasks', 'w') as f:
            for t in ts:
                f.write('%s %s %g %d %s\n' % (t['id'], t['entry'], float(os.environ.get('VP_TIMEOUT') or t.get('timeout', 300)), t.get('samples', 2), ' '.join('%s=%d' % kv for kv in t['params'].items())))
        j = max(1, min(len(ts), share[h]))
        p = subprocess.run([eng, progs[h].result(), wd + '/tasks', wd, '-j', str(j)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED=str(seed)))
        for t in ts:
            f = wd + '/' + t['id'] + '.json'
            if os.path.exists(f): results[t['id']] = json.load(open(f))
            else: bad.append('%s %s %s: engine died: %s' % (t['id'], t['entry'], t['params'], p.stdout.decode(errors='replace')[-400:]))
    groups = []
    # split every program's tasks into chunks run by single-job engine processes, largest first
    for h in order:
        share[h] = 1
        ts = sorted(byh[h], key=lambda t: -t.get('cost', 1))
        n = max(1, min(len(ts), round(2.5 * jobs_total * sum(t.get('cost', 1) for t in ts) / tot)))
        buckets = [[0, []] for _ in range(n)]
        for t in ts:
            b = min(buckets, key=lambda b: b[0]); b[0] += t.get('cost', 1); b[1].append(t)
        for b in buckets: groups.append((b[0], h, b[1]))
    groups.sort(key=lambda g: -g[0])
    list(sem_jobs.map(lambda a: run_group(a[1][1], a[1][2], a[0]), enumerate(groups)))
    t_explore = time.time() - t1

    # ---- verdicts
    kf = {f['id']: f for f in known_file()['findings']}
    viol, unrepro, knowns, inconclusive = [], [], {}, list(bad)
    tot = {k: 0 for k in ('paths', 'insts', 'forks', 'sym_branches', 'asserts', 'allocs', 'throws', 'uninit_reads', 'concretizations', 'alloc_fails', 'queries', 'z3_calls', 'cache_hits', 'model_hits', 'sat', 'unsat', 'unknown')}
    solver_s = 0.0; maxq = 0.0; functions = set(); tags = {}; covers = {}; ends = {}
    repl = []
    for t in tasks:
        r = results.get(t['id'])
        if r is None: continue
        for k in tot: tot[k] += r[k]
        solver_s += r['solver_s']; maxq = max(maxq, r['max_query_s'])
        functions.update(r['functions'])
        for k, v in r['assert_tags'].items(): tags[k] = tags.get(k, 0) + v
        for c in r['covers']: covers[c] = covers.get(c, 0) + 1
        for k, v in r['path_ends'].items(): ends[k] = ends.get(k, 0) + v
        name = '%s %s' % (t['entry'], ' '.join('%s=%d' % kv for kv in t['params'].items()))
        if not r['complete'] and not r['violations']: inconclusive.append(name + ': incomplete: ' + '; '.join(r['incomplete'][:3]))
        for need in t.get('need', ['end']):
            if need not in r['covers'] and not r['violations']: inconclusive.append(name + ': vacuous: "%s" never reached' % need)
        for v in r['violations'][:6]: repl.append((t, v, name))
        for v in r['knowns']:
            k = v['known']
            if k not in kf or prop not in kf[k]['properties']: repl.append((t, v, name))
            else: knowns.setdefault(k, []).append((t, v, name))
    # replay counterexamples on the native build of the real sources
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', prop + '-replays')
    shutil.rmtree(rdir, ignore_errors=True)
    repl = repl[:60]
    pool = ThreadPoolExecutor(8)
    def try_replay(a):
        t, v, name = a
        text = fmt_inputs(t, v['inputs'])
        for env in ('', 'max_malloc_fill_size=4096:malloc_fill_byte=255', 'max_malloc_fill_size=4096:malloc_fill_byte=0', 'max_malloc_fill_size=4096:malloc_fill_byte=1'):
            k, out, err = R.replay(t['h'], t['entry'], text, env)
            if k not in ('ok', 'assume'): return k, out, err, text
        return k, out, err, text
    for (t, v, name), (k, out, err, text) in zip(repl, pool.map(try_replay, repl)):
        desc = '%s: %s: %s at %s' % (name, v['kind'], v['msg'], v['loc'])
        if k in ('ok', 'assume'): unrepro.append(desc + ' (native: %s)' % k); continue
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, 'v%03d.txt' % len(viol))
        with open(f, 'w') as o:
            o.write(text)
            o.write('\n# harness h_%s.cpp entry %s\n# %s\n# native outcome: %s\n# trace: %s\n' % (t['h'], t['entry'], desc, k, v['trace']))
            for l in (out + err).splitlines()[:60]: o.write('# ' + l + '\n')
        viol.append((f, desc, k))
    # a few complete paths are validated on the native build: same observations
    valid = mism = 0; samples = []
    vs = []
    for t in tasks:
        r = results.get(t['id'])
        if r and not r['violations']:
            for s in r['samples']: vs.append((t, s))
    import random
    random.Random(seed).shuffle(vs)
    vs = vs[:P.get('validate', 120)]
    def validate(a):
        t, s = a
        k, out, err = R.replay(t['h'], t['entry'], fmt_inputs(t, s['inputs']))
        logs = [l.split()[1] for l in out.splitlines() if l.startswith('LOG ')]
        return k == 'ok' and logs == s['logs'], k, logs, err
    for (t, s), (ok, k, logs, err) in zip(vs, pool.map(validate, vs)):
        if ok: valid += 1
        else:
            mism += 1
            inconclusive.append('%s %s: path replay differs from the native run: inputs=%s native=%s engine logs=%s native logs=%s %s' % (t['entry'], t['params'], s['inputs'], k, s['logs'][:40], logs[:40], err[-600:]))
        if len(samples) < 6: samples.append({'entry': t['entry'], 'params': t['params'], 'inputs': dict(s['inputs']), 'observed': s['logs'][:24]})
    wall = time.time() - R.t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'),
        'coverage': {
            'states': tot['paths'], 'transitions': tot['sym_branches'],
            'traces_validated_against_impl': valid, 'samples': samples,
            'tasks': len(tasks), 'bounds': P['bounds'] if isinstance(P['bounds'], str) else P['bounds'](tier),
            'exhaustive': not inconclusive and not viol,
            'outside_bounds': P.get('outside', ''),
            'functions_encoded': sorted(functions), 'function_count': len(functions),
            'instructions_executed': tot['insts'], 'path_forks': tot['forks'],
            'assertions_checked': tot['asserts'], 'assertion_tags': tags, 'covers': covers, 'path_ends': ends,
            'solver_queries': tot['queries'], 'solver_calls': tot['z3_calls'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'],
            'solver_unknown': tot['unknown'], 'solver_seconds': round(solver_s, 2), 'max_query_seconds': round(maxq, 3),
            'exceptions_thrown': tot['throws'], 'uninitialised_reads': tot['uninit_reads'],
            'build_seconds': round(t_build, 1), 'explore_seconds': round(t_explore, 1), 
        },
        'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
        'violations': len(viol), 'violation_details': [{'replay': f, 'what': d, 'native': k} for f, d, k in viol],
        'known_findings': sorted(knowns), 'wall_s': round(wall, 1),
    }
    if os.environ.get('VP_DUMP'):
        for t in tasks:
            r = results.get(t['id'])
            if r: (os.environ['VP_DUMP']>'1') and print('TASK %s %s paths=%d queries=%d z3=%d solver=%.1f insts=%d %s' % (t['entry'], t['params'], r['paths'], r['queries'], r['z3_calls'], r['solver_s'], r['insts'], 'OK' if r['complete'] else r['incomplete'][:1]))
        grp = {}
        for f, d, k in viol: grp.setdefault(d.split(': ', 1)[1] + ' [%s]' % k, []).append(d.split(': ', 1)[0])
        for g, l in sorted(grp.items()): print('  V %s   (%d: %s)' % (g, len(l), l[0]))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in sorted(knowns): print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kf[k]['what']))
    for d in unrepro: print('UNREPRODUCED ' + d)
    for d in inconclusive[:20]: print('INCONCLUSIVE ' + d)
    print('%s %s: %d tasks, %d paths, %d queries (%d solver calls, %.1fs), %d assertions, %d traces validated, build %.0fs explore %.0fs wall %.0fs' % (
        prop, tier, len(tasks), tot['paths'], tot['queries'], tot['z3_calls'], solver_s, tot['asserts'], valid, t_build, t_explore, wall))
    if viol:
        for f, d, k in viol[:5]: print('  counterexample: %s [native: %s]' % (d, k))
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][0]))
        return 1
    if unrepro or inconclusive: return 2
    print('OK property=%s' % prop)
    return 0

if __name__ == '__main__': sys.exit(main())
