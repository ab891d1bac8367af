"""Entry point: python -m mc.main CID quick|thorough [--replay FILE]

Exit 0: the property held on everything explored; exit 1 + VIOLATION line
otherwise. No other exit code is used.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from mc.common import VERIF, execute_job

BUDGET = {'quick': 800, 'thorough': 7200}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == pid:
                out.append(e)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    mod = importlib.import_module('mc.' + pid.lower())
    if len(sys.argv) > 4 and sys.argv[3] == '--replay':
        rep = json.load(open(sys.argv[4]))
        res = execute_job(mod, pid, rep['job'])
        print(json.dumps(res['violations'], indent=1))
        sys.exit(1 if res['violations'] else 0)

    jobs = list(mod.jobs(tier))
    n_workers = min(len(jobs), int(os.environ.get('MC_WORKERS', 0)) or
                    min(8, os.cpu_count() or 1))
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid.lower())
    violations, dumps = [], []
    try:
        procs = []
        # Jobs are grouped by the environment they need (e.g. interpreted
        # kernels); inside a group, the heaviest go first to the least loaded
        # worker.
        weight = getattr(mod, 'weight', lambda j: 1)
        job_env = getattr(mod, 'job_env', lambda j: getattr(mod, 'ENV', {}))
        groups = {}
        for i, j in enumerate(jobs):
            groups.setdefault(json.dumps(job_env(j), sort_keys=True),
                              []).append(i)
        total = sum(weight(j) for j in jobs)
        assign, envs = [], []
        for key, idx in groups.items():
            w_g = sum(weight(jobs[i]) for i in idx)
            n_g = max(1, min(len(idx), round(n_workers*w_g/total)))
            load = [0.]*n_g
            mine = [[] for _ in range(n_g)]
            for i in sorted(idx, key=lambda i: -weight(jobs[i])):
                k = load.index(min(load))
                load[k] += weight(jobs[i])
                mine[k].append((i, jobs[i]))
            assign += mine
            envs += [json.loads(key)]*n_g
        n_workers = len(assign)
        for k in range(n_workers):
            jf = os.path.join(scratch, 'jobs%d.json' % k)
            of = os.path.join(scratch, 'out%d.jsonl' % k)
            json.dump(assign[k], open(jf, 'w'))
            lf = open(os.path.join(scratch, 'log%d' % k), 'w')
            wd = os.path.join(scratch, 'wd%d' % k)
            os.mkdir(wd)
            env = dict(os.environ, MC_SCRATCH=wd,
                       **envs[k])
            procs.append((subprocess.Popen(
                [sys.executable, '-m', 'mc.worker', pid, tier, jf, of],
                cwd=VERIF, stdout=lf, stderr=subprocess.STDOUT, env=env),
                of, k))
        deadline = t0 + int(os.environ.get('MC_BUDGET', 0) or BUDGET[tier])
        if os.environ.get('MC_FAILFAST'):    # development only
            while any(p.poll() is None for p, _, _ in procs) \
                    and time.time() < deadline:
                time.sleep(.3)
                if any(b'"violations": [{' in open(of, 'rb').read()
                       for _, of, _ in procs if os.path.exists(of)) \
                        or any(p.poll() for p, _, _ in procs):
                    print('VIOLATION property=%s replay=failfast' % pid)
                    for p, _, _ in procs:
                        p.kill()
                    sys.exit(1)
        for p, of, k in procs:
            hang = False
            try:
                p.wait(timeout=max(1., deadline - time.time()))
            except subprocess.TimeoutExpired:
                hang = True
                p.kill()
                p.wait()
            started = None
            done = set()
            if os.path.exists(of):
                for line in open(of):
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if 'start' in rec:
                        started = rec['start']
                    else:
                        done.add(rec['idx'])
                        dumps.append(rec['res'])
            if hang or p.returncode != 0:
                log = open(os.path.join(scratch, 'log%d' % k)).read()[-3000:]
                bad = jobs[started] if started is not None else None
                violations.append({
                    'what': ('the code under test did not terminate within '
                             'the budget' if hang else
                             'the process running the code under test died '
                             '(exit %s)' % p.returncode),
                    'job': bad, 'context': None, 'data': {'log': log}})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    for d in dumps:
        violations.extend(d['violations'])
    states = set()
    for d in dumps:
        states.update(d['states'])
    execs = sum(d['executions'] for d in dumps)
    trans = sum(d['transitions'] for d in dumps)
    comps = sum(d['comparisons'] for d in dumps)
    samples = []
    for d in dumps:
        samples.extend(d['samples'])
    samples = samples[::max(1, len(samples)//8)][:8]

    findings = known_findings(pid)
    new = []
    for v in violations:
        key = v['what'] + ' ' + json.dumps(v['context'], sort_keys=True)
        hit = next((f for f in findings if f['match'] in key), None)
        if hit is None:
            new.append(v)
        else:
            hit['_seen'] = True
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))

    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    level = mod.LEVEL
    cov = {
        'samples': samples or ['none'],
        'exhaustive': not violations,
        'rule': mod.BOUNDS[tier],
    }
    if level == 'model_checking':
        cov.update(states=len(states), transitions=trans,
                   traces_validated_against_impl=execs,
                   evaluations=comps)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=len(states),
                   oracle_comparisons=comps)
    ev = {
        'property': pid, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': level, 'coverage': cov,
        'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: jobs=%d executions=%d states=%d transitions=%d '
          'comparisons=%d wall=%.1fs' % (
              pid, tier, len(jobs), execs, len(states), trans, comps,
              time.time() - t0))
    if os.environ.get('MC_VERBOSE'):
        for d in sorted(dumps, key=lambda d: -d['wall'])[:25]:
            print('   %.1fs %d %s' % (d['wall'], d['executions'],
                                       json.dumps(d['job'])[:150]))
    if new:
        path = os.path.join(VERIF, 'evidence', 'replays', pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'job': new[0]['job'],
                       'first': new[0], 'others': new[1:10]}, f, indent=1)
        for v in new[:5]:
            print('  -', v['what'][:300], '| context:',
                  json.dumps(v['context'])[:300])
            if 'traceback' in v['data'] or 'log' in v['data']:
                print('   ', (v['data'].get('traceback') or
                              v['data'].get('log'))[-600:])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # never an error exit without a verdict
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', 'replays', pid + '.json')
        json.dump({'property': pid, 'error': traceback.format_exc()},
                  open(path, 'w'))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
