#!/usr/bin/env python3
"""
check.py PROPERTY [quick|thorough]

Decides one property on the working tree of /repo: enumerates the bounded space of the property in parallel worker
processes, prints KNOWN-FINDING / VIOLATION lines, writes evidence/<PROPERTY>.json and exits with 0 or 1.
"""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.environ.get('VERIF_REPO', '/repo')


def load_known() -> dict:
    known = {}
    with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('{'):
                rec = json.loads(line)
                known[(rec['property'], rec['id'])] = rec
    return known


def spawn(prop, tier, backend, shard, nshards, out, scratch):
    env = dict(os.environ)
    env.update(
        FORCE_STD_XML='true' if backend == 'std' else 'false',
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
        PYTHONHASHSEED=str(int(os.environ.get('VERIF_SEED', '1') or '1') % 4294967295),
        PYTHONPATH=REPO,
        PYTHONWARNINGS='ignore',
        TMPDIR=scratch,
    )
    env.pop('REGISTER_NS_PREFIXES', None)
    return subprocess.Popen(
        [PY, os.path.join(HERE, 'harness', 'worker.py'), prop, tier, backend, str(shard), str(nshards), out],
        env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'),
    )


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replays = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(replays, f))

    from harness import plans
    plan = plans.PLANS[prop]
    ncpu = min(8, os.cpu_count() or 4)
    backends = plan['backends']
    per = max(1, ncpu // len(backends))
    if plan.get('serial'):
        per = 1
    limit = 780 if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_SECONDS', '3000'))
    os.environ.setdefault('VERIF_WORKER_SECONDS', str(limit - 120))

    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        procs = []
        for b in backends:
            for s in range(per):
                out = os.path.join(scratch, f'{b}-{s}.json')
                procs.append((b, s, out, spawn(prop, tier, b, s, per, out, scratch)))
        results = []
        for b, s, out, p in procs:
            try:
                p.wait(timeout=max(1.0, t0 + limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            try:
                with open(out) as f:
                    results.append((b, s, json.load(f)))
            except (OSError, ValueError):
                err = open(out + '.err').read()[-1500:]
                results.append((b, s, {
                    'error': None, 'violations': [{
                        'what': f'the process exploring the property died or did not come back (exit {p.returncode})',
                        'stderr': err}], 'counts': {}, 'states': 0, 'transitions': 0, 'traces': 0, 'programs': 0,
                    'known': {}, 'digests': {}, 'samples': [], 'unjudged': 0, 'jobs': 0, 'done': 0, 'truncated': True,
                    'wall': 0}))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations = []
    for b, s, r in results:
        if r['error']:
            violations.append({'what': 'the library cannot be driven at all', 'backend': b, 'traceback': r['error']})
        for v in r['violations']:
            v['backend'] = b
            violations.append(v)
    if plan.get('merge'):
        mod = importlib.import_module(f'harness.merge')
        violations.extend(getattr(mod, plan['merge'])(results, prop, tier))

    # known findings
    known = load_known()
    hits = {}
    for b, s, r in results:
        for fid, k in r['known'].items():
            h = hits.setdefault(fid, {'hits': 0, 'example': k['example']})
            h['hits'] += k['hits']
    for fid, h in sorted(hits.items()):
        if (prop, fid) in known or ('*', fid) in known:
            rec = known.get((prop, fid)) or known[('*', fid)]
            print(f'KNOWN-FINDING: property={prop} {fid}: {rec["what"]} (e.g. {h["example"][:200]})')
        else:
            violations.append({'what': f'unlisted deviation {fid}', 'example': h['example']})

    tot = lambda k: sum(r[k] for _, _, r in results)  # noqa: E731
    counts = {}
    for _, _, r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
    samples = []
    for _, _, r in results:
        samples.extend(r['samples'][:2])
    truncated = any(r.get('truncated') for _, _, r in results)
    coverage = {
        'states': tot('states'),
        'transitions': tot('transitions'),
        'traces_validated_against_impl': tot('traces'),
        'exhaustive': not truncated,
        'bounds': plan['bounds'].get(tier, plan['bounds']['quick']) if isinstance(plan['bounds'], dict) else plan['bounds'],
        'programs': tot('programs'),
        'backends': backends,
        'outcomes': counts,
        'unjudged_nondeterminism': tot('unjudged'),
        'jobs': {b: max((r.get('jobs', 0) for bb, _, r in results if bb == b), default=0) for b in backends},
        'samples': samples[:8] or ['(see replay)'],
        'how_traces_were_validated': plan['validated'],
        'known_findings_hit': {k: v['hits'] for k, v in hits.items()},
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': plan.get('level', 'model_checking'),
        'coverage': coverage, 'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')

    print(f'{prop} {tier}: states={coverage["states"]} transitions={coverage["transitions"]} '
          f'traces={coverage["traces_validated_against_impl"]} programs={coverage["programs"]} '
          f'exhaustive={coverage["exhaustive"]} wall={evidence["wall_s"]}s')
    if not violations:
        if coverage['states'] == 0:
            violations.append({'what': 'nothing could be explored'})
        else:
            return 0

    from harness import replay
    for i, v in enumerate(violations[:int(os.environ.get('VERIF_SHOW', '5'))]):
        path = os.path.join(replays, f'{prop}-{i}.py')
        replay.write(path, prop, v)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {v["what"]} [{v.get("backend", "")}] {v.get("program", "")}')
        for k in ('doc', 'value', 'kwargs', 'history', 'got', 'expected'):
            if v.get(k):
                print(f'    {k}: {str(v[k])[:600]}')
    return 1


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print(f'VIOLATION property={sys.argv[1]} replay=none')
        code = 1
    sys.exit(code)
