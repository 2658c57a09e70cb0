#!/opt/venv/bin/python
"""Entry point of every check:  run.py PROP [--tier quick|thorough] [--replay FILE] [--scale X] [--sub NAME]

Exit 0: held on everything explored. Exit 1 + 'VIOLATION property=<id> replay=<path>': broken. Exit 2: harness error.
"""
import argparse
import concurrent.futures
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import env  # noqa: E402

os.environ['PYTHONHASHSEED'] = '0'
PY = sys.executable


def load(prop):
    env.setup()
    return importlib.import_module('checks.' + prop.lower())


def read_known(prop):
    """Known findings: committed, never written at run time. Returns (open findings, fixed ones)."""
    path = os.path.join(env.VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get('property') == prop and e.get('status') == 'open':
                        out.append(e)
    return out


def replay(prop, path):
    from harness import core
    mod = load(prop)
    with open(path) as f:
        r = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == r['sub'])
    try:
        core.run_case(sub, r['case'])
    except core.Reject:
        print('replay: case is outside the domain of the property')
        return 0
    except core.Violation as v:
        print(str(v))
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print('replay: the property holds on this case')
    return 0


def setup_check():
    env.setup()
    import hypothesis
    import lxml.etree
    print('python', sys.version.split()[0], 'hypothesis', hypothesis.__version__, 'lxml', lxml.etree.__version__)
    return 0


def main():
    if sys.argv[1:2] == ['--setup']:
        return setup_check()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4))
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        return replay(prop, a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    mod = load(prop)
    from harness import core
    subs = [s for s in mod.SUBS if not a.sub or s.name in a.sub]
    tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    failures, errors, results = [], [], []
    evaluations = 0
    samples, per_sub, distinct = [], {}, set()

    # 1. Known findings and the committed regression corpus, in this process.
    known_hashes = set()
    for e in read_known(prop):
        sub = next(s for s in mod.SUBS if s.name == e['sub'])
        known_hashes.add(core.case_hash(e['case']))
        evaluations += 1
        try:
            core.run_case(sub, e['case'])
        except core.Violation:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
        except core.Reject:
            pass
    corpus = 0
    for path in sorted(glob.glob(os.path.join(env.VERIF, 'corpus', prop, '*.json'))):
        with open(path) as f:
            r = json.load(f)
        if a.sub and r['sub'] not in a.sub:
            continue
        sub = next((s for s in mod.SUBS if s.name == r['sub']), None)
        if sub is None:
            continue
        corpus += 1
        evaluations += 1
        try:
            if core.run_case(sub, r['case']):
                distinct.add(sub.name + core.case_hash(r['case']))
        except core.Reject:
            pass
        except core.Violation as v:
            if core.case_hash(r['case']) not in known_hashes:
                failures.append((sub.name, r['case'], str(v)))

    # 2. Generated search, one process per shard.
    tasks = []
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards if tier == 'quick' else max(s.shards, 4)
        per = max(1, -(-n // shards))
        budget = s.budget[0] if tier == 'quick' else s.budget[1]
        for k in range(shards):
            tasks.append((s, k, per, budget))

    def run_task(t):
        s, k, n, budget = t
        out = os.path.join(tmp, f'{s.name}-{k}.json')
        cmd = [PY, '-m', 'harness.worker', prop, s.name, str(k), str(seed), tier, str(n), str(budget), out]
        wd = os.path.join(tmp, f'wd-{s.name}-{k}')
        os.makedirs(wd, exist_ok=True)
        e = dict(os.environ, PYTHONPATH=env.VERIF, VERIF_SCRATCH=wd, TMPDIR=wd, PYTHONDONTWRITEBYTECODE='1')
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=budget + 300)
            text = p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as x:
            text = 'worker timed out\n' + (x.stdout or b'').decode('utf-8', 'replace')
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        return {'sub': s.name, 'error': 'worker died: ' + text[-3000:], 'evaluations': 0, 'rejected': 0,
                'nontrivial': [], 'samples': [], 'failure': None, 'stopped': None, 'wall_s': 0, 'seed': None, 'asked': n}

    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        results = list(ex.map(run_task, tasks))

    for r in results:
        d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'outside_domain': 0, 'nontrivial': set(), 'wall_s': 0, 'cut_by_time': 0})
        d['evaluations'] += r['evaluations']
        d['outside_domain'] += r['rejected']
        d['nontrivial'].update(r['nontrivial'])
        d['wall_s'] = round(d['wall_s'] + r['wall_s'], 2)
        d['cut_by_time'] += bool(r['stopped'])
        evaluations += r['evaluations']
        if r['samples'] and len(d.setdefault('s', [])) < 2:
            d['s'].extend(r['samples'][:2])
        if r['failure']:
            if core.case_hash(r['failure']['case']) in known_hashes:
                continue
            failures.append((r['sub'], r['failure']['case'], r['failure']['message']))
        if r['error']:
            errors.append((r['sub'], r['error']))
    for name, d in per_sub.items():
        for s in d.pop('s', [])[:2]:
            samples.append({'sub': name, 'case': s})
        distinct.update(name + h for h in d['nontrivial'])
        d['nontrivial'] = len(d['nontrivial'])

    code = 0
    seen = set()
    for name, case, msg in failures:
        if name in seen:
            continue
        seen.add(name)
        path = os.path.join(env.VERIF, 'replays', prop, f'{name}-{core.case_hash(case)}.json')
        core.write_json(path, {'property': prop, 'sub': name, 'case': case, 'message': msg, 'seed': seed})
        print(f'--- {prop}/{name}: {msg[:3000]}')
        print(f'    case: {core.jdump(case)[:2000]}')
        print(f'VIOLATION property={prop} replay={path}')
        code = 1
    for name, err in errors:
        print(f'HARNESS ERROR in {prop}/{name}:\n{err}', file=sys.stderr)
    if errors and not code:
        code = 2
    rules = '; '.join(f'{s.name}: {s.rule}' for s in subs)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': rules,
            'samples': samples or [{'note': 'no non-trivial case'}], 'subchecks': per_sub, 'corpus_cases': corpus,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(seen),
    }
    if not a.sub:
        core.write_json(os.path.join(env.VERIF, 'evidence', prop + '.json'), ev)
    shutil.rmtree(tmp, ignore_errors=True)
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
          f"{len(seen)} violation(s), {len(errors)} error(s), {ev['wall_s']} s")
    return code


if __name__ == '__main__':
    sys.exit(main())
