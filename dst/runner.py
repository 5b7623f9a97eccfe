"""Runs one check: search in parallel workers, minimise, replay, known findings, evidence."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import threading
import time

from dst import core, shrink

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('DST_PYTHON', sys.executable)
DEADLINE = {'quick': 300.0, 'thorough': 3300.0}


def env(hashseed='0'):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'UDAPI_REPO', 'VERIF_SEED', 'VERIF_TIER')}
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONWARNINGS='ignore', PYTHONPYCACHEPREFIX='/nonexistent/pycache',
             PYTHONPATH=core.REPO + os.pathsep + HERE)
    return e


def known_findings(prop):
    """Entries of known_findings.txt: `known: property=P sig=S replay=PATH what` (fixed: lines suppress nothing)."""
    found = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('known:'):
                words = line.split(None, 4)
                fields = dict(x.split('=', 1) for x in words[1:4])
                if fields['property'] == prop:
                    found.append((fields['sig'], os.path.join(HERE, fields['replay']), words[4].strip()))
    return found


def spawn_workers(prop, seed, tier, runs, workers, deadline, known, hashseeds=('0',), extra=()):
    procs = []
    for w in range(workers):
        procs.append(subprocess.Popen(
            [PY, '-m', 'dst.worker', prop, str(seed), tier, str(w), str(workers), str(runs), str(deadline), json.dumps(sorted(known)), *extra],
            cwd=HERE, env=env(hashseeds[w % len(hashseeds)]), stdout=subprocess.PIPE, stdin=subprocess.DEVNULL))
    return procs


def collect(procs, stop_on_violation=True):
    summaries, violations, unconfirmed, lock = [], [], [], threading.Lock()

    def read(p):
        for line in p.stdout:
            try:
                msg = json.loads(line)
            except ValueError:
                continue
            with lock:
                if msg['type'] == 'summary':
                    summaries.append(msg)
                elif msg['type'] == 'violation':
                    violations.append(msg)
                else:
                    unconfirmed.append(msg)
    threads = [threading.Thread(target=read, args=(p,), daemon=True) for p in procs]
    for t in threads:
        t.start()
    while any(t.is_alive() for t in threads):
        for t in threads:
            t.join(0.1)
        if violations and stop_on_violation:
            time.sleep(0.2)
            for p in procs:
                p.kill()
            break
    for t in threads:
        t.join(20)
    failed = [p for p in procs if p.wait() not in (0, -9)]
    return summaries, violations, unconfirmed, failed


def do_replay(path, verbose=True, keep_log=False):
    """Replay a file in this process's fork. Returns (reproduced, result)."""
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    core.preload()
    mod = importlib.import_module('dst.props.' + rec['property'].lower())
    if hasattr(mod, 'prepare'):
        mod.prepare()
    res = core.run_confirmed(mod, rec['plan'], keep_log=keep_log)
    same = res['status'] in ('violation', 'harness') and res['oracle'] == rec['oracle']
    exact = same and res['digest'] == rec['digest']
    if verbose:
        if keep_log:
            for line in res.get('log', []):
                print(line)
        if res.get('trace'):
            print(res['trace'])
        print(json.dumps({'status': res['status'], 'oracle': res['oracle'], 'message': res['msg'], 'sig': res['sig'],
                          'reproduced': same, 'identical_log': exact}))
        if same:
            print(f"VIOLATION property={rec['property']} replay={path}")
    return same, exact, res, rec


def replay_in_new_process(path):
    p = subprocess.run([PY, os.path.join(HERE, 'check.py'), '--replay', path], cwd=HERE, env=env(), stdout=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=600, check=False)
    text = p.stdout.decode('utf-8', 'replace')
    same = exact = False
    for line in text.splitlines():
        if line.startswith('{'):
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            same, exact = rec.get('reproduced', False), rec.get('identical_log', False)
    return same, exact


def write_replay(prop, seed, run, plan, res, name=None):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', name or f'{prop}-seed{seed}-run{run}.json')
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'seed': seed, 'run': run, 'oracle': res['oracle'], 'message': res['msg'], 'sig': res['sig'],
                   'digest': res['digest'], 'plan': plan}, f, indent=1, ensure_ascii=True)
        f.write('\n')
    return path


def check(prop, tier, seed, runs=None, workers=None, minimise=True, evidence=True):
    t0 = time.monotonic()
    core.preload()
    mod = importlib.import_module('dst.props.' + prop.lower())
    if hasattr(mod, 'prepare'):
        mod.prepare()
    runs = runs or mod.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 8)
    known = known_findings(prop)
    known_seen = []
    for sig, path, what in known:
        _, _, res, rec = do_replay(path, verbose=False)
        if res['status'] == 'violation' and res['sig'] == sig:
            known_seen.append(sig)
            print(f"KNOWN-FINDING: property={prop} {what}")
    # committed regression plans first: histories that once broke a planted or real bug
    violations, regress = [], 0
    rdir = os.path.join(HERE, 'regress', prop)
    for name in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        with open(os.path.join(rdir, name), encoding='utf-8') as f:
            rec = json.load(f)
        res = core.run_confirmed(mod, rec['plan'])
        regress += 1
        if res['status'] in ('violation', 'harness') and res['sig'] not in {k[0] for k in known}:
            violations.append({'run': 'regress-' + name, 'plan': rec['plan'], 'res': res})
            break
    summaries, unconfirmed, failed = [], [], []
    if not violations:
        procs = spawn_workers(prop, seed, tier, runs, workers, DEADLINE[tier], [k[0] for k in known])
        summaries, violations, unconfirmed, failed = collect(procs)
    search_wall = time.monotonic() - t0
    reported = None
    if violations:
        v = min(violations, key=lambda m: m['run'] if isinstance(m['run'], int) else -1)
        plan, res = v['plan'], v['res']
        path = write_replay(prop, seed, v['run'], plan, res)
        shrink_runs = 0
        if minimise and res['status'] == 'violation':
            plan, shrink_runs = shrink.minimise(mod, plan, core.run_confirmed if res['oracle'] == 'no-progress' else core.run_isolated,
                                                res['oracle'], seconds=60 if tier == 'quick' else 240)
            res2 = core.run_confirmed(mod, plan)
            if res2['status'] == 'violation' and res2['oracle'] == res['oracle']:
                res = res2
                small = write_replay(prop, seed, v['run'], plan, res2, f"{prop}-seed{seed}-run{v['run']}-min.json")
                same, exact = replay_in_new_process(small)
                if same:
                    path = small
        same, exact = replay_in_new_process(path)
        print(f"{prop}: {res['oracle']}: {res['msg']}")
        print(f"{prop}: signature {res['sig']}; replay reproduced={same} identical_log={exact} (shrink runs: {shrink_runs})")
        print(f"VIOLATION property={prop} replay={path}")
        reported = {'oracle': res['oracle'], 'message': res['msg'], 'sig': res['sig'], 'replay': path, 'reproduced': same,
                    'identical_log': exact}
    wall = time.monotonic() - t0
    if not evidence:
        print(f"{prop} seed={seed}: {sum(s['runs'] for s in summaries)} runs, {wall:.1f}s, no evidence written")
    else:
        write_evidence(mod, prop, tier, seed, runs, workers, summaries, known_seen, reported, unconfirmed, wall, search_wall, regress)
    if reported:
        return 1
    if failed or not summaries:
        print(f"{prop}: a worker process failed")
        return 2
    if unconfirmed:
        for u in unconfirmed[:3]:
            print(f"{prop}: run {u['run']} could not be decided: {u['res']['msg']}")
        return 2
    return 0


def write_evidence(mod, prop, tier, seed, planned, workers, summaries, known_seen, reported, unconfirmed, wall, search_wall, regress):
    runs = sum(s['runs'] for s in summaries)
    states = set()
    counts, known_hits, xor = {}, {}, 0
    for s in summaries:
        states.update(s['states'])
        xor ^= s['xor']
        for k, v in s['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in s['known'].items():
            known_hits[k] = known_hits.get(k, 0) + v
    pick = lambda pre: {k[len(pre):]: v for k, v in sorted(counts.items()) if k.startswith(pre)}
    samples = [{'run': s['run'], 'digest': s['digest'], 'plan': json.loads(json.dumps(s['plan']))}
               for x in summaries for s in x['samples']][:3]
    for s in samples:
        text = json.dumps(s['plan'])
        if len(text) > 4000:
            s['plan'] = text[:4000] + '...'
    coverage = {
        'evaluations': sum(v for k, v in counts.items() if k.startswith('oracle:')) or runs,
        'distinct_nontrivial': len(states),
        'rule': mod.STATE_RULE,
        'samples': samples or [{'note': 'no run completed before the violation'}],
        'simulated_runs': runs, 'planned_runs': planned, 'seeds': [f"{prop}/{seed}/0..{planned - 1}"],
        'runs_with_delivered_fault_or_interference': sum(s['nontrivial'] for s in summaries),
        'runs_per_hour': round(runs / search_wall * 3600) if search_wall else 0,
        'simulated_steps': sum(s['steps'] for s in summaries),
        'simulated_time': {'unit': mod.TIME_UNIT, 'total': round(sum(s['time'] for s in summaries), 3) or sum(s['steps'] for s in summaries)},
        'faults_injected': pick('fault:'), 'probes': pick('probe:'), 'oracle_evaluations': pick('oracle:'), 'operations': pick('op:'),
        'components': mod.COMPONENTS,
        'log_digest_xor': f'{xor:016x}',
        'regression_plans': regress,
        'known_finding_hits': known_hits, 'known_findings_reproduced': known_seen,
        'undecided_runs': len(unconfirmed), 'workers': workers,
    }
    zero = [p for p in getattr(mod, 'PROBES', ()) if not counts.get('probe:' + p)]
    coverage['probes_never_hit'] = zero
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage, 'wall_s': round(wall, 2),
          'assumptions': mod.ASSUMPTIONS, 'violations': [json.dumps(reported)] if reported else []}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    print(f"{prop} {tier} seed={seed}: {runs} runs, {coverage['simulated_steps']} steps, {len(states)} states, "
          f"{sum(coverage['faults_injected'].values())} faults, {wall:.1f}s" + (f", probes never hit: {zero}" if zero and not reported else ''))


def selftest():
    """Everything a check needs is there: the code under test imports, and a few runs of each check are repeatable."""
    core.preload()
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'dst', 'props')) if f.startswith('p') and f.endswith('.py'))
    for name in names:
        mod = importlib.import_module('dst.props.' + name)
        plan = mod.gen(core.rng_for(name.upper(), 1, 0))
        assert json.loads(json.dumps(plan)) == plan, name
    print('properties:', ' '.join(names).upper())
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--log', action='store_true')
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    if a.replay:
        same, _, _, _ = do_replay(a.replay, keep_log=a.log)
        return 1 if same else 0
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    return check(a.property.upper(), tier, a.seed, a.runs, a.workers, not a.no_min, not a.no_evidence)
