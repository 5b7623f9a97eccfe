"""One worker process: executes the runs i = w (mod W) of a seed and reports as JSON lines on stdout."""
import importlib
import json
import sys
import time

from dst import core


def main(argv):
    prop, seed, tier, w, total, runs, deadline = argv[:7]
    seed, w, total, runs, deadline = int(seed), int(w), int(total), int(runs), float(deadline)
    known = set(json.loads(argv[7])) if len(argv) > 7 else set()
    keep_digests = len(argv) > 8 and argv[8] == 'digests'
    core.preload()
    mod = importlib.import_module('dst.props.' + prop.lower())
    if hasattr(mod, 'prepare'):
        mod.prepare()
    agg = {'runs': 0, 'nontrivial': 0, 'steps': 0, 'time': 0.0, 'counts': {}, 'xor': 0, 'known': {}, 'unconfirmed': 0}
    states, samples, digests = set(), [], {}
    out = sys.stdout
    start = time.monotonic()
    for i in range(w, runs, total):
        if time.monotonic() - start > deadline:
            break
        plan = mod.gen(core.rng_for(prop, seed, i))
        res = core.run_confirmed(mod, plan)
        agg['runs'] += 1
        agg['nontrivial'] += bool(res['nontrivial'])
        agg['steps'] += res['steps']
        agg['time'] += res['time']
        agg['xor'] ^= core.h64([i, res['digest']])
        if keep_digests:
            digests[i] = res['digest']
        for k, v in res['counts'].items():
            agg['counts'][k] = agg['counts'].get(k, 0) + v
        if len(states) < 2_000_000:
            states.update(res['states'])
        if i < 3:
            samples.append({'run': i, 'plan': plan, 'digest': res['digest']})
        if res['status'] == 'ok':
            continue
        if res['status'] == 'violation' and res['sig'] in known:
            agg['known'][res['sig']] = agg['known'].get(res['sig'], 0) + 1
            continue
        if res['status'] in ('timeout', 'crashed'):
            agg['unconfirmed'] += 1
            out.write(json.dumps({'type': 'unconfirmed', 'run': i, 'res': slim(res)}) + '\n')
            out.flush()
            continue
        out.write(json.dumps({'type': 'violation', 'run': i, 'plan': plan, 'res': slim(res)}) + '\n')
        out.flush()
        break
    agg['samples'] = samples
    if keep_digests:
        agg['digests'] = digests
    agg['type'] = 'summary'
    agg['states'] = sorted(states)
    agg['wall'] = time.monotonic() - start
    out.write(json.dumps(agg) + '\n')
    out.flush()


def slim(res):
    return {k: v for k, v in res.items() if k not in ('states', 'counts')}


if __name__ == '__main__':
    main(sys.argv[1:])
