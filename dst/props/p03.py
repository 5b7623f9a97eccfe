"""P03: a refused operation leaves no trace, neither at once nor in anything that follows."""
from dst import docworld, world

RUNS = {'quick': 6000, 'thorough': 60000}
LISTS = ('ops', 'docs')
STATE_RULE = 'one state = the kind of a refused operation together with the structure of the tree it was tried on, counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core (node, root, mwt, bundle, document, coref, dualdict)', 'read.Conllu', 'write.Conllu'], 'stub': []}
ASSUMPTIONS = ['only the operations listed in dst/docworld.py (methods bad_*) are tried as refused ones']
PROBES = ('refused-then-edited', 'refused-unlooked', 'refused-broken-coref')
WEIGHTS = dict(docworld.COREF_W, **docworld.ZONE_W, bad=22, child=1, empty=1.5, parent=2, remove=0.7, rmempty=0.4, shift=3, mwt=1, rmmwt=0.3,
               dep=1, map=1.5, flatten=0.1, steal=0.15)


def gen(rng):
    docs = world.gen_world(rng, docs=(1, 2), trees=(1, 3), sizes=(1, 7), empties=0.6, mwts=0.4, sorted_misc=rng.random() < 0.5)
    coref = rng.random() < 0.7
    w = {k: v for k, v in WEIGHTS.items() if coref or k not in docworld.COREF_W}
    if coref:       # removed words would stay in mentions: outside of this property
        for k in ('remove', 'rmempty', 'steal', 'rmbundle', 'rmtree', 'newtree', 'addtree', 'zone', 'sentid'):
            w.pop(k)
    seed = docworld.coref_seed(rng) if coref else []
    if not coref and rng.random() < 0.7:        # documents whose coreference annotation cannot be decoded
        k = docworld.BAD.index('broken_coref')
        docs = [docworld.break_coref(rng, t) for t in docs]
        w = dict(w, bad=4, remove=4, rmempty=2, steal=1)
        ops = [docworld.gen_op(rng, w) for _ in range(rng.randint(2, 16))]
        for _ in range(rng.randint(1, 3)):
            ops.insert(rng.randint(0, min(6, len(ops))), ['bad', k] + [rng.randrange(1 << 16) for _ in range(3)])
        return {'docs': docs, 'coref': 0, 'broken': 1, 'look': rng.randrange(2), 'ops': ops}
    return {'docs': docs, 'coref': int(coref), 'look': rng.randrange(2), 'ops': seed + [docworld.gen_op(rng, w) for _ in range(rng.randint(3, 30))]}


def execute(plan, sim):
    if not plan['docs']:
        return
    w = docworld.DocWorld(sim, plan['docs'])
    twin = docworld.DocWorld(sim, plan['docs'])      # the same history without the refused operations
    coref = bool(plan['coref'])
    w.broken = bool(plan.get('broken'))
    refused = 0
    for op in plan['ops']:
        if op[0] != 'bad':
            r1 = w.apply(op)
            r2 = twin.apply(op)
            if refused and r1 == 'done':
                sim.probe('refused-then-edited')
            sim.check(r1 == r2, 'same-acceptance', lambda: f'{op} is {r1} after refused operations, but {r2} without them')
            continue
        name = docworld.BAD[op[1] % len(docworld.BAD)]
        if not coref and name in ('dup_entity', 'entity_name', 'eid', 'mention', 'mention_edit', 'bridging', 'other'):
            continue
        # a snapshot decodes and encodes everything: without it, the refused operation meets whatever earlier operations left undecoded
        before = w.snapshot(coref) if plan.get('look', 1) else None
        res = w.apply(op)
        if res in ('skip', 'accepted'):
            if res == 'accepted':
                return          # it was a valid operation after all: the twin cannot follow
            continue
        refused += 1
        if name == 'broken_coref':
            sim.probe('refused-broken-coref')
        if before is None:
            sim.probe('refused-unlooked')
            continue
        after = w.snapshot(coref)
        sim.check(before == after, 'no-trace', lambda: f'{name} was refused, but changed {diff(before, after)}', f'no-trace/{name}')
        sim.state([name, [world.shape(t) for t in w.trees[:3]]])
    a, b = w.snapshot(coref), twin.snapshot(coref)
    sim.check(a == b, 'no-later-trace', lambda: f'the history with refused operations differs from the one without: {diff(b, a)}')
    a, b = w.stored(), twin.stored()
    sim.check(a == b, 'no-stored-trace', lambda: f'the stored text differs: {diff(b, a)}')
    sim.log(a)


def diff(a, b, path=''):
    if type(a) is not type(b):
        return f'{path}: {a!r} -> {b!r}'
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k):
                return diff(a[k], b.get(k), f'{path}/{k}')
        return f'{path}: new {set(b) - set(a)}'
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{path}: {str(a)[:200]} -> {str(b)[:200]}'
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{path}[{i}]')
    return f'{path}: {str(a)[:200]!r} -> {str(b)[:200]!r}'
