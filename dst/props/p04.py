"""P04: looking at a document never changes it: histories with reads inserted, with some of them, and without them agree."""
from dst import core, docworld, reads, world
from dst.props.p03 import diff

RUNS = {'quick': 2600, 'thorough': 60000}
LISTS = ('ops', 'docs', 'seed')
STATE_RULE = 'one state = a read (one of the reads in dst/reads.py) together with the structure of the tree and the kind of the operation before it, counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core', 'read.Conllu', 'all writers', 'util.Wc, util.See, printing blocks of corefud'], 'stub': []}
ASSUMPTIONS = ['storing and printing put the current coreference into the MISC attributes Entity, Bridge and SplitAnte (and marks the start of the document, which carries the format of the annotation) by design; these are only compared in the final stored text']
PROBES = ('read-before-edit', 'read-of-loaded-coref', 'shared-read-compared')
WEIGHTS = dict(docworld.COREF_W, child=1, empty=1.5, parent=3, remove=1, rmempty=0.7, shift=4, mwt=1.2, rmmwt=0.5, dep=2, map=2, flatten=0.1, steal=0.5,
               zone=0.4, sentid=0.5, bundleid=0.5, newbundle=0.2, newtree=0.4, addtree=0.2, bad=1)


def gen(rng):
    coref = rng.random() < 0.5
    docs = world.gen_world(rng, docs=(1, 2), trees=(1, 3), sizes=(1, 6), empties=0.6, mwts=0.5, sorted_misc=coref or rng.random() < 0.5)
    w = {k: v for k, v in WEIGHTS.items() if coref or k not in docworld.COREF_W}
    if coref:
        for k in ('empty', 'remove', 'rmempty', 'steal', 'newtree', 'addtree', 'zone', 'sentid', 'bundleid', 'bad', 'shift', 'map'):
            w.pop(k)
        w['dep'] = 1
    ops = [docworld.gen_op(rng, w) for _ in range(rng.randint(1, 14))]
    if coref:       # storing a mention rewrites MISC of its words in alphabetical order: let it be in that order from the start
        for op in ops:
            if op[0] == 'child':
                op[3] &= 1
    density = rng.choice([0.3, 1, 2])
    out = []
    b = lambda n=1 << 16: rng.randrange(n)
    for op in ops + [None]:
        n = 0
        while rng.random() < density / (1 + density) and n < 6:
            out.append(['look', b(), b(), b(), b(), rng.randrange(2)])
            n += 1
        if op is not None:
            out.append(op)
    seed = docworld.coref_seed(rng) if coref else []
    return {'docs': docs, 'coref': int(coref), 'seed': seed, 'ops': out}


def history(plan, texts, sim, which, twice=False):
    """Run the history with the reads for which `which(flag)`; returns results of reads and operations."""
    w = docworld.DocWorld(sim, texts)
    coref = bool(plan['coref'])
    w.counter += 5000        # names of entities loaded from the text are taken
    results, last = [], 'load'
    edited = False
    for i, op in enumerate(plan['ops']):
        if op[0] == 'look':
            if not w.trees or not which(op[5]):
                continue
            name, got = reads.read(w, *op[1:5])
            sim.count('read:' + name)
            if twice and not (coref and name.endswith('*')):
                _, again = reads.read(w, *op[1:5])
                sim.check(got == again, 'same-read-twice', lambda: f'{name} gives {str(got)[:200]}, read again it gives {str(again)[:200]}')
            if twice:
                sim.state([name, world.shape(w.trees[op[1] % len(w.trees)]), last])
                sim.nontrivial = True
                if name.startswith('coref') and coref:
                    sim.probe('read-of-loaded-coref')
            results.append([i, name, None if coref and name.endswith('*') else got])
        else:
            last = op[0]
            if results and not edited:
                sim.probe('read-before-edit')
            edited = True
            results.append([i, op[0], w.apply(op)])
    stored = w.stored()
    return results, stored, w.snapshot(coref or not any(op[0] in ('remove', 'rmempty', 'steal') for op in plan['ops']))


def execute(plan, sim):
    try:
        execute2(plan, sim)
    except core.Violation as v:
        if plan.get('known'):           # a recorded finding: one specific history, never generated
            v.sig = plan['known']
        raise


def execute2(plan, sim):
    texts = plan['docs']
    if not texts:
        return
    if plan['coref']:
        w0 = docworld.DocWorld(sim, texts)
        for op in plan['seed']:
            w0.apply(op)
        texts = w0.stored()
    full, sa, va = history(plan, texts, sim, lambda f: True, twice=True)
    part, sc, vc = history(plan, texts, sim, lambda f: f == 1)
    none, sb, vb = history(plan, texts, sim, lambda f: False)
    everything = {i: (name, r) for i, name, r in full}
    for got, what in ((part, 'some of the reads'), (none, 'no reads')):
        for i, name, r in got:
            if name in reads.READS:
                sim.probe('shared-read-compared')
            sim.check(everything[i][1] == r, 'later-result',
                      lambda: f'{name} (step {i}) gives {str(everything[i][1])[:300]} after all reads, but {str(r)[:300]} after {what}')
    for s, v, what in ((sc, vc, 'some of the reads'), (sb, vb, 'no reads')):
        sim.check(sa == s, 'stored-text', lambda: f'stored text with all reads differs from the one with {what}: {diff(s, sa)}')
        sim.check(va == v, 'final-document', lambda: f'document after all reads differs from the one after {what}: {diff(v, va)}')
    sim.log(sa)
