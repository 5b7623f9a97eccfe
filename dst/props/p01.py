"""P01: trees stay well-formed under every history of edits by interleaved clients."""
from dst import world

RUNS = {'quick': 6000, 'thorough': 150000}
LISTS = ('ops', 'docs')
STATE_RULE = ('one state = the unlabelled structure of an edited tree after an operation (heads, positions of empty nodes, spans of multi-word '
              'tokens), counted once over all runs')
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.node', 'udapi.core.root', 'udapi.core.mwt', 'udapi.core.bundle', 'udapi.core.document', 'read.Conllu'], 'stub': []}
ASSUMPTIONS = ['words of a new multi-word token are consecutive', 'coreference mentions of removed words are outside of this property']
PROBES = ('iteration-resumed', 'edit-during-iteration', 'mwt-broken-up', 'empty-shifted')
WEIGHTS = {'child': 2, 'empty': 2, 'parent': 4, 'remove': 2, 'rmempty': 1, 'shift': 6, 'flatten': 0.2, 'burst': 0.12, 'mwt': 1.2, 'rmmwt': 0.4, 'steal': 0.8,
           'badsteal': 0.2, 'badparent': 1.2, 'dep': 1.5, 'attr': 0.3, 'iter': 1, 'next': 2, 'read': 1}


def gen(rng):
    clients = [[world.gen_edit(rng, WEIGHTS) for _ in range(rng.randint(1, 14))] for _ in range(rng.randint(1, 4))]
    ops = []
    while any(clients):        # the seeded scheduler: which client moves next
        c = rng.choice([c for c in clients if c])
        ops.append(c.pop(0))
    texts = world.gen_world(rng, empties=0.5, mwts=0.4)
    return {'docs': texts, 'ops': ops}


def execute(plan, sim):
    if not plan['docs']:
        return
    w = world.World(sim, plan['docs'], model=False)
    if not w.trees:
        return
    for i in range(len(w.trees)):
        w.invariants(i)
    for op in plan['ops']:
        pending = any(st[2] < len(st[1]) for st in w.iters.values())
        empties = sum(len(t.empty_nodes) for t in w.trees)
        res = w.apply(op)
        if op[0] not in ('iter', 'next', 'read') and res == 'done':
            if pending:
                sim.probe('edit-during-iteration')
                sim.nontrivial = True
            if op[0] == 'shift' and empties:
                sim.probe('empty-shifted')
            if op[0] in ('steal', 'remove') and any(m for t in w.trees for m in t.multiword_tokens):
                sim.probe('mwt-broken-up')
        for i in range(len(w.trees)):
            w.invariants(i)
        if op[0] not in ('iter', 'next', 'read'):
            for t in w.trees:
                sim.state(world.shape(t))
        sim.log([world.shape(t) for t in w.trees])
