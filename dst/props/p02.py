"""P02: every tree edit has exactly its documented effect (refinement of a naive reference model)."""
from dst import world

RUNS = {'quick': 6000, 'thorough': 150000}
LISTS = ('ops', 'docs')
STATE_RULE = ('one state = the structure of the edited trees after an operation together with the kind of the operation that led there, '
              'counted once over all runs')
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.node', 'udapi.core.root', 'udapi.core.mwt', 'udapi.core.bundle', 'udapi.core.document', 'read.Conllu', 'write.Conllu'],
              'stub': []}
ASSUMPTIONS = ['words of a new multi-word token are consecutive', 'a node is not shifted relative to itself',
               'fractional part of the number of an empty node is only compared where it is documented (creation)']
PROBES = ('gappy-subtree-shifted', 'refused', 'partial-steal')
WEIGHTS = {'child': 2, 'empty': 2, 'parent': 4, 'remove': 2, 'rmempty': 1, 'shift': 7, 'flatten': 0.2, 'burst': 0.12, 'mwt': 1.2, 'rmmwt': 0.4, 'steal': 1,
           'badsteal': 0.1, 'badparent': 0.3, 'dep': 1.5, 'attr': 0.6}


def gen(rng):
    clients = [[world.gen_edit(rng, WEIGHTS) for _ in range(rng.randint(1, 10))] for _ in range(rng.randint(1, 3))]
    ops = []
    while any(clients):
        ops.append(rng.choice([c for c in clients if c]).pop(0))
    return {'docs': world.gen_world(rng, empties=0.5, mwts=0.4), 'ops': ops, 'text': rng.choice([1, 1, 3, 100])}


def execute(plan, sim):
    if not plan['docs']:
        return
    w = world.World(sim, plan['docs'])
    if not w.trees:
        return
    for i, op in enumerate(plan['ops']):
        if op[0] == 'shift' and not op[5]:
            n = w.pick_word(w.tree_i(op[1]), op[2])
            if n is not None:
                d = [x.ord for x in n.descendants(add_self=True)]
                if d[-1] - d[0] + 1 != len(d):
                    sim.probe('gappy-subtree-shifted')
        res = w.apply(op)
        if res == 'refused':
            sim.probe('refused')
        if op[0] == 'steal' and op[3] and res == 'done':
            sim.probe('partial-steal')
        for t in range(len(w.trees)):
            w.refine(t)
            sim.state([op[0], world.shape(w.trees[t])])
        if i % plan['text'] == 0:
            for d in range(len(w.docs)):
                sim.log(w.refine_text(d))
    for d in range(len(w.docs)):
        sim.log(w.refine_text(d))
