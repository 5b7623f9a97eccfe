"""P11: a scenario runs every block on every document, once and in order."""
import argparse
import builtins
import contextlib
import importlib
import io
import json
import sys
import types

from dst import core, disk, gen as g

RUNS = {'quick': 4000, 'thorough': 200000}
LISTS = ('files', 'blocks')
STATE_RULE = 'one state = (kind of block, hooks it has, zones, if_empty_tree, kinds of edits made during its visits, fault and the hook it struck, number of documents), counted once over all runs'
TIME_UNIT = 'hook calls (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.run', 'udapi.core.block', 'udapi.core.basereader', 'read.Conllu', 'util.Eval', 'about 50 blocks of ud, util, corefud, transform and tutorial',
                       'core document model'],
              'stub': ['files and standard input (dst/disk.py)', 'recording blocks, simulated readers']}
ASSUMPTIONS = ['a node, tree, bundle, mention or entity that is removed before its turn may or may not be visited; one that is created during the iteration is not visited',
               'a block that overrides a hook and does not call the overridden one has taken over the traversal below that hook',
               'an exception raised by one of the real blocks on an unusual tree stops the scenario as any other exception']
PROBES = ('default-reader', 'two-readers', 'simulated-reader', 'strings', 'eval-block', 'real-block', 'exception', 'exception-start', 'exception-before',
          'exception-visit', 'exception-after', 'exception-end', 'exception-read', 'no-activity', 'edit-remove-self', 'edit-bundle', 'edit-tree', 'edit-mention', 'edit-empty',
          'edit-mwt', 'zones', 'skip', 'delete', 'fail', 'super', 'entity', 'mention', 'empty-node', 'many-documents', 'same-class')
REAL = ['corefud.concatmentionmisc.ConcatMentionMisc', 'corefud.fixinterleaved.FixInterleaved', 'corefud.fixparentheses.FixParentheses', 'corefud.guessspan.GuessSpan',
        'corefud.guessspan.GuessSpan', 'corefud.markcrossing.MarkCrossing', 'corefud.markinterleaved.MarkInterleaved', 'corefud.marknested.MarkNested',
        'corefud.markpairs.MarkPairs', 'corefud.mergesamespan.MergeSameSpan', 'corefud.movehead.MoveHead', 'corefud.singleparent.SingleParent', 'demo.complexity.Complexity',
        'demo.rehangprepositions.RehangPrepositions', 'transform.deproj.Deproj', 'transform.flatten.Flatten', 'transform.proj.Proj', 'tutorial.addarticles.AddArticles',
        'tutorial.addcommas.AddCommas', 'tutorial.removecommas.RemoveCommas', 'tutorial.parse.Parse', 'ud.addpuncttype.AddPunctType', 'ud.basic2enhanced.Basic2Enhanced',
        'ud.convert1to2.Convert1to2', 'ud.cs.addmwt.AddMwt', 'ud.fixchain.FixChain', 'ud.fixleaf.FixLeaf', 'ud.fixmwtspace.FixMwtSpace', 'ud.fixpunct.FixPunct',
        'ud.fixpunctchild.FixPunctChild', 'ud.fixrightheaded.FixRightheaded', 'ud.fixroot.FixRoot', 'ud.google2ud.Google2ud', 'ud.id.fixgsd.FixGSD', 'ud.joinasmwt.JoinAsMwt',
        'ud.jointoken.JoinToken', 'ud.markbugs.MarkBugs', 'ud.removemwt.RemoveMwt', 'ud.removemwt.RemoveMwt', 'ud.setspaceafter.SetSpaceAfter',
        'ud.setspaceafterfromtext.SetSpaceAfterFromText', 'ud.splitunderscoretokens.SplitUnderscoreTokens', 'ud.fixcompoundname.FixCompoundName', 'util.normalize.Normalize',
        'util.markmwtbugsatnodes.MarkMwtBugsAtNodes', 'util.wc.Wc', 'util.filter.Filter', 'corefud.miscstats.MiscStats', 'ud.fixadvmodbyupos.FixAdvmodByUpos',
        'ud.fixmultisubjects.FixMultiSubjects']
HOOKS = ['bundle', 'tree', 'node', 'node', 'node', 'empty_node', 'coref_entity', 'coref_mention']
EDITS = {'bundle': ['remove', 'new-bundle', 'remove-next-bundle', 'new-zone', 'remove-tree'],
         'tree': ['remove-tree', 'new-zone', 'remove-next-tree', 'new-bundle', 'remove', 'shuffle'],
         'node': ['remove', 'remove', 'rehang', 'remove-next', 'remove-prev', 'create-child', 'create-first', 'shift-last', 'shift-first', 'new-empty', 'to-root', 'remove-tree',
                  'new-bundle', 'new-zone', 'remove-bundle', 'flatten', 'new-mwt', 'remove-mwt'],
         'empty_node': ['remove', 'remove', 'new-empty', 'remove-next-empty', 'remove-tree', 'new-bundle'],
         'coref_mention': ['no-words', 'no-words', 'extend', 'extend', 'shrink', 'new-mention', 'delete-entity', 'new-entity', 'move', 'delete-next'],
         'coref_entity': ['delete-entity', 'new-entity', 'delete-next-entity', 'new-mention'],
         'mwt': ['remove', 'remove', 'remove-next-mwt', 'remove-first-word']}
EXC = ['ValueError', 'RuntimeError', 'KeyboardInterrupt', 'SystemExit', 'StopIteration', 'GeneratorExit', 'BrokenPipeError', 'AttributeError', 'NotImplementedError']


def gen(rng):
    files = []
    for f in range(rng.choice([1, 1, 2, 3])):
        text = ''
        for b in range(rng.choice([0, 1, 2, 3, 5])):
            zones = rng.choice([[''], [''], ['', 'en'], ['cs', 'en'], ['en', 'cs', '']])
            for z in zones:
                sid = f'f{f}s{b + 1}' + ('/' + z if z else '')
                text += '\n'.join(g.tree(rng, rng.randint(1, rng.choice([3, 8])), sent_id=sid, empties=0.5, mwts=0.4)) + '\n\n'
        files.append(text)
    readers = rng.choice([['files'], ['files'], ['files'], ['default'], ['files', 'zone'], ['sim'], ['files', 'sim'], ['sim', 'files'], ['sim', 'sim2'], ['sim', 'files', 'sim2'], ['files', 'sim', 'sim2']])
    blocks = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        kind = rng.choice(['rec', 'rec', 'rec', 'rec', 'eval', 'real', 'real'])
        b = {'kind': kind, 'zones': rng.choice(['all', 'all', 'all', '', 'en', 'cs,en', 'en,xx', ',cs']), 'if_empty': rng.choice(['process'] * 5 + ['skip', 'skip_warn', 'delete', 'fail'])}
        if kind == 'real':
            b['cls'] = rng.choice(REAL)
        else:
            hooks = sorted({rng.choice(HOOKS + (['mwt', 'mwt'] if kind == 'eval' else [])) for _ in range(rng.choice([1, 1, 2, 3]))})
            if kind == 'eval':
                hooks = [h for h in hooks if h != 'empty_node'] or ['node']
                b['empties'] = rng.randrange(2)
            b['hooks'] = hooks if rng.random() > 0.02 else []
            b['super'] = int(rng.random() < 0.3)
            b['edits'] = []
            if rng.random() < 0.7:
                for _ in range(rng.choice([1, 2, 4])):
                    h = rng.choice(hooks)
                    b['edits'].append({'hook': h, 'at': rng.choice([0, 0, 1, 2, 3, 5, 9]), 'every': rng.choice([0, 0, 1, 2]), 'op': rng.choice(EDITS[h]), 'arg': rng.randrange(100)})
            b['fault'] = None
            if rng.random() < 0.15:
                b['fault'] = {'hook': rng.choice(['start', 'before', 'visit', 'visit', 'visit', 'after', 'end']), 'at': rng.choice([0, 0, 1, 2, 4, 8]), 'exc': rng.choice(EXC)}
        blocks.append(b)
    return {'files': files, 'readers': readers, 'bundles_per_doc': rng.choice([0, 0, 0, 1, 2]), 'split': rng.choice([0, 1, 1]), 'blocks': blocks, 'strings': rng.randrange(3),
            'sim_docs': rng.choice([0, 1, 2, 4]), 'sim2_docs': rng.choice([0, 1, 3, 5]), 'sim_fault': rng.choice([None] * 7 + [0, 1]), 'empty_trees': rng.choice([0, 0, 1, 2]),
            'entities': [{'eid': f'e{i}', 'mentions': [[rng.randrange(40), rng.randrange(3)] for _ in range(rng.choice([1, 2, 3, 4]))]} for i in range(rng.choice([0, 1, 2, 3]))]}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for key, val in (('strings', 0), ('bundles_per_doc', 0), ('empty_trees', 0), ('entities', []), ('sim_fault', None), ('readers', ['files'])):
        if plan[key] != val:
            p = cp()
            p[key] = val
            yield p
    for i, b in enumerate(plan['blocks']):
        for j in range(len(b.get('edits', []))):
            p = cp()
            del p['blocks'][i]['edits'][j]
            yield p
        for key, val in (('zones', 'all'), ('if_empty', 'process'), ('super', 0), ('fault', None)):
            if key in b and b[key] != val:
                p = cp()
                p['blocks'][i][key] = val
                yield p
        if len(b.get('hooks', [])) > 1:
            for h in b['hooks']:
                p = cp()
                p['blocks'][i]['hooks'].remove(h)
                p['blocks'][i]['edits'] = [e for e in b['edits'] if e['hook'] != h]
                yield p
    for i, f in enumerate(plan['files']):
        parts = f.split('\n\n')[:-1]
        if len(parts) > 1:
            for j in range(len(parts)):
                p = cp()
                p['files'][i] = ''.join(x + '\n\n' for k, x in enumerate(parts) if k != j)
                yield p


class Planned(Exception):
    """Marks what a recording block raises on purpose."""


class World:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.raised = None          # the exception a hook raised
        self.stage = []             # what the runner has done so far: (what, block number, round)
        self.documents = []         # one per round, as passed to the first recording block
        self.expect = None          # generator of expected visits of the block that runs now
        self.current = None
        self.visits = {}
        self.errors = []
        self.started_rounds = 0

    # --- what the runner must call next --------------------------------------------------------------------------
    def event(self, what, n, document=None):
        """A hook of block n is called."""
        sim = self.sim
        sim.log('call', what, n)
        sim.check(self.raised is None, 'after-exception', lambda: f'{what} of block {n} is called after {self.raised!r}')
        count = self.count
        prev = self.stage[-1] if self.stage else None
        if what == 'start':
            want = ('start', 0) if prev is None else ('start', prev[1] + 1)
            sim.check((what, n) == want, 'order', lambda: f'start of block {n} follows {prev}')
        elif what == 'before':
            ok = prev in ((('start', count - 1)), ('after', n - 1)) if n == 0 else prev == ('after', n - 1)
            if n == 0:
                ok = prev == ('start', count - 1) or prev == ('after', count - 1)
            sim.check(ok, 'order', lambda: f'block {n} gets a document after {prev}')
            if n == 0:
                sim.check(all(document is not d for d in self.documents), 'documents', 'the document of an earlier round is passed again')
                self.documents.append(document)
            sim.check(document is self.documents[-1], 'documents', lambda: f'block {n} gets another document than the blocks before it')
        elif what == 'after':
            sim.check(prev == ('before', n) and document is self.documents[-1], 'order', lambda: f'block {n} ends a document after {prev}')
        elif what == 'end':
            want = prev in (('after', count - 1), ('start', count - 1)) if n == 0 else prev == ('end', n - 1)
            sim.check(want, 'order', lambda: f'end of block {n} follows {prev}')
        self.stage.append((what, n))
        sim.state([what, self.describe(n)])

    def describe(self, n):
        b = self.specs[n]
        return [b.get('kind'), b.get('cls'), b.get('hooks'), b.get('zones'), b.get('if_empty'), sorted({e['op'] for e in b.get('edits', [])}), b.get('fault') and b['fault']['hook'],
                len(self.documents)]

    def maybe_raise(self, n, where, k=0):
        fault = self.specs[n].get('fault')
        if fault and fault['hook'] == where and fault['at'] == k:
            exc = getattr(builtins, fault['exc'])('planned')
            self.raised = exc
            self.sim.fault('exception/' + where)
            self.sim.probe('exception-' + where)
            self.sim.log('raise', where, n, fault['exc'])
            raise exc

    # --- visits ------------------------------------------------------------------------------------------------------
    def visit(self, n, hook, item):
        sim = self.sim
        k = self.visits[n] = self.visits.get(n, -1) + 1
        sim.log('visit', n, hook, name(item))
        sim.check(self.raised is None, 'after-exception', lambda: f'{hook} is visited after {self.raised!r}')
        sim.check(self.stage[-1] == ('before', n), 'order', lambda: f'{hook} is visited by block {n} in the state {self.stage[-1]}')
        while True:
            want = next(self.expect, None)
            if want is None:
                sim.check(False, 'visit', lambda: f'{hook} {name(item)} is visited by block {n} {self.specs[n]} but should not (any more)')
            if want[0] == hook and want[1] is item:
                break
            sim.check(not alive(want, self.documents[-1]), 'visit', lambda: f'{want[0]} {name(want[1])} is left out by block {n} {self.specs[n]}: {hook} {name(item)} follows')
        spec = self.specs[n]
        for e in spec.get('edits', ()):
            c = e.setdefault('seen', 0) if e['hook'] == hook else None
            if c is not None:
                e['seen'] += 1
                if c == e['at'] or (e['every'] and c > e['at'] and (c - e['at']) % e['every'] == 0 and c < 30):
                    self.edit(hook, item, e)
        self.maybe_raise(n, 'visit', k)

    def finish(self, n):
        for want in self.expect:
            self.sim.check(not alive(want, self.documents[-1]), 'visit', lambda: f'{want[0]} {name(want[1])} is left out by block {n} {self.specs[n]} at the end of the document')
        self.expect = None

    def model(self, spec, document):
        """Yields what a block has to visit, looking at each level of the document when its iteration starts."""
        hooks = spec['hooks']
        zones, if_empty = spec['zones'], spec['if_empty']

        def wanted(tree):
            if zones != 'all':
                self.sim.probe('zones')
                if tree.zone not in zones.split(','):
                    return False
            if not tree.descendants and if_empty != 'process':
                self.sim.probe('skip' if if_empty.startswith('skip') else if_empty)
                if if_empty == 'fail':
                    raise Planned()
                return False
            return True

        def nodes(tree):
            for x in list(tree.descendants):
                yield ('node', x)

        def in_tree(tree):
            yield ('tree', tree)
            if spec['super']:
                if 'node' in hooks:
                    yield from nodes(tree)

        if spec['kind'] == 'eval':
            if set(hooks) & {'bundle', 'tree', 'node', 'mwt'}:
                for bundle in list(document.bundles):
                    if 'bundle' in hooks:
                        yield ('bundle', bundle)
                    if set(hooks) & {'tree', 'node', 'mwt'}:
                        for tree in list(bundle.trees):
                            if not wanted(tree):
                                continue
                            if 'tree' in hooks:
                                yield ('tree', tree)
                            if 'node' in hooks:
                                for x in list(tree.descendants_and_empty if spec['empties'] else tree.descendants):
                                    yield ('node', x)
                            if 'mwt' in hooks:
                                for x in list(tree.multiword_tokens):
                                    yield ('mwt', x)
            if 'coref_entity' in hooks or 'coref_mention' in hooks:
                for entity in list(document.coref_entities):
                    if 'coref_entity' in hooks:
                        yield ('coref_entity', entity)
                    if 'coref_mention' in hooks:
                        for mention in list(entity.mentions):
                            yield ('coref_mention', mention)
            return
        if 'coref_entity' in hooks:
            for entity in list(document.coref_entities):
                yield ('coref_entity', entity)
                if spec['super'] and 'coref_mention' in hooks:
                    for mention in list(entity.mentions):
                        yield ('coref_mention', mention)
        elif 'coref_mention' in hooks:
            for entity in list(document.coref_entities):
                for mention in list(entity.mentions):
                    yield ('coref_mention', mention)
        if not set(hooks) & {'bundle', 'tree', 'node', 'empty_node'}:
            return
        for bundle in list(document.bundles):
            if 'bundle' in hooks:
                yield ('bundle', bundle)
                if spec['super'] and set(hooks) & {'tree', 'node'}:
                    for tree in list(bundle.trees):
                        if wanted(tree):
                            if 'tree' in hooks:
                                yield from in_tree(tree)
                            else:
                                yield from nodes(tree)
                continue
            for tree in list(bundle.trees):
                if not wanted(tree):
                    continue
                if 'tree' in hooks:
                    yield from in_tree(tree)
                    continue
                if 'node' in hooks:
                    yield from nodes(tree)
                if 'empty_node' in hooks:
                    for x in list(tree.empty_nodes):
                        yield ('empty_node', x)

    # --- edits made by a block while it visits something ---------------------------------------------------------------
    def edit(self, hook, x, e):
        sim, op, arg = self.sim, e['op'], e['arg']
        doc = self.documents[-1]
        sim.log('edit', hook, op)
        sim.count('edits')
        sim.nontrivial = True
        sim.probe({'bundle': 'edit-bundle', 'tree': 'edit-tree', 'empty_node': 'edit-empty', 'coref_mention': 'edit-mention', 'mwt': 'edit-mwt'}.get(hook, 'edits'))
        if op == 'remove':
            sim.probe('edit-remove-self')
        try:
            self.do_edit(hook, x, op, arg, doc)
        except (ValueError, RuntimeError) as err:
            sim.count('refused-edits')
            sim.log('refused', type(err).__name__)

    def do_edit(self, hook, x, op, arg, doc):
        tree = x if hook == 'tree' else x.root if hook in ('node', 'empty_node', 'mwt') else None
        bundle = x if hook == 'bundle' else tree.bundle if tree is not None else None

        def after(items):
            items = list(items)
            i = next((k for k, y in enumerate(items) if y is x), None)
            return items[i + 1] if i is not None and i + 1 < len(items) else None
        if op in ('remove', 'remove-tree', 'remove-next-tree', 'new-zone', 'remove-bundle', 'shuffle') and hook != 'bundle' and tree is not None and tree not in tree.bundle.trees:
            return
        if op == 'remove':
            if hook == 'tree':
                x.bundle.remove() if arg % 2 else x.remove()
            elif hook in ('node', 'empty_node') and not any(y is x for y in x.root.descendants_and_empty):
                return
            elif hook == 'mwt' and x not in x.root.multiword_tokens:
                return
            else:
                x.remove()
        elif op == 'new-bundle':
            if len(doc.bundles) < 30:
                b = doc.create_bundle()
                b.create_tree().create_child(form='new')
        elif op == 'remove-next-bundle':
            y = after(doc.bundles)
            if y is not None:
                y.remove()
        elif op == 'new-zone':
            zone = f'z{arg % 4}'
            if not bundle.has_tree(zone):
                bundle.create_tree(zone).create_child(form='new')
        elif op == 'remove-tree':
            t = bundle.trees[arg % len(bundle.trees)] if hook == 'bundle' and bundle.trees else tree
            if t is not None:
                t.remove()
        elif op == 'remove-next-tree':
            y = after(bundle.trees)
            if y is not None:
                y.remove()
        elif op == 'remove-bundle':
            bundle.remove()
        elif op == 'shuffle':
            nodes = tree.descendants
            if len(nodes) > 1:
                nodes[0].shift_after_node(nodes[-1])
        elif hook == 'node':
            if not any(y is x for y in x.root.descendants_and_empty) or (x.is_empty() and op not in ('new-empty',)):
                return
            nodes = tree.descendants
            if op == 'rehang':
                x.remove(children='rehang')
            elif op == 'remove-next':
                y = after(nodes)
                if y is not None:
                    y.remove()
            elif op == 'remove-prev':
                i = nodes.index(x)
                if i:
                    nodes[i - 1].remove(children='rehang')
            elif op == 'create-child':
                x.create_child(form='new')
            elif op == 'create-first':
                x.create_child(form='new').shift_before_node(x)
            elif op == 'shift-last':
                x.shift_after_node(nodes[-1])
            elif op == 'shift-first':
                x.shift_before_node(nodes[0])
            elif op == 'new-empty':
                x.create_empty_child('dep', after=bool(arg % 2))
            elif op == 'to-root':
                x.parent = tree
            elif op == 'flatten':
                tree.flatten()
            elif op == 'new-mwt':
                y = x.next_node
                if y is not None and x.multiword_token is None and y.multiword_token is None:
                    tree.create_multiword_token([x, y], form='mwt')
            elif op == 'remove-mwt' and x.multiword_token is not None:
                x.multiword_token.remove()
        elif hook == 'empty_node':
            if op == 'new-empty' and tree.descendants:
                tree.descendants[arg % len(tree.descendants)].create_empty_child('dep')
            elif op == 'remove-next-empty':
                y = after(tree.empty_nodes)
                if y is not None:
                    y.remove()
        elif hook == 'mwt':
            if op == 'remove-next-mwt':
                y = after(tree.multiword_tokens)
                if y is not None:
                    y.remove()
            elif op == 'remove-first-word' and x.words:
                x.words[0].remove(children='rehang')
        elif hook in ('coref_mention', 'coref_entity'):
            entity = x.entity if hook == 'coref_mention' else x
            if op == 'no-words':
                if any(x is m for m in entity.mentions):
                    x.words = []
                return
            nodes = one_zone(doc)
            if op == 'delete-entity':
                doc.delete_entity(entity) if hasattr(doc, 'delete_entity') else [setattr(m, 'words', []) for m in list(entity.mentions)]
            elif op == 'new-entity':
                if nodes:
                    doc.create_coref_entity(f'n{arg}').create_mention(head=nodes[arg % len(nodes)])
            elif op == 'delete-next-entity':
                y = after(doc.coref_entities)
                if y is not None:
                    for m in list(y.mentions):
                        m.words = []
            elif op == 'new-mention':
                if nodes and entity.mentions:
                    entity.create_mention(head=nodes[arg % len(nodes)])
            elif op == 'delete-next':
                y = after(entity.mentions)
                if y is not None:
                    y.words = []
            elif not any(x is m for m in entity.mentions):
                return
            elif op == 'extend':
                new = x.head.root.descendants[:arg % 5 + 1]
                x.words = sorted(set(x.words) | set(new))
            elif op == 'shrink':
                x.words = [x.head]
            elif op == 'move':
                others = [o for o in doc.coref_entities if o is not entity]
                if others:
                    x.entity = others[arg % len(others)]


def alive(want, doc):
    """Is the item (still) part of the document?"""
    hook, x = want
    if hook == 'bundle':
        return any(b is x for b in doc.bundles)
    if hook == 'tree':
        return any(t is x for b in doc.bundles for t in b.trees)
    if hook == 'mwt':
        return any(m is x for b in doc.bundles for t in b.trees for m in t.multiword_tokens)
    if hook == 'coref_entity':
        return any(e is x for e in doc.coref_entities)
    if hook == 'coref_mention':
        return any(m is x for e in doc.coref_entities for m in e.mentions)
    return any(n is x for b in doc.bundles for t in b.trees for n in list(t.descendants) + list(t.empty_nodes))


def one_zone(doc):
    """All words of one zone (coreference does not go across zones)."""
    trees = [t for b in doc.bundles for t in b.trees]
    return [x for t in trees if t.zone == trees[0].zone for x in t.descendants]


def name(x):
    kind = type(x).__name__
    if kind in ('Node', 'EmptyNode', 'OrdTuple'):
        return f'{x.ord} {x.form}'
    if kind == 'Root':
        return f'tree {x.zone!r}'
    if kind == 'Bundle':
        return f'bundle {x.number}'
    if kind == 'CorefEntity':
        return x.eid
    if kind == 'CorefMention':
        return 'mention ' + ','.join(str(w.ord) for w in x.words)
    return kind


def recorder(world, n, spec, Block):
    """A block that records what the runner and the base class call."""
    class Rec(Block):
        def __init__(self, **kw):
            super().__init__(zones=spec['zones'], if_empty_tree=spec['if_empty'])
            world.sim.check(set(kw) <= {'number', 'text', 'expr'} and kw.get('number', 7) == 7 and kw.get('text', 'a,b') == 'a,b' and kw.get('expr', 'x=1') == 'x=1',
                            'parameters', lambda: f'the parameters are {kw}')

    common(Rec, world, n)
    for hook in spec['hooks']:
        def method(self, item, hook=hook):
            world.visit(n, hook, item)
            if spec['super']:
                getattr(super(Rec, self), 'process_' + hook)(item)
        setattr(Rec, 'process_' + hook, method)
    return Rec


def common(cls, world, n):
    """Record start, before, after and end of a block."""
    base = cls.__mro__[1]

    def process_start(self):
        world.event('start', n)
        world.maybe_raise(n, 'start')
        base.process_start(self)

    def process_end(self):
        world.event('end', n)
        world.maybe_raise(n, 'end')
        base.process_end(self)

    def before_process_document(self, document):
        world.event('before', n, document)
        world.visits[n] = -1
        for e in world.specs[n].get('edits', ()):
            e['seen'] = 0
        if world.specs[n].get('hooks') is not None:
            world.expect = world.model(world.specs[n], document)
        else:
            world.expect = None
        world.maybe_raise(n, 'before')
        base.before_process_document(self, document)

    def after_process_document(self, document):
        if world.expect is not None:
            world.finish(n)
        world.maybe_raise(n, 'after')
        base.after_process_document(self, document)
        world.event('after', n, document)
    for f in (process_start, process_end, before_process_document, after_process_document):
        setattr(cls, f.__name__, f)


def real(world, n, spec):
    module, cls = spec['cls'].rsplit('.', 1)
    base = getattr(importlib.import_module('udapi.block.' + module), cls)
    from udapi.core.block import Block

    class Rec(base):
        def __init__(self, **kw):
            kw = {}
            super().__init__(zones=spec['zones'], if_empty_tree=spec['if_empty'])
    own = [h for h in ('bundle', 'tree', 'node', 'empty_node', 'coref_entity', 'coref_mention') if getattr(base, 'process_' + h) is not getattr(Block, 'process_' + h)]
    if base.process_document is not Block.process_document:
        own = None
    else:
        # Only the outermost hooks: what a block does below them is its own affair.
        if 'bundle' in own:
            own = [h for h in own if h not in ('tree', 'node', 'empty_node')]
        if 'tree' in own:
            own = [h for h in own if h not in ('node', 'empty_node')]
        if 'coref_entity' in own:
            own = [h for h in own if h != 'coref_mention']
        for hook in own:
            def method(self, item, hook=hook):
                world.visit(n, hook, item)
                getattr(base, 'process_' + hook)(self, item)
                if cls == 'RemoveMwt':
                    world.sim.check(not item.multiword_tokens, 'visit', lambda: f'{len(item.multiword_tokens)} multi-word tokens are left out by {spec["cls"]}')
            setattr(Rec, 'process_' + hook, method)
    spec.update(hooks=own, super=0)
    common(Rec, world, n)
    return Rec


def evaluator(world, n, spec):
    from udapi.block.util.eval import Eval
    builtins.dst_visit = world.visit
    names = {'coref_entity': 'coref_entity', 'coref_mention': 'coref_mention'}
    code = {names.get(h, h): f'dst_visit({n}, "{h}", this)' for h in spec['hooks']}

    class Rec(Eval):
        def __init__(self, **kw):
            super().__init__(zones=spec['zones'], if_empty_tree=spec['if_empty'], empty_nodes=spec['empties'], **code)
    common(Rec, world, n)
    return Rec


def setup(world, n, Block):
    """Adds empty trees and coreference to what was loaded."""
    class Setup(Block):
        def __init__(self, **kw):
            super().__init__()

        def process_document(self, document):
            plan = world.plan
            for b in document.bundles[:plan['empty_trees']]:
                if not b.has_tree('nul'):
                    b.create_tree('nul')
            nodes = one_zone(document)
            if nodes:
                for e in plan['entities']:
                    entity = document.create_coref_entity(e['eid'])
                    for start, length in e['mentions']:
                        head = nodes[start % len(nodes)]
                        words = [w for w in head.root.descendants if head.ord <= w.ord <= head.ord + length]
                        entity.create_mention(head=head, words=words)
            world.content()
    common(Setup, world, n)
    return Setup


def execute(plan, sim):
    from udapi.core.run import Run
    from udapi.core.block import Block
    from udapi.block.read.conllu import Conllu as Reader
    plan = json.loads(json.dumps(plan))
    world = World(plan, sim)
    specs, classes = [], []

    def add(spec, cls):
        specs.append(spec)
        classes.append(cls)
    world.specs = specs
    rounds, ids = expected_rounds(plan)
    readers = plan['readers']

    def ids_of(doc):
        return [b.bundle_id for b in doc.bundles]

    def content():
        k = len(world.documents) - 1
        if ids is not None:
            sim.check(k < rounds, 'rounds', lambda: f'round {k + 1} is started although only {rounds} documents are to be read')
            got = ids_of(world.documents[-1])
            sim.check(got == ids[k], 'documents', lambda: f'document {k + 1} of {rounds} consists of {got} instead of {ids[k]}')
    world.content = content
    with disk.Disk(sim) as dsk:
        names = []
        for i, text in enumerate(plan['files']):
            dsk.put(f'f{i}.conllu', text.encode())
            names.append(f'f{i}.conllu')
        ids_0 = list(dict.fromkeys(line[12:].split('/')[0] for line in plan['files'][0].split('\n') if line.startswith('# sent_id = '))) if plan['files'] else []
        dsk.put('second.conllu', ''.join(f'# sent_id = {i}\n1\tx\tx\tX\t_\t_\t0\troot\t_\t_\n\n' for i in ids_0).encode())
        kwargs = {'bundles_per_doc': plan['bundles_per_doc']}
        for k, kind in enumerate(readers):
            n = len(specs)
            if kind in ('files', 'zone'):
                class Rec(Reader):
                    def __init__(self, kind=kind, **kw):
                        if kind == 'zone':
                            super().__init__(files='second.conllu', zone='second', bundles_per_doc=plan['bundles_per_doc'], **kw)
                        else:
                            super().__init__(files=list(names), **kwargs, **kw)
                common(Rec, world, n)
                add({'kind': kind}, Rec)
            elif kind in ('sim', 'sim2'):
                class Sim(Block):
                    def __init__(self, total=plan.get(kind + '_docs', 0), kind=kind, **kw):
                        super().__init__()
                        self.total, self.kind = total, kind
                        self.finished = False
                        self.given = 0

                    def process_document(self, document):
                        if self.finished:
                            return
                        if self.kind == 'sim' and plan['sim_fault'] == self.given:
                            world.raised = OSError(5, 'planned')
                            sim.fault('exception/read')
                            sim.probe('exception-read')
                            raise world.raised
                        if self.given < self.total:
                            document.create_bundle().create_tree('sim' if self.kind == 'sim' else 'simb').create_child(form='x')
                            self.given += 1
                        self.finished = self.given >= self.total
                sim.probe('simulated-reader')
                common(Sim, world, n)
                add({'kind': kind}, Sim)
        if len([r for r in readers if r != 'default']) > 1:
            sim.probe('two-readers')
        add({'kind': 'setup'}, setup(world, len(specs), Block))
        for b in plan['blocks']:
            n = len(specs)
            spec = dict(b)
            specs.append(spec)
            if b['kind'] == 'rec':
                classes.append(recorder(world, n, spec, Block))
            elif b['kind'] == 'eval':
                sim.probe('eval-block')
                classes.append(evaluator(world, n, spec))
            else:
                sim.probe('real-block')
                classes.append(real(world, n, spec))
            if b.get('super'):
                sim.probe('super')
            for h in spec.get('hooks') or ():
                if h in ('coref_entity', 'coref_mention', 'empty_node'):
                    sim.probe({'coref_entity': 'entity', 'coref_mention': 'mention', 'empty_node': 'empty-node'}[h])
        world.count = len(specs)
        stdin = None
        if 'default' in readers:
            sim.probe('default-reader')
            stdin = disk.text_in(disk.StreamIn(sim, plan['files'][0].encode(), [13]))
        error, result = None, None
        out = io.StringIO()
        with disk.Stdio(stdin=stdin or disk.text_in(disk.StreamIn(sim, b'', []))), contextlib.redirect_stdout(out):
            try:
                if plan['strings']:
                    sim.probe('strings')
                    scenario = []
                    if plan['strings'] == 2:      # one class used several times with different parameters
                        mod = types.ModuleType('dstblock')
                        mod.Dstblock = lambda which, **kw: classes[which](**kw)
                        sys.modules['dstblock'] = mod
                    for i, cls in enumerate(classes):
                        if plan['strings'] == 2 and specs[i]['kind'] == 'rec':
                            sim.probe('same-class')
                            scenario += ['.Dstblock', 'number=7', f'which={i}', 'text=a,b', 'expr=x=1']
                            continue
                        mod = types.ModuleType(f'dstblock{i}')
                        setattr(mod, f'Dstblock{i}', cls)
                        sys.modules[f'dstblock{i}'] = mod
                        scenario.append(f'.Dstblock{i}')
                        if specs[i]['kind'] == 'rec':
                            scenario += ['number=7', 'text=a,b', 'expr=x=1']
                    result = Run(argparse.Namespace(scenario=scenario)).execute()
                else:
                    result = Run(argparse.Namespace(scenario=['x'])).run_blocks([(f'b{i}', cls(), '') for i, cls in enumerate(classes)])
            except core.Violation:
                raise
            except (core.Hang, core.StepBudget):
                raise
            except BaseException as e:     # pylint: disable=broad-except
                error = e
        finish(world, plan, error, result, rounds, classes)


def finish(world, plan, error, result, rounds, classes):
    sim, specs = world.sim, world.specs
    sim.log('finished', type(error).__name__ if error is not None else None, len(world.documents))
    if isinstance(error, Planned) or (error is not None and error.__class__ is Exception and 'is empty' in str(error)):
        spec = specs[world.stage[-1][1]]
        sim.check(spec.get('if_empty') == 'fail', 'unexpected-exception', lambda: f'{error!r} in {spec}')
        sim.check(not isinstance(error, Planned), 'fail', lambda: f'an empty tree does not stop the scenario in {spec}')
        sim.probe('exception')
        sim.probe('fail')
        return
    if world.raised is not None:
        sim.probe('exception')
        wrapped = isinstance(world.raised, StopIteration) and isinstance(error, RuntimeError)
        sim.check(error is not None, 'exception-lost', lambda: f'{world.raised!r} does not reach the caller')
        sim.check(error is world.raised or wrapped, 'exception-lost', lambda: f'{error!r} reaches the caller instead of {world.raised!r}')
        return
    if error is not None:
        stage = world.stage[-1] if world.stage else None
        spec = specs[stage[1]] if stage else {}
        if spec.get('hooks') == [] and 'No processing activity' in str(error):
            sim.probe('no-activity')
            return
        # (the first exception of a real block on an unusual tree)
        sim.check(stage is not None and stage[0] != 'after' and spec.get('kind') == 'real', 'unexpected-exception', lambda: f'{error!r} in {stage} {spec}')
        sim.count('real-block-failed')
        return
    count = len(specs)
    got = len(world.documents)
    sim.check(not any(s.get('hooks') == [] and s['kind'] == 'rec' for s in specs) or not got, 'no-activity', 'a block without any activity was run')
    if rounds is not None:
        sim.check(got == rounds, 'rounds', lambda: f'{got} documents instead of {rounds} were processed')
    if got > 1:
        sim.probe('many-documents')
    want = [('start', i) for i in range(count)] + [(w, i) for _ in range(got) for i in range(count) for w in ('before', 'after')] + [('end', i) for i in range(count)]
    sim.check(world.stage == want, 'order', lambda: f'the hooks were called in the order {world.stage[:60]}')
    blocks = [b for _, b, _ in result]
    if 'default' in plan['readers']:
        blocks = blocks[1:]
    sim.check([type(b) for b in blocks] == classes, 'result', lambda: f'the scenario returns {blocks}')


def expected_rounds(plan):
    """How many documents there are, and which bundles the first reader gives them; None if that is not simple to say."""
    def split(files):
        out = []
        for f in files:
            seen = []
            for line in f.split('\n'):
                if line.startswith('# sent_id = '):
                    sid = line[12:].split('/')[0]
                    if sid not in seen[-1:]:
                        seen.append(sid)
            out.append(seen)
        return out
    readers, per = plan['readers'], plan['bundles_per_doc']
    if any(not f for f in plan['files']) and 'files' in readers + ['files'] * ('default' in readers):
        return None, None
    sims = max([max(plan.get(r + '_docs', 0), 1) for r in readers if r in ('sim', 'sim2')], default=0)
    if sims:
        if 'files' not in readers:
            return sims, None
        docs = split(plan['files'])
        return max(sims, sum((len(d) + per - 1) // per for d in docs) if per else len(docs)), None
    if readers == ['default']:
        s = split(plan['files'][:1])
        return 1, s
    docs = split(plan['files'])
    if per:
        docs = [d[i:i + per] for d in docs for i in range(0, len(d), per)]
    if 'zone' in readers:
        return None, None
    return len(docs), docs
