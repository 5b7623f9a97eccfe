"""P14: bundles, zones and ids stay unique, consistent and found again under every history; refusals and reloads included."""
import io

from dst import gen as G

RUNS = {'quick': 6000, 'thorough': 150000}
LISTS = ('ops',)
STATE_RULE = 'one state = (zones of every bundle of the document, kinds of ids, last two operations), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.document', 'udapi.core.bundle', 'udapi.core.root', 'udapi.core.basereader', 'read.Conllu', 'write.Conllu',
                       'util.Normalize', 'util.Split', 'util.SplitSentence', 'util.JoinSentence', 'segment.Simple', 'segment.Merge'], 'stub': []}
ASSUMPTIONS = ['ids assigned by the user are unique in the document, non-empty and contain no slash except before the zone',
               'doc.bundles and bundle.trees are changed only through the methods of Document, Bundle and Root and by the listed blocks',
               'trees removed from a bundle are only added to a bundle again']
PROBES = ('renamed-multizone', 'reloaded-multizone', 'zone-read-into-document', 'removed-then-created', 'refused')
ZONES = ['', 'en', 'de', 'en_gold', 'cs_x-1', 'fr', 'a-b']
BADZONES = ['EN', 'a b', 'x/y', 'all', 'en_', 'č', '1', 'en_a_b', ' en', 'en\n']


def gen(rng):
    docs = []
    for i in range(rng.choice([1, 1, 2])):
        kind = rng.randrange(4)
        if kind == 0:
            docs.append(None)
            continue
        out = []
        zones = ['']
        if kind == 2:
            zones = rng.sample(ZONES[1:], rng.randint(1, 3))
        elif kind == 3:
            zones = [''] + rng.sample(ZONES[1:], rng.randint(1, 2))
        first, prefix = rng.choice([1, 1, 2, 9, 40]), rng.choice(['s', 's', '', 'doc-s'])
        for b in range(rng.randint(1, 4)):
            zs = [z for z in zones if z == zones[0] or rng.random() < 0.8]
            for z in zs:
                out.append('\n'.join(G.tree(rng, rng.randint(1, 3), sent_id=f"{prefix}{first + b}" + ('/' + z if z else ''), empties=0.1, mwts=0.1, deps=0.2,
                                            names=G.Names('w'), attrs=False)) + '\n\n')
        docs.append(''.join(out))
    r = lambda n=1 << 16: rng.randrange(n)
    names = ['newbundle', 'newtree', 'addtree', 'rmtree', 'readd', 'zone', 'sentid', 'bundleid', 'rmbundle', 'reload', 'zoneread', 'more', 'bad', 'words',
             'normalize', 'block', 'look', 'moveall']
    weights = [2, 3, 1.5, 1, 1, 3, 3, 2, 1.5, 0.7, 0.7, 0.6, 4, 1, 0.4, 0.5, 3, 0.5]
    drop = {n for n in names if rng.random() < 0.12}
    w = [0 if n in drop else x for n, x in zip(names, weights)]
    return {'docs': docs, 'ops': [[rng.choices(names, w)[0], r(), r(), r(), r()] for _ in range(rng.randint(3, 28))]}


class B:
    def __init__(self, obj, bid, trees):
        self.obj, self.id, self.trees = obj, bid, trees        # trees: [[Root, zone]]


def execute(plan, sim):
    from udapi.core.document import Document
    from udapi.core.root import Root
    from udapi.core.run import create_block
    docs, model, removed, count = [], [], [], [0]

    def fresh(p='b'):
        count[0] += 1
        return f'{p}{count[0]}' if count[0] % 5 or p == 'w' else str(1000 * count[0])

    def ids_of(text):
        return [line[12:] for line in text.split('\n') if line.startswith('# sent_id = ')]

    def observe(doc, expected=None):
        """Model of a just loaded document; `expected` are the ids (with zones) in the text it was loaded from."""
        out = []
        for b in doc.bundles:
            out.append(B(b, b.bundle_id, [[t, t.zone] for t in b.trees]))
        if expected is not None:
            groups = []
            for full in expected:
                i, _, z = full.partition('/')
                if groups and groups[-1][0] == i:
                    groups[-1][1].append(z)
                else:
                    groups.append([i, [z]])
            got = [[b.id, [z for _, z in b.trees]] for b in out]
            sim.check(got == groups, 'loaded-ids', lambda: f'loaded bundles {got}, the text contains {groups}')
        return out

    for text in plan['docs']:
        d = Document()
        if text is not None:
            d.from_conllu_string(text)
        docs.append(d)
        model.append(observe(d, ids_of(text) if text is not None else None))

    def verify(what):
        for di, (doc, bs) in enumerate(zip(docs, model)):
            say = lambda msg: f'document {di} after {what}: {msg}'
            chk = sim.check
            chk(len(doc.bundles) == len(bs) and all(a is b.obj for a, b in zip(doc.bundles, bs)), 'bundle-list',
                lambda: say(f'bundles {[b.bundle_id for b in doc.bundles]}, expected {[b.id for b in bs]}'))
            chk([b.number for b in doc.bundles] == list(range(1, len(bs) + 1)), 'bundle-numbers', lambda: say(f'numbers {[b.number for b in doc.bundles]}'))
            chk(len(doc) == len(bs) and [x for x in doc] == doc.bundles and list(doc[:]) == doc.bundles, 'bundle-list', lambda: say('iteration over bundles'))
            alltrees = []
            for b in bs:
                chk(b.obj.bundle_id == b.id, 'bundle-id', lambda: say(f'bundle {b.id} has id {b.obj.bundle_id}'))
                chk(b.obj.address() == b.id, 'bundle-id', lambda: say(f'address {b.obj.address()} of bundle {b.id}'))
                chk(b.obj.document is doc, 'bundle-document', lambda: say(f'bundle {b.id} claims another document'))
                got = [t.zone for t in b.obj.trees]
                chk(got == [z for _, z in b.trees] and all(x is t for x, (t, _) in zip(b.obj.trees, b.trees)), 'zones',
                    lambda: say(f'bundle {b.id} has zones {got}, expected {[z for _, z in b.trees]}'))
                for t, z in b.trees:
                    alltrees.append(t)
                    full = b.id + ('/' + z if z else '')
                    chk(t.bundle is b.obj, 'tree-bundle', lambda: say(f'tree {full} is in bundle {t.bundle}'))
                    chk(t.document is doc, 'tree-document', lambda: say(f'tree {full} is in another document'))
                    chk(b.obj.has_tree(z) and b.obj.get_tree(z) is t, 'found-by-zone', lambda: say(f'{full} is not found by its zone'))
                    chk(t.sent_id == full, 'sent-id', lambda: say(f'tree {full} has sent_id {t.sent_id}'))
                    chk(t.address() == full, 'address', lambda: say(f'tree {full} has address {t.address()}'))
                    for n in list(t.descendants_and_empty)[:3]:
                        chk(n.address() == f'{full}#{n.ord}', 'address', lambda: say(f'node {n.ord} of tree {full} has address {n.address()}'))
                for z in ('xx', 'en', ''):
                    chk(b.obj.has_tree(z) == (z in got), 'found-by-zone', lambda: say(f'bundle {b.id} with zones {got}: has_tree({z!r}) is wrong'))
            got = list(doc.trees)
            chk(len(got) == len(alltrees) and all(x is y for x, y in zip(got, alltrees)), 'tree-list', lambda: say('document.trees'))
            nodes = [n for t in alltrees for n in t.descendants]
            got = list(doc.nodes)
            chk(len(got) == len(nodes) and all(x is y for x, y in zip(got, nodes)), 'node-list', lambda: say('document.nodes'))
            byzone = {}
            for n in nodes:
                byzone.setdefault(n.root.zone, []).append(n)
            for z, ns in byzone.items():
                for i in range(0, len(ns), max(1, len(ns) // 6)):
                    j = (i * 5 + 2) % len(ns)
                    chk(bool(ns[i].precedes(ns[j])) == (i < j), 'word-order', lambda: say(f'{ns[i].address()} precedes {ns[j].address()}: {ns[i].precedes(ns[j])}'))

    def stored(d):
        return docs[d].to_conllu_string()

    verify('loading')
    last = ['load', 'load']
    for name, a, b_, c, e in plan['ops']:
        di = a % len(docs)
        doc, bs = docs[di], model[di]
        mb = bs[b_ % len(bs)] if bs else None
        sim.count('op:' + name)
        sim.log(name, di)
        last = [last[1], name]
        what = name
        zones = [z for _, z in mb.trees] if mb else []
        if name == 'newbundle':
            if len(bs) > 8:
                continue
            new = doc.create_bundle()
            others = [x.id for x in bs]
            sim.check(new.bundle_id and new.bundle_id not in others, 'new-id', lambda: f'new bundle got id {new.bundle_id}, ids in use {others}')
            bs.append(B(new, new.bundle_id, []))
        elif name == 'newtree':
            zone = ZONES[c % len(ZONES)]
            if mb is None or zone in zones:
                continue
            t = mb.obj.create_tree(zone) if zone or e % 2 else mb.obj.create_tree()
            mb.trees.append([t, zone])
            for i in range(e % 3):
                t.create_child(form=fresh('w'))
        elif name == 'addtree':
            zone = ZONES[c % len(ZONES)]
            if mb is None or zone in zones:
                continue
            t = Root(zone=zone if zone or e % 2 else None)
            if e & 2:
                t.sent_id = fresh('own') + ('/' + zone if zone else '')
            if e & 4:
                t.create_child(form=fresh('w'))
            mb.obj.add_tree(t)
            mb.trees.append([t, zone])
        elif name == 'rmtree':
            if mb is None or not mb.trees:
                continue
            t, z = mb.trees.pop(c % len(mb.trees))
            t.remove()
            removed.append([t, z])
        elif name == 'readd':
            if not removed or mb is None:
                continue
            t, z = removed[c % len(removed)]
            if z in zones:
                continue
            mb.obj.add_tree(t)
            mb.trees.append([t, z])
            removed[:] = [x for x in removed if x[0] is not t]
        elif name == 'moveall':         # move every tree of a bundle to another one
            other = model[c % len(docs)]
            if mb is None or not other:
                continue
            dst = other[e % len(other)]
            if dst is mb or set(zones) & {z for _, z in dst.trees}:
                continue
            for t, z in list(mb.trees):
                t.remove()
                dst.obj.add_tree(t)
                dst.trees.append([t, z])
            mb.trees = []
        elif name == 'zone':
            zone = ZONES[c % len(ZONES)]
            if mb is None or not mb.trees:
                continue
            x = mb.trees[e % len(mb.trees)]
            if zone in zones and zone != x[1]:
                continue
            x[0].zone = zone
            x[1] = zone
            if len(mb.trees) > 1:
                sim.probe('renamed-multizone')
        elif name == 'sentid':
            if mb is None or not mb.trees:
                continue
            x = mb.trees[e % len(mb.trees)]
            new = fresh('x')
            zone = ZONES[c % len(ZONES)]
            if (c >> 8) % 3 == 0:       # without zone: the zone stays
                x[0].sent_id = new
            elif (c >> 8) % 3 == 1 and zone and (zone not in zones or zone == x[1]):
                x[0].sent_id = f'{new}/{zone}'
                x[1] = zone
            elif x[1]:
                x[0].sent_id = f'{new}/{x[1]}'
            else:
                continue
            mb.id = new
            if len(mb.trees) > 1:
                sim.probe('renamed-multizone')
        elif name == 'bundleid':
            if mb is None:
                continue
            mb.id = fresh()
            mb.obj.bundle_id = mb.id
        elif name == 'rmbundle':
            if mb is None:
                continue
            mb.obj.remove()
            bs.remove(mb)
            sim.probe('removed-then-created')
        elif name == 'words':
            if mb is None or not mb.trees:
                continue
            mb.trees[e % len(mb.trees)][0].create_child(form=fresh('w'))
        elif name == 'look':
            if mb is None or not mb.trees:
                continue
            t = mb.trees[e % len(mb.trees)][0]
            [t.sent_id, t.address(), str(t), str(mb.obj), t.get_sentence(), [n.address() for n in t.descendants]]    # pylint: disable=W0104
        elif name in ('reload', 'more'):
            keep = [x for x in bs if x.trees]
            if not keep:
                continue
            text = stored(di)
            want = [x.id + ('/' + z if z else '') for x in keep for _, z in x.trees]
            sim.check(ids_of(text) == want, 'stored-ids', lambda: f'stored ids {ids_of(text)}, expected {want}')
            new = Document()
            new.from_conllu_string(text)
            m = observe(new, want)
            if any(len(x.trees) > 1 for x in keep):
                sim.probe('reloaded-multizone')
            if name == 'reload':
                docs[di], model[di] = new, m
            else:                       # the same sentences once more, under other ids
                if len(keep) > 5:
                    continue
                again = []
                ren = {}
                for line in text.split('\n'):
                    if line.startswith('# sent_id = '):
                        i, s, z = line[12:].partition('/')
                        if i not in ren:
                            ren[i] = fresh('m')
                        line = f'# sent_id = {ren[i]}{s}{z}'
                    again.append(line)
                new = Document()
                new.from_conllu_string('\n'.join(again))
                docs[di], model[di] = new, observe(new, ids_of('\n'.join(again)))
            what = 'storing and loading'
        elif name == 'zoneread':
            zone = ZONES[1:][c % (len(ZONES) - 1)]
            if any(zone in [z for _, z in x.trees] for x in bs) or len(bs) > 7:
                continue
            n = max(0, len(bs) + e % 3 - 1)
            if n == 0:
                continue
            new = [fresh('z') for _ in range(n)]
            withid = (e >> 4) % 2
            text = ''.join((f'# sent_id = {i}\n' if withid else '') + f'1\t{fresh("w")}\t_\t_\t_\t_\t0\troot\t_\t_\n\n' for i in new)
            reader = create_block('read.Conllu', filehandle=io.StringIO(text), zone=zone)
            reader.process_document(doc)
            sim.check(len(doc.bundles) == max(len(bs), n), 'zone-read', lambda: f'reading {n} sentences of zone {zone} into {len(bs)} bundles gives {len(doc.bundles)}')
            for i, obj in enumerate(doc.bundles[:n]):
                if i >= len(bs):
                    if withid:
                        bs.append(B(obj, new[i], []))
                    else:
                        others = [x.id for x in bs]
                        sim.check(obj.bundle_id not in others, 'new-id', lambda: f'new bundle got id {obj.bundle_id}, ids in use {others}')
                        bs.append(B(obj, obj.bundle_id, []))
                bs[i].trees.append([obj.trees[-1], zone])
            sim.probe('zone-read-into-document')
        elif name == 'normalize':
            prefix = fresh('n')
            start = 1 + c % 3
            if not bs:
                continue
            create_block('util.Normalize', sent_id_prefix=prefix, start_sent_id=start).run(doc)
            for i, x in enumerate(bs):
                x.id = prefix + str(start + i)
        elif name == 'block':
            if not bs or any([z for _, z in x.trees] != [''] for x in bs) or any(not t.descendants for x in bs for t, _ in x.trees):
                continue
            what = run_block(sim, create_block, docs, model, di, B, b_, c, e)
            if what is None:
                continue
        elif name == 'bad':
            if mb is None:
                continue
            bad = BADZONES[c % len(BADZONES)]
            dup = zones[c % len(zones)] if zones else None
            x = mb.trees[e % len(mb.trees)] if mb.trees else None
            how = (e >> 4) % 7
            zone = dup if how % 2 and dup is not None and (x is None or dup != x[1]) else bad
            if how in (0, 1):
                fn = lambda: mb.obj.create_tree(zone)
            elif how in (2, 3):
                fn = lambda: mb.obj.add_tree(Root(zone=zone))
            elif x is None:
                continue
            elif how in (4, 5):
                def fn():
                    x[0].zone = zone
            else:
                if not zone:
                    continue

                def fn():
                    x[0].sent_id = f'{fresh()}/{zone}'
            try:
                fn()
            except Exception:    # pylint: disable=broad-except
                sim.fault(f'refused zone ({["create", "add", "zone", "sent_id"][how // 2]})')
                sim.probe('refused')
                what = f'refused zone {zone!r}'
            else:
                sim.check(False, 'must-refuse', lambda: f'zone {zone!r} accepted in bundle with zones {zones}')
        verify(what)
        sim.nontrivial = sim.nontrivial or len(bs) > 1
        sim.state([[sorted(z for _, z in x.trees) for x in bs], [x.id[0] for x in bs], last])
    for di, bs in enumerate(model):
        if any(x.trees for x in bs):
            text = stored(di)
            want = [x.id + ('/' + z if z else '') for x in bs for _, z in x.trees]
            sim.check(ids_of(text) == want, 'stored-ids', lambda: f'stored ids {ids_of(text)}, expected {want}')
            sim.log(want)


def run_block(sim, create_block, docs, model, di, B, b_, c, e):
    """A block that splits, joins or distributes bundles; the model follows what it did, the invariants are checked then."""
    from udapi.core.document import Document
    doc, bs = docs[di], model[di]
    kind = c % 5
    if kind == 0:
        tree = bs[b_ % len(bs)].trees[0][0]
        words = tree.descendants
        if len(words) < 2:
            return None
        for w in words[1:]:
            if (e >> w.ord % 8) % 2:
                w.misc['Split'] = 'Here'
        create_block('util.SplitSentence', misc_name='Split').process_document(doc)
        what = 'util.SplitSentence misc_name'
    elif kind == 1:
        x = bs[b_ % len(bs)]
        words = x.trees[0][0].descendants
        if len(words) < 2:
            return None
        create_block('util.SplitSentence', sent_id=x.id, word_id=2 + e % (len(words) - 1)).process_document(doc)
        what = 'util.SplitSentence sent_id'
    elif kind == 2:
        if len(bs) < 2:
            return None
        for x in bs[1:]:
            if (e >> bs.index(x) % 8) % 2:
                x.trees[0][0].descendants[0].misc['Join'] = 'Yes'
        create_block('util.JoinSentence', misc_name='Join').process_document(doc)
        what = 'util.JoinSentence'
    elif kind == 3:
        if len(bs) < 2:
            return None
        for x in bs[:-1]:
            if (e >> bs.index(x) % 8) % 2:
                x.trees[0][0].descendants[-1].form += ';'
        create_block('segment.Merge').process_document(doc)
        what = 'segment.Merge'
    else:
        reader = create_block('util.Split', bundles_per_doc=1 + e % 3)
        parts = []
        reader.process_document(doc)
        while not reader.finished:
            d = Document()
            reader.process_document(d)
            parts.append(d)
        for d in parts[:3]:
            docs.append(d)
            model.append([B(b, b.bundle_id, [[t, t.zone] for t in b.trees]) for b in d.bundles])
        what = 'util.Split'
    model[di] = [B(b, b.bundle_id, [[t, t.zone] for t in b.trees]) for b in doc.bundles]
    ids = [x.id for x in model[di]]
    sim.check(len(set(ids)) == len(ids), 'new-id', lambda: f'{what} gives ids {ids}')
    return what
