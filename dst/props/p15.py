"""P15: coreference links stay mutually consistent under every history of edits by several clients, refused edits included."""
from dst import core, docworld, world

RUNS = {'quick': 5000, 'thorough': 120000}
LISTS = ('ops', 'docs')
STATE_RULE = 'one state = (kind of the last operation, relation of the spans of all mentions in their trees), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.coref', 'udapi.core.document', 'udapi.core.node', 'read.Conllu'], 'stub': []}
ASSUMPTIONS = ['words of mentions are not reordered (words may be added to the tree, removed and attached elsewhere)',
               'no two mentions of one entity consist of the same words', 'mentions are created and deleted by CorefEntity.create_mention() and CorefMention.remove()']
PROBES = ('discontinuous', 'two-mentions-of-a-word', 'moved-mention', 'refused', 'empty-node-in-mention', 'ten-empty-nodes', 'same-span', 'removed-word', 'removed-head', 'lenient-loaded', 'lenient-refused')
KINDS = {'entity': 1.5, 'nodeentity': 0.7, 'mention': 6, 'words': 4, 'span': 2, 'head': 1, 'moveto': 1.5, 'merge': 0.3, 'rmmention': 1.2, 'eid': 0.7, 'etype': 0.5,
         'other': 0.7, 'bridge': 1.5, 'split': 1, 'bad': 5, 'tree': 1.5, 'look': 2, 'burst': 0.15, 'store': 0.3, 'rmnode': 0.5}
BADS = ['dup_entity', 'entity_name', 'eid', 'mention', 'mention_edit', 'bridging', 'other']


def gen(rng):
    docs = world.gen_world(rng, docs=(1, 2), trees=(1, 3), sizes=(1, 7), empties=0.5, mwts=0.2)
    r = lambda n=1 << 16: rng.randrange(n)
    if rng.random() < 0.15:         # lenient loading of annotation with cross-sentence and never closed mentions
        docs = [docworld.break_coref(rng, t, lenient=True) for t in docs[:1]]
        return {'docs': docs, 'lenient': 1, 'ops': [[rng.choices(['rmnode', 'rmmention', 'words', 'store'], [4, 2, 2, 1])[0], r(), r()] for _ in range(rng.randint(0, 6))]}
    w = {k: v for k, v in KINDS.items() if k in ('entity', 'mention') or rng.random() < 0.88}
    names = list(w)
    ops = [['entity', r(), r(), r(), r(), r()] for _ in range(rng.randint(1, 3))]
    ops += [[rng.choices(names, list(w.values()))[0], r(), r(), r(), r(), r()] for _ in range(rng.randint(4, 34))]
    return {'docs': docs, 'ops': ops}


class M:
    """A mention of the model."""

    def __init__(self, obj, words, head, other=None):
        self.obj, self.words, self.head = obj, set(map(id, words)), head
        self.other, self.bridging = dict(other or {}), []


class E:
    def __init__(self, obj, eid, etype):
        self.obj, self.eid, self.etype, self.mentions, self.split = obj, eid, etype, [], []


def parse_span(span, order):
    """Nodes of a span, read independently of the library (ords as pairs)."""
    pair = lambda s: (int(s.split('.')[0]), int(s.split('.')[1]) if '.' in s else 0)
    out = []
    for part in span.split(','):
        lo, _, hi = part.partition('-')
        lo, hi = pair(lo), pair(hi or lo)
        out.append((lo, hi))
    return {id(n) for n in order if any(lo <= pair(str(n.ord)) <= hi for lo, hi in out)}


class CorefWorld:
    def __init__(self, sim, plan):
        self.sim = sim
        self.w = docworld.DocWorld(sim, plan['docs'])
        self.docs = self.w.docs
        self.ents = [[] for _ in self.docs]
        self.gone = []

    def order(self, tree):
        return list(tree.descendants_and_empty)

    def mentions(self, d):
        return [(e, m) for e in self.ents[d] for m in e.mentions]

    def key(self, d, m, pos):
        p = sorted(pos[i] for i in m.words)
        return (p[0], -len(p), p[-1])

    def verify(self, what):
        chk = self.sim.check
        for d, doc in enumerate(self.docs):
            say = lambda msg: f'after {what}: {msg}'
            allnodes = [n for t in doc.trees for n in self.order(t)]
            pos = {id(n): i for i, n in enumerate(allnodes)}
            ents = self.ents[d]
            found = doc.eid_to_entity
            chk(sorted(found) == sorted(e.eid for e in ents), 'entities', lambda: say(f'entities {sorted(found)}, expected {sorted(e.eid for e in ents)}'))
            chk(len(doc.coref_entities) == len(ents) and {id(x) for x in doc.coref_entities} == {id(e.obj) for e in ents}, 'entities',
                lambda: say(f'coref_entities {[x.eid for x in doc.coref_entities]}'))
            bywords = {}
            for e in ents:
                chk(found[e.eid] is e.obj and e.obj.eid == e.eid, 'found-by-name', lambda: say(f'{e.eid} finds {found[e.eid].eid}'))
                chk(e.obj.etype == e.etype, 'etype', lambda: say(f'etype of {e.eid} is {e.obj.etype}'))
                got = list(e.obj.mentions)
                chk(len(got) == len(e.mentions) and {id(x) for x in got} == {id(m.obj) for m in e.mentions}, 'mentions-of-entity',
                    lambda: say(f'{e.eid} lists {[x.span for x in got]}, expected {len(e.mentions)} mentions'))
                bym = {id(m.obj): m for m in e.mentions}
                keys = [self.key(d, bym[id(x)], pos) for x in got]
                chk(keys == sorted(keys), 'mentions-in-order', lambda: say(f'mentions of {e.eid} are listed as {[x.span for x in got]}'))
                chk([x.eid for x in e.obj.split_ante] == [x.eid for x in e.split], 'split-ante', lambda: say(f'split antecedents of {e.eid}'))
                for m in e.mentions:
                    words = list(m.obj.words)
                    ids = [id(x) for x in words]
                    chk(set(ids) == m.words and len(ids) == len(m.words), 'words', lambda: say(f'mention of {e.eid} has words {[x.address() for x in words]}, expected '
                                                                                         f'{[n.address() for n in allnodes if id(n) in m.words]}'))
                    chk([pos[i] for i in ids] == sorted(pos[i] for i in ids), 'words-in-order', lambda: say(f'words of {e.eid}: {[x.address() for x in words]}'))
                    chk(m.obj.head is m.head and id(m.head) in m.words, 'head', lambda: say(f'head of a mention of {e.eid} is {m.obj.head.address()}'))
                    chk(m.obj.entity is e.obj, 'entity-of-mention', lambda: say(f'mention {m.obj.span} of {e.eid} claims {m.obj.entity.eid}'))
                    got = m.obj.span
                    chk(parse_span(got, self.order(words[0].root)) == m.words, 'span', lambda: say(f'span {got} of words {[x.address() for x in words]}'))
                    chk(dict(m.obj.other) == m.other, 'other', lambda: say(f'attributes {dict(m.obj.other)}, expected {m.other}'))
                    links = [[bl.target.eid, bl.relation] for bl in m.obj.bridging]
                    want = [[x.eid, rel] for x, rel in m.bridging]
                    chk(links == want, 'bridging', lambda: say(f'bridging of {e.eid} {m.obj.span}: {links}, expected {want}'))
                    chk([x.eid for x in m.obj.bridging.targets] == [x[0] for x in want] and len(m.obj.bridging) == len(want), 'bridging', lambda: say('targets'))
                    chk([[bl.target.eid, bl.relation] for bl in m.obj.bridging('part')] == [x for x in want if x[1].startswith('part')], 'bridging',
                        lambda: say('bridging selected by relation'))
                    chk(m.obj.bridging.src_mention is m.obj, 'bridging', lambda: say('source of bridging'))
                    for i in m.words:
                        bywords.setdefault(i, []).append((e, m))
                    if ',' in got:
                        self.sim.probe('discontinuous')
                    if any(x.is_empty() for x in words):
                        self.sim.probe('empty-node-in-mention')
            for n in allnodes:
                got = list(n.coref_mentions)
                want = bywords.get(id(n), [])
                chk(len(got) == len(want) and {id(x) for x in got} == {id(m.obj) for _, m in want}, 'mentions-of-word',
                    lambda: say(f'{n.address()} knows mentions {[(x.entity.eid, x.span) for x in got]}, expected {[(e.eid, m.obj.span) for e, m in want]}'))
                bym = {id(m.obj): (m, e) for e, m in want}
                keys = [self.key(d, bym[id(x)][0], pos) for x in got]
                chk(keys == sorted(keys), 'mentions-in-order', lambda: say(f'mentions of {n.address()}: {[(x.entity.eid, x.span) for x in got]}'))
                chk([x.eid for x in n.coref_entities] == [x.entity.eid for x in got], 'entities-of-word', lambda: say(f'entities of {n.address()}'))
                if len(got) > 1:
                    self.sim.probe('two-mentions-of-a-word')
                    if len(set(keys)) < len(keys):
                        self.sim.probe('same-span')
            got = list(doc.coref_mentions)
            want = self.mentions(d)
            chk(len(got) == len(want) and {id(x) for x in got} == {id(m.obj) for _, m in want}, 'all-mentions', lambda: say(f'coref_mentions lists {len(got)} mentions of {len(want)}'))
            bym = {id(m.obj): m for _, m in want}
            keys = [self.key(d, bym[id(x)], pos) for x in got]
            chk(keys == sorted(keys), 'mentions-in-order', lambda: say(f'coref_mentions: {[(x.entity.eid, x.span) for x in got]}'))

    def free(self, e, words, but=None):
        ws = set(map(id, words))
        return not any(m.words == ws for m in e.mentions if m is not but)

    def run(self, tree, k, ln, gap):
        nodes = self.order(tree)
        if not nodes:
            return []
        a = k % len(nodes)
        run = nodes[a:a + 1 + [0, 0, 1, 1, 2, 3, 5][ln % 7]]
        if gap % 3 == 0 and len(run) > 2:
            del run[1 + gap % (len(run) - 2)]
        return run

    def apply(self, op):
        kind, a, b, c, e_, f = op
        d = a % len(self.docs)
        doc, ents = self.docs[d], self.ents[d]
        ms = self.mentions(d)
        ent = ents[b % len(ents)] if ents else None
        men = ms[b % len(ms)] if ms else None
        trees = list(doc.trees)
        tree = trees[c % len(trees)]
        if kind == 'entity':
            if len(ents) > 7:
                return None
            self.w.counter += 1
            eid = f'n{self.w.counter}' if b % 2 else None
            etype = ['person', None, 'place'][b % 3]
            obj = doc.create_coref_entity(eid, etype) if b % 5 else doc.create_coref_entity(eid=eid, etype=etype)
            if eid is None:
                self.sim.check(obj.eid not in [x.eid for x in ents], 'new-name', lambda: f'new entity is named {obj.eid} as another one')
            else:
                self.sim.check(obj.eid == eid, 'new-name', lambda: f'new entity is named {obj.eid}')
            ents.append(E(obj, obj.eid, etype))
        elif kind == 'nodeentity':
            nodes = self.order(tree)
            if not nodes or len(ents) > 7:
                return None
            n = nodes[e_ % len(nodes)]
            words = [n] + [x for x in self.run(tree, b, f, f) if x is not n] if f % 2 else None
            obj = n.create_coref_entity(etype='person', words=words) if words else n.create_coref_entity(etype='person')
            x = E(obj, obj.eid, 'person')
            x.mentions.append(M(obj.mentions[0], words or [n], n))
            ents.append(x)
        elif kind == 'mention':
            if ent is None:
                return None
            words = self.run(tree, e_, e_ >> 5, f)
            if not words or not self.free(ent, words):
                return None
            head = words[(c >> 4) % len(words)]
            how = (b >> 6) % 5
            if how == 0:
                new = ent.obj.create_mention(head=head, words=words)
            elif how == 1:
                head = words[0]
                new = ent.obj.create_mention(words=words)
            elif how == 2:
                new = ent.obj.create_mention(head=head, span=docworld.spanstr(words))
            elif how == 3:
                new = ent.obj.create_mention(head=head, words=list(reversed(words)) + words[:1])
            else:
                words = [head]
                if not self.free(ent, words):
                    return None
                new = ent.obj.create_mention(head=head)
            ent.mentions.append(M(new, words, head))
        elif kind in ('words', 'span'):
            if men is None:
                return None
            e, m = men
            nodes = self.order(m.head.root)
            at = next(i for i, n in enumerate(nodes) if n is m.head)
            lo = max(0, at - c % 4)
            words = nodes[lo:at + 1 + e_ % 4]
            if f % 3 == 0:
                words = [x for i, x in enumerate(words) if x is m.head or (f >> 3 >> i) % 3]
            if not self.free(e, words, m):
                return None
            if kind == 'span':
                m.obj.span = docworld.spanstr(words)
            elif b % 3 == 0:
                m.obj.words = words
            elif b % 3 == 1:
                m.obj.words = list(reversed(words)) + words[:1]
            else:
                given = list(words)
                m.obj.words = given
                given.append(None)
            m.words = set(map(id, words))
        elif kind == 'head':
            if men is None:
                return None
            words = [n for n in self.order(men[1].head.root) if id(n) in men[1].words]
            men[1].head = words[c % len(words)]
            men[1].obj.head = men[1].head
        elif kind == 'moveto':
            if men is None or ent is None:
                return None
            e, m = men
            x = ents[c % len(ents)]
            if any(t is x for t, _ in m.bridging) or any(y.words == m.words for y in x.mentions if y is not m):
                return None
            m.obj.entity = x.obj
            e.mentions.remove(m)
            x.mentions.append(m)
            self.sim.probe('moved-mention')
        elif kind == 'merge':
            if ent is None or len(ents) < 2:
                return None
            x = ents[c % len(ents)]
            if x is ent:
                return None
            for m in list(ent.mentions):
                if any(t is x for t, _ in m.bridging) or any(y.words == m.words for y in x.mentions):
                    continue
                m.obj.entity = x.obj
                ent.mentions.remove(m)
                x.mentions.append(m)
        elif kind == 'rmmention':
            if men is None:
                return None
            men[1].obj.remove()
            men[0].mentions.remove(men[1])
            self.gone.append(men[1])
        elif kind == 'eid':
            if ent is None:
                return None
            self.w.counter += 1
            new = [f'r{self.w.counter}', f'e{self.w.counter % 9 + 1}', ent.eid][c % 3]
            if new in [x.eid for x in ents if x is not ent]:
                return None
            ent.obj.eid = new
            ent.eid = new
        elif kind == 'etype':
            if ent is None:
                return None
            ent.etype = ['person', 'place', 'abstract'][c % 3]
            ent.obj.etype = ent.etype
        elif kind == 'other':
            if men is None:
                return None
            m = men[1]
            if c % 4 == 0:
                m.obj.other = {'A': 'b'}
                m.other = {'A': 'b'}
            elif c % 4 == 3:
                src = ms[e_ % len(ms)][1]
                m.obj.other = src.obj.other
                m.other = dict(src.other)
            else:
                m.obj.other[f'k{c % 3}'] = f'v{e_ % 2}'
                m.other[f'k{c % 3}'] = f'v{e_ % 2}'
        elif kind == 'bridge':
            if men is None:
                return None
            e, m = men
            x = ents[c % len(ents)]
            if x is e:
                return None
            rel = ['part', 'subset', '', 'part:of'][e_ % 4]
            how = f % 5
            if how == 0 and m.bridging:
                i = e_ % len(m.bridging)
                del m.obj.bridging[i]
                del m.bridging[i]
            elif how == 1 and m.bridging:
                i = e_ % len(m.bridging)
                m.obj.bridging[i] = (x.obj, rel)
                m.bridging[i] = (x, rel)
            elif how == 2:
                m.obj.bridging.insert(0, (x.obj, rel))
                m.bridging.insert(0, (x, rel))
            elif how == 3 and m.bridging:
                i = e_ % len(m.bridging)
                m.obj.bridging[i].relation = rel
                m.bridging[i] = (m.bridging[i][0], rel)
            else:
                m.obj.bridging.append((x.obj, rel))
                m.bridging.append((x, rel))
        elif kind == 'split':
            if ent is None:
                return None
            x = ents[c % len(ents)]
            if x is ent or x in ent.split:
                return None
            ent.obj.split_ante.append(x.obj)
            ent.split.append(x)
        elif kind == 'tree':
            sub = [['child', c, e_, f], ['empty', c, e_, f], ['parent', c, e_, f, 0]][b % 3]
            ti = next(i for i, t in enumerate(self.w.trees) if t is tree)
            n = self.w.pick_word(ti, e_)
            if n is None:
                return None
            if sub[0] == 'child':
                n.create_child(form=self.w.fresh())
            elif sub[0] == 'empty':
                n.create_empty_child('dep', after=bool(f % 2), form=self.w.fresh())
            else:
                target = self.w.pick_word(ti, f, root=True)
                if target is n or target.is_descendant_of(n):
                    return None
                n.parent = target
        elif kind == 'rmnode':
            if b % 2:
                es = list(tree.empty_nodes)
                if not es:
                    return None
                n, how = es[e_ % len(es)], None
            else:
                n = self.w.pick_word(next(i for i, t in enumerate(self.w.trees) if t is tree), e_)
                if n is None or len(tree.descendants) == 1:
                    return None
                how = [None, 'rehang'][f % 2]
            was = {id(x): x for x in self.order(tree)}
            self.gone.append(list(was.values()))
            n.remove(children=how) if how else n.remove()
            gone = set(was) - {id(x) for x in self.order(tree)}
            self.sim.check(id(n) in gone, 'removed', 'the node is still there')
            for x in ents:
                for m in list(x.mentions):
                    if m.words & gone:
                        m.words = m.words - gone
                        self.sim.probe('removed-word')
                        if not m.words:
                            x.mentions.remove(m)
                            self.gone.append(m)
                        elif id(m.head) in gone:
                            m.head = m.obj.head
                            self.sim.probe('removed-head')
        elif kind == 'burst':
            n = self.w.pick_word(next(i for i, t in enumerate(self.w.trees) if t is tree), e_)
            if n is None:
                return None
            for _ in range(9 + b % 4):
                n.create_empty_child('dep', form=self.w.fresh())
            self.sim.probe('ten-empty-nodes')
        elif kind == 'look':
            self.w.snapshot()
        elif kind == 'store':
            if all(self.storable(i) for i in range(len(self.docs))):
                doc.to_conllu_string()
        elif kind == 'bad':
            name = BADS[b % len(BADS)]
            i = docworld.BAD.index(name)
            res = self.w.op_bad(i, d, c, e_)
            if res == 'refused':
                self.sim.probe('refused')
                return f'refused {name}'
            if res == 'accepted':
                raise core.Violation('must-refuse', f'{name} was not refused', f'must-refuse/{name}')
            return None
        return kind

    def storable(self, d):
        return True


def lenient(plan, sim):
    from udapi.block.corefud.load import Load
    w = docworld.DocWorld(sim, plan['docs'])
    doc = w.docs[0]
    try:
        Load(strict=False).apply_on_document(doc)
    except Exception:       # pylint: disable=broad-except
        sim.probe('lenient-refused')
        loaded = False
    else:
        sim.probe('lenient-loaded')
        loaded = True
        consistent(doc, sim, 'lenient loading')
    sim.nontrivial = True
    for op, a, b in plan['ops']:
        nodes = list(doc.nodes_and_empty)
        ms = list(doc.coref_mentions) if loaded else []
        if op == 'rmnode' and nodes:
            nodes[a % len(nodes)].remove(children='rehang') if not nodes[a % len(nodes)].is_empty() else nodes[a % len(nodes)].remove()
        elif op == 'rmmention' and ms:
            ms[a % len(ms)].remove()
        elif op == 'words' and ms:
            m = ms[a % len(ms)]
            tree = list(m.head.root.descendants_and_empty)
            m.words = [x for i, x in enumerate(tree) if x is m.head or b >> (i % 12) & 1]
        elif op == 'store' and loaded:
            doc.to_conllu_string()
        else:
            continue
        sim.count('op:' + op)
        if loaded:
            consistent(doc, sim, op)
            sim.state([op, sorted([m.span for m in doc.coref_mentions])])
    sim.log(doc.to_conllu_string())


def consistent(doc, sim, what):
    """All links agree with each other (without a model of what they should be)."""
    chk = sim.check
    every = {id(m): m for m in doc.coref_mentions}
    chk(len(every) == len(doc.coref_mentions), 'all-mentions', lambda: f'after {what}: a mention is listed twice')
    for e in doc.coref_entities:
        chk(doc.eid_to_entity.get(e.eid) is e, 'found-by-name', lambda: f'after {what}: {e.eid}')
        for m in e.mentions:
            chk(m.entity is e and id(m) in every, 'entity-of-mention', lambda: f'after {what}: mention {m.span} of {e.eid}')
    pos = {id(n): i for i, n in enumerate(doc.nodes_and_empty)}
    for m in every.values():
        ids = [pos.get(id(x)) for x in m.words]
        chk(bool(ids) and None not in ids, 'words', lambda: f'after {what}: {m.entity.eid} has words {ids}')
        chk(ids == sorted(ids), 'words-in-order', lambda: f'after {what}: {m.entity.eid} has words {m.span}')
        chk(any(x is m.head for x in m.words), 'head', lambda: f'after {what}: head of {m.entity.eid} {m.span} is {m.head.address()}')
        for x in m.words:
            chk(any(y is m for y in x.coref_mentions), 'mentions-of-word', lambda: f'after {what}: {x.address()} does not know its mention of {m.entity.eid}')
        chk(parse_span(m.span, list(m.head.root.descendants_and_empty)) == set(map(id, m.words)), 'span', lambda: f'after {what}: span {m.span}')
    for n in doc.nodes_and_empty:
        for m in n.coref_mentions:
            chk(id(m) in every and any(x is n for x in m.words), 'mentions-of-word',
                lambda: f'after {what}: {n.address()} knows a mention of {m.entity.eid} ({m.span}) which is deleted or does not have it')


def execute(plan, sim):
    if not plan['docs']:
        return
    if plan.get('lenient'):
        lenient(plan, sim)
        return
    w = CorefWorld(sim, plan)
    w.verify('loading')
    for op in plan['ops']:
        what = w.apply(op)
        sim.log(op[0], what)
        if what is None:
            continue
        sim.count('op:' + op[0])
        sim.nontrivial = True
        w.verify(what)
        sim.state([what, sorted([m.obj.span, len(m.obj.bridging)] for d in range(len(w.docs)) for _, m in w.mentions(d))])
