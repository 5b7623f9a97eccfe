"""P16: coreference survives storing and loading, at any moment and any number of times within a history of edits."""
import io
import os
import re
import shutil
import tempfile

from dst import core, docworld, view, world
from dst.props.p03 import diff

RUNS = {'quick': 3000, 'thorough': 80000}
LISTS = ('ops', 'docs')
STATE_RULE = 'one state = (kind of the operation before storing, relation of the spans and heads of all stored mentions), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.coref', 'udapi.core.document', 'write.Conllu', 'read.Conllu'],
              'stub': ['an independent reader of the Entity, Bridge and SplitAnte attributes (the oracle)']}
ASSUMPTIONS = ['mentions of one entity neither cross nor cover the same words (the format cannot hold them); mentions of different entities may',
               'attributes contain none of the characters the format uses itself; links from and to entities without mentions, and split antecedents '
               'with less than two antecedents, are not stored (documented by warnings)',
               'bridging links are compared per entity and first word (the format does not say more)']
PROBES = ('store', 'reload', 'discontinuous', 'crossing', 'nested-same-entity', 'other-header', 'GRP', 'empty-node-in-mention', 'several-documents', 'bridge', 'split-ante', 'shared-first-word')
WEIGHTS = dict(docworld.COREF_W, mention=7, words=3, store=1.2, reload=0.7, child=0.6, empty2=1, dep=0.4, map=0.5, dupspan=1.2, bridge=1.5, split=1.5, newdoc=0.3)
HEADERS = ['eid-etype-head-other', 'eid-etype-head-minspan-other', 'eid-etype-head-infstat-minspan-identity-other', 'etype-eid-infstat-head-other',
           'eid-head-other-etype', 'eid-etype-head-k1-k0', 'head-eid-etype-other', None]
FIELD_KEYS = ['k0', 'k1', 'k2', 'y', 'A']


def gen(rng):
    docs = world.gen_world(rng, docs=(1, 2), trees=(1, 3), sizes=(1, 7), empties=0.5, mwts=0.2)
    w = {k: v for k, v in WEIGHTS.items() if k in ('entity', 'mention') or rng.random() < 0.9}
    names = list(w)
    b = lambda n=1 << 16: rng.randrange(n)
    ops = [docworld.gen_op(rng, {'entity': 1}) for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(3, 30)):
        kind = rng.choices(names, list(w.values()))[0]
        if kind in ('store', 'reload', 'newdoc'):
            ops.append([kind, b(4), b(4)])
        elif kind == 'empty2':
            ops.append([kind, b(6), b()])
        elif kind == 'dupspan':
            ops.append([kind, b(4), b(), b(), b()])
        else:
            ops.append(docworld.gen_op(rng, {kind: 1}))
    return {'docs': docs, 'header': rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]), 'grp': rng.choice([0, 0, 1, 2]), 'ops': ops}


class Open(io.StringIO):
    """A text stream which is not closed by its user."""

    def close(self):
        pass


class CorefWorld(docworld.DocWorld):
    """Entities and mentions are picked in an order that storing and loading keeps."""

    def __init__(self, sim, texts, header, tmp):
        super().__init__(sim, texts)
        self.tmp = tmp
        self.header = HEADERS[header % len(HEADERS)]
        for doc in self.docs:
            if self.header:
                doc.meta['global.Entity'] = self.header

    def entity(self, d, k):
        e = sorted(self.doc(d).coref_entities, key=lambda x: x.eid)
        return e[k % len(e)] if e else None

    def mention(self, d, k):
        m = [x for e in sorted(self.doc(d).coref_entities, key=lambda x: x.eid) for x in e.mentions]
        return m[k % len(m)] if m else None

    def op_other(self, d, m, v, what):
        mention = self.mention(d, m)
        if mention is None:
            return 'skip'
        keys = ['k0', 'k1'] if self.header and 'other' not in self.header else FIELD_KEYS + [f for f in (self.header or '').split('-') if f not in ('eid', 'etype', 'head', 'other')]
        key = keys[v % len(keys)]
        if what % 4 == 0:
            mention.other[key] = f'v{v % 2}'
        elif what % 4 == 1:
            del mention.other[key]
        elif what % 4 == 2:
            mention.other = f'{key}:z'
        else:
            mention.other = {key: 'b,c' if key in FIELD_KEYS[2:] + ['minspan', 'identity', 'infstat'] else 'b'}
        return 'done'

    def op_dupspan(self, d, e, m, how):
        """A mention of another entity that shares its words, its start or its end with an existing one."""
        ent, old = self.entity(d, e), self.mention(d, m)
        if ent is None or old is None or ent is old.entity:
            return 'skip'
        nodes = list(old.words[0].root.descendants_and_empty)
        words = list(old.words)
        at = {id(n): i for i, n in enumerate(nodes)}
        if how % 4 == 1:
            words = nodes[at[id(words[0])]:at[id(words[0])] + 1 + how // 4 % 5]
        elif how % 4 == 2:
            end = at[id(words[-1])]
            words = nodes[max(0, end - how // 4 % 5):end + 1]
        elif how % 4 == 3:
            a, z = at[id(words[0])], at[id(words[-1])]
            words = nodes[max(0, a - 1 - how // 4 % 2):max(a, z - how // 8 % 2) + 1]
        if not self.span_free(ent, words):
            return 'skip'
        ent.create_mention(head=words[how // 4 % len(words)], words=words)
        return 'done'

    def op_empty2(self, t, k):
        """A new empty node, unless the mentions it falls into could not be stored any more."""
        tree = self.trees[self.tree_i(t)]
        nodes = list(tree.descendants)
        if not nodes or len(tree.empty_nodes) > 12:
            return 'skip'
        new = nodes[k % len(nodes)].create_empty_child('dep', form=self.fresh())
        self.register(new)
        for doc in self.docs:
            for e in doc.coref_entities:
                for m in e.mentions:
                    if m.words[0].root is tree and not self.span_free(e, m.words, m):
                        new.remove()
                        return 'undone'
        return 'done'

    def op_newdoc(self, t, what):
        tree = self.trees[self.tree_i(t)]
        tree.newdoc = [True, 'name', True, None][what % 4]
        return 'done'

    # --- storing -----------------------------------------------------------------------------------------
    def text(self, d, how):
        doc = self.docs[d]
        if how % 4 == 0:
            return doc.to_conllu_string()
        name = os.path.join(self.tmp, 'x.conllu')
        if how % 4 == 1:
            doc.store_conllu(name)
        elif how % 4 == 2:
            from udapi.block.write.conllu import Conllu
            block = Conllu(files=name)
            block.process_start()
            block.apply_on_document(doc)
            block.after_process_document(doc)
            block.process_end()
        else:
            out = Open()
            from udapi.block.write.conllu import Conllu
            Conllu(filehandle=out).apply_on_document(doc)
            return out.getvalue()
        with open(name, encoding='utf-8', newline='') as f:
            return f.read()

    def load(self, text, how):
        doc = self.Document()
        if how % 2:
            name = os.path.join(self.tmp, 'y.conllu')
            with open(name, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
            doc.load_conllu(name)
        else:
            doc.from_conllu_string(text)
        return doc

    def replace(self, d, doc):
        old = {id(t) for t in self.docs[d].trees}
        self.docs[d] = doc
        self.trees = [t for t in self.trees if id(t) not in old] + list(doc.trees)
        self.models = [None] * len(self.trees)
        for t in doc.trees:
            for n in list(t.descendants) + list(t.empty_nodes):
                self.register(n)


def storable(doc):
    """The annotation as the file should hold it, from the public interface."""
    out = {}
    entities = [e for e in doc.coref_entities if e.mentions]
    kept = {id(e) for e in entities}
    for e in entities:
        ms = {}
        bridges = {}
        for m in e.mentions:
            where = ','.join(addr(w) for w in m.words)
            ms[where] = [addr(m.head), dict(m.other)]
            for bl in m.bridging:
                if id(bl.target) in kept:
                    bridges.setdefault(addr(m.words[0]), []).append([bl.target.eid, bl.relation or ''])
        split = [x.eid for x in e.split_ante if id(x) in kept]
        out[e.eid] = {'etype': e.etype or '', 'mentions': ms, 'bridging': {k: sorted(v) for k, v in sorted(bridges.items())},
                      'split': split if len(split) > 1 else []}
    return out


def addr(node):
    return f'{node.root.bundle.number}:{node.ord}'


CHUNK = re.compile(r'\([^()]*\)?|[^()]+\)')


def read_entities(text):
    """The same structure read from the stored text, with a reader of its own."""
    out = {}
    fields, sent = None, 0
    get = lambda eid: out.setdefault(eid, {'etype': '', 'mentions': {}, 'bridging': {}, 'split': []})
    opened, parts, todo = [], {}, []
    rows = text.split('\n')
    i = 0
    for block in text.split('\n\n'):
        rows = block.split('\n')
        for r in rows:
            if r.startswith('# global.Entity = '):
                fields = r[len('# global.Entity = '):].split('-')
        if not any(r and r[0] != '#' for r in rows):
            continue
        sent += 1
        order, at = [], []
        for r in rows:
            if not r or r[0] == '#':
                continue
            c = r.split('\t')
            if '-' in c[0]:
                continue
            recs = []
            at.append(recs)
            order.append(c[0])
            misc = dict(x.split('=', 1) for x in c[9].split('|') if '=' in x)
            here = len(order) - 1
            if 'Entity' in misc:
                assert ''.join(CHUNK.findall(misc['Entity'])) == misc['Entity'], misc['Entity']
            for chunk in CHUNK.findall(misc.get('Entity', '')):
                if chunk[0] == '(':
                    val = dict(zip(fields, chunk.strip('()').split('-')))
                    eid, part = val.get('eid') or val['GRP'], None
                    m = re.match(r'(.*)\[(\d+)/(\d+)\]$', eid)
                    if m:
                        eid, part = m.group(1), (int(m.group(2)), int(m.group(3)))
                    e = get(eid)
                    if val.get('etype'):
                        e['etype'] = val['etype']
                    rec = {'eid': eid, 'part': part, 'from': here, 'val': val, 'key': m.group(0) if m else eid}
                    recs.append(rec)
                    if chunk[-1] == ')':
                        todo.append((rec, here))
                    else:
                        opened.append(rec)
                else:
                    eid = chunk[:-1]
                    found = [x for x in opened if x['eid'] == eid or x['key'] == eid]
                    assert found, f'{chunk} closes nothing'
                    rec = found[-1]
                    recs.append(rec)
                    opened = [x for x in opened if x is not rec]
                    todo.append((rec, here))
            for kind, attr in (('bridging', 'Bridge'), ('split', 'SplitAnte')):
                for x in misc.get(attr, '').split(','):
                    if x:
                        trg, src = x.split('<')
                        src, _, rel = src.partition(':')
                        if kind == 'split':
                            get(src)['split'].append(trg)
                        else:
                            get(src)['bridging'].setdefault(f'{sent}:{c[0]}', []).append([trg, rel])
        assert not opened, 'brackets are left open'
        for rec, end in todo:
            rec['to'] = end
        for here, recs in enumerate(at):
            canonical(here, recs)
        done = []
        for rec, end in sorted(todo, key=lambda x: (x[0]['from'], -x[1])):
            words = list(range(rec['from'], end + 1))
            if rec['part'] is None or rec['part'][0] == 1:
                done.append({'eid': rec['eid'], 'words': words, 'val': rec['val'], 'n': rec['part'][1] if rec['part'] else 1, 'i': 1})
            else:
                if rec['part'][1] > 1:
                    first = [x for x in done if x['eid'] == rec['eid'] and x['n'] == rec['part'][1] and x['i'] == rec['part'][0] - 1]
                    assert not first or {k: v for k, v in first[-1]['val'].items() if k not in ('eid', 'GRP')} == {k: v for k, v in rec['val'].items() if k not in ('eid', 'GRP')}, \
                        'parts with different attributes'
                fit = [x for x in done if x['eid'] == rec['eid'] and x['n'] == rec['part'][1] and x['i'] == rec['part'][0] - 1]
                assert fit, f"part {rec['key']} without the part before"
                fit[-1]['words'] += words
                fit[-1]['i'] += 1
        for x in done:
            assert x['i'] == x['n'], 'parts are missing'
            where = ','.join(f'{sent}:{order[j]}' for j in x['words'])
            val = x['val']
            other = {}
            for f, v in val.items():
                if f == 'other':
                    other.update(y.split(':', 1) for y in v.split(',') if y)
                elif f not in ('eid', 'GRP', 'etype', 'head') and v:
                    other[f] = v
            assert where not in get(x['eid'])['mentions'], 'twice ' + where
            get(x['eid'])['mentions'][where] = [f"{sent}:{order[x['words'][int(val['head']) - 1]]}" if val.get('head') else None, other]
        todo = []
    for e in out.values():
        e['bridging'] = {k: sorted(v) for k, v in sorted(e['bridging'].items())}
    return out


def canonical(here, recs):
    """Rules of the documentation: closing brackets precede opening ones, longer spans are opened first and closed last,
    spans of one word follow all opening brackets and, if there is none, precede all closing ones."""
    single = lambda x: x['from'] == x['to'] == here
    kinds = ['s' if single(x) else 'o' if x['from'] == here else 'c' for x in recs]
    want = [k for k in kinds if k == 'c'] + [k for k in kinds if k == 'o'] + [k for k in kinds if k == 's']
    if 'o' not in kinds:
        want = [k for k in kinds if k == 's'] + [k for k in kinds if k == 'c']
    assert kinds == want, f'brackets {"".join(kinds)} of word {here + 1} are not in the documented order'
    length = lambda x: x['to'] - x['from']
    opens = [length(x) for x, k in zip(recs, kinds) if k == 'o']
    assert opens == sorted(opens, reverse=True), f'brackets opened at word {here + 1}: shorter first'
    closes = [length(x) for x, k in zip(recs, kinds) if k == 'c']
    assert closes == sorted(closes), f'brackets closed at word {here + 1}: longer first'


def unescape(data, header=None):
    """Commas are escaped within `other` only."""
    plain = [f for f in (header or '').split('-') if f not in ('eid', 'GRP', 'etype', 'head', 'other', 'identity')]
    out = {}
    for eid, e in data.items():
        out[eid] = dict(e, mentions={w: [h, {k: v.replace('%2C', ',') if k in plain else v for k, v in o.items()}] for w, (h, o) in e['mentions'].items()})
    return out


def sorted_bridges(text):
    """Links of several mentions of one entity with the same first word are one list, the order of which is not specified."""
    return re.sub(r'\bBridge=([^|\n]*)', lambda m: 'Bridge=' + ','.join(sorted(m.group(1).split(','))), text)


def sorted_misc(text):
    """The order within MISC is that of the last text assigned as long as nothing was changed there, alphabetical afterwards."""
    rows = [x.split('\t') for x in text.split('\n')]
    return '\n'.join('\t'.join(r[:-1] + ['|'.join(sorted(r[-1].split('|')))]) if len(r) > 1 else r[0] for r in rows)


def tdiff(a, b):
    a, b = a.split('\n'), b.split('\n')
    for x, y in zip(a, b):
        if x != y:
            return f'{x!r} -> {y!r}'
    return f'{len(a)} -> {len(b)} lines'


def shape(data):
    spans = sorted((tuple(w.split(',')), v[0]) for e in data.values() for w, v in e['mentions'].items())
    return spans


def probes(sim, doc):
    for e in doc.coref_entities:
        ms = list(e.mentions)
        if e.split_ante:
            sim.probe('split-ante')
        for m in ms:
            if ',' in m.span:
                sim.probe('discontinuous')
            if any(x.is_empty() for x in m.words):
                sim.probe('empty-node-in-mention')
            if len(m.bridging):
                sim.probe('bridge')
            if any(x is not m and {id(w) for w in x.words} < {id(w) for w in m.words} for x in ms):
                sim.probe('nested-same-entity')
    seen = {}
    for m in doc.coref_mentions:
        f = id(m.words[0])
        if f in seen:
            sim.probe('shared-first-word')
        seen[f] = 1
    allm = [set(map(id, m.words)) for m in doc.coref_mentions]
    if any(a & b and a - b and b - a for i, a in enumerate(allm) for b in allm[:i]):
        sim.probe('crossing')


def store(w, d, how, last, sim):
    doc = w.docs[d]
    before = [view.coref_view(doc), sorted(doc.eid_to_entity), [[e.eid for e in n.coref_entities] for n in doc.nodes_and_empty]]
    want = storable(doc)
    text = w.text(d, how)
    after = [view.coref_view(doc), sorted(doc.eid_to_entity), [[e.eid for e in n.coref_entities] for n in doc.nodes_and_empty]]
    sim.check(before == after, 'storing-changes-nothing', lambda: f'storing changed the annotation in memory: {diff(before, after)}')
    try:
        got = read_entities(text)
    except (AssertionError, KeyError, ValueError, IndexError, TypeError) as e:
        raise core.Violation('stored-annotation', f'the stored annotation cannot be read: {e!r}')
    exp = unescape(want, doc.meta.get('global.Entity'))
    sim.check(got == exp, 'stored-annotation', lambda: f'stored annotation differs from the one in memory: {diff(exp, got)}')
    sim.state([last, shape(want)])
    if want:
        sim.nontrivial = True
        sim.probe('store')
    probes(sim, doc)
    return text, want


def load_and_compare(w, d, text, want, how, sim, what):
    loaded = w.load(text, how)
    got = storable(loaded)
    sim.check(got == want, 'loaded-annotation', lambda: f'{what}: loaded annotation differs: {diff(want, got)}')
    sim.check([len(e.mentions) for e in loaded.coref_entities if not e.mentions] == [], 'loaded-annotation', 'an entity without mentions was loaded')
    from dst.props import p20
    p20.consistent(sim, loaded, what)
    where = {id(n): i for i, n in enumerate(loaded.nodes_and_empty)}
    first = [min(where[id(x)] for m in e.mentions for x in m.words) for e in loaded.coref_entities]
    sim.check(first == sorted(first), 'loaded-annotation', lambda: f'{what}: entities are not loaded in the order of their first mentions: {[e.eid for e in loaded.coref_entities]}')
    again = loaded.to_conllu_string()
    again, text = sorted_bridges(again), sorted_bridges(text)
    sim.check(again == text, 'stored-again', lambda: f'{what}: storing the loaded document gives another text: {tdiff(text, again)}')
    return loaded


def history(plan, sim, tmp, storing):
    w = CorefWorld(sim, plan['docs'], plan['header'], tmp)
    w.counter += 5000
    last = 'load'
    if w.header != HEADERS[0] and storing:
        sim.probe('other-header')
    for op in plan['ops']:
        if op[0] in ('store', 'reload'):
            d = op[1] % len(w.docs)
            if op[0] == 'store' and not storing:
                continue
            text, want = store(w, d, op[2], last, sim)
            if op[0] == 'reload':
                w.replace(d, load_and_compare(w, d, text, want, op[2], sim, 'reload'))
                sim.probe('reload')
                sim.fault('document replaced by its stored copy')
            else:
                sim.fault('stored in the middle of editing')
            sim.log(op, text)
        else:
            w.apply(op)
        last = op[0]
    return w, [store(w, d, 0, last, sim) for d in range(len(w.docs))]


def execute(plan, sim):
    if not plan['docs']:
        return
    tmp = tempfile.mkdtemp(prefix='dst16.')
    try:
        run(plan, sim, tmp)
    finally:
        shutil.rmtree(tmp)


def run(plan, sim, tmp):
    w, final = history(plan, sim, tmp, True)
    for d, (text, want) in enumerate(final):
        load_and_compare(w, d, text, want, d, sim, 'at the end')
    sim.log(final)
    w2, final2 = history(plan, sim, tmp, False)
    for (t1, _), (t2, _) in zip(final, final2):
        t1, t2 = sorted_misc(t1), sorted_misc(t2)
        sim.check(t1 == t2, 'intermediate-stores', lambda: f'the final text depends on intermediate stores: {tdiff(t2, t1)}')
    if plan['grp'] and w.header and 'eid' in w.header.split('-') and all(t[1] and '# global.Entity = ' + w.header + '\n' in t[0] for t in final) \
            and all(not t.newdoc for d in w.docs for t in list(d.trees)[1:]):
        sim.probe('GRP')
        head = '# global.Entity = ' + w.header
        texts = [t.replace(head, head.replace('eid', 'GRP')) for t, _ in final]
        if len(texts) > 1:
            sim.probe('several-documents')
        texts[1:] = [t.replace('# sent_id = s', '# sent_id = t') for t in texts[1:]]
        texts = [re.sub('^# newdoc\n', lambda m: f'# newdoc id = d{i}\n' if i + plan['grp'] & 1 else m.group(0), t, count=1, flags=re.M) for i, t in enumerate(texts)]
        if plan['grp'] > 1:
            final = final + final[:1]
            texts.append(texts[0].replace('# sent_id = s', '# sent_id = u'))
        both = ''.join(texts)
        doc = w.load(both, 0)
        ents = [e for _, want in final for e in want]
        sim.check(len(doc.coref_entities) == len(ents) and sum(len(e.mentions) for e in doc.coref_entities) == sum(len(e['mentions']) for _, x in final for e in x.values()),
                  'GRP', lambda: f'{len(doc.coref_entities)} entities loaded with document-level ids, expected {len(ents)}')
        again = doc.to_conllu_string()
        parts = again.split('# newdoc')[1:]
        sim.check(len(parts) == len(texts), 'GRP', 'document marks are lost')
        for part, (_, want) in zip(parts, final):
            got = read_entities(head.replace('eid', 'GRP') + part)
            exp = unescape(want, w.header)
            sim.check(got == exp, 'GRP', lambda: f'document-level ids do not survive: {diff(exp, got)}')
        third = w.load(again, 1).to_conllu_string()
        third, again = sorted_bridges(third), sorted_bridges(again)
        sim.check(third == again, 'GRP', lambda: f'stored again with document-level ids: {tdiff(again, third)}')
