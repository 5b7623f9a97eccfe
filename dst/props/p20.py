"""P20: blocks which edit coreference do what they are for, lose nothing else and leave annotation that is consistent and can be stored."""
import contextlib
import io
import logging
import re

from dst import core, docworld, world
from dst.props import p15, p16
from dst.props.p03 import diff

RUNS = {'quick': 3500, 'thorough': 90000}
LISTS = ('ops', 'docs')
STATE_RULE = 'one state = (kind of the operation, relation of the spans of all mentions in their trees afterwards), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.coref', 'udapi.core.document', 'corefud.RemoveNoCorefEntities', 'corefud.Delete', 'corefud.MergeSameSpan', 'corefud.FixInterleaved',
                       'corefud.FixParentheses', 'corefud.IndexClusters', 'corefud.GuessSpan', 'corefud.MoveHead', 'corefud.FixEntityAcrossNewdoc', 'corefud.Link2Cluster',
                       'corefud.FixCorefUD02', 'corefud.MarkPairs and the other marking blocks', 'write.Conllu', 'read.Conllu'], 'stub': []}
ASSUMPTIONS = ['words of mentions are not reordered (words may be removed and added)', 'with two mentions to be merged the statement does not say which one stays',
               'a document is only stored if the format can hold its mentions (no crossing or same-span mentions of one entity)']
PROBES = ('removed-word', 'removed-head', 'mention-vanished', 'same-span', 'interleaved', 'merged-into-third', 'parenthesis', 'nocoref-link', 'stored', 'reload', 'links', 'link-cycle',
          'several-newdocs', 'delete-empty-only', 'empty-head', 'marked-pair', 'ids-across-documents',
          'empty-guessed', 'head-of-nontreelet', 'head-of-gappy-treelet')
KINDS = {'entity': 1.5, 'mention': 6, 'words': 1.5, 'head': 0.7, 'moveto': 0.7, 'bridge': 1.2, 'split': 0.8, 'other': 0.5, 'rmmention': 0.5, 'child': 0.4, 'empty': 1.2,
         'parent': 0.6, 'remove': 0.8, 'rmempty': 0.5, 'dup': 1, 'paren': 1.5, 'newdoc': 0.5, 'nocoref': 0.8, 'same': 1.2, 'inter': 2, 'fixparen': 1, 'index': 0.6, 'guess': 0.6,
         'movehead': 0.9, 'delete': 0.5, 'acrossnewdoc': 0.5, 'links': 0.7, 'marks': 1, 'cfu02': 0.4, 'store': 0.8, 'reload': 0.5}


def gen(rng):
    docs = world.gen_world(rng, docs=(1, 2), trees=(1, 3), sizes=(1, 8), empties=0.5, mwts=0.2)
    r = lambda n=1 << 16: rng.randrange(n)
    w = {k: v for k, v in KINDS.items() if k in ('entity', 'mention') or rng.random() < 0.85}
    names = list(w)
    ops = [['entity', r(), r(), r(), r(), r()] for _ in range(rng.randint(1, 4))]
    ops += [['mention', r(), r(), r(), r(), r()] for _ in range(rng.randint(1, 6))]
    ops += [[rng.choices(names, list(w.values()))[0], r(), r(), r(), r(), r()] for _ in range(rng.randint(3, 22))]
    return {'docs': docs, 'ops': ops}


class Snap:
    """The annotation of one document and, apart from it, everything else in it."""

    def __init__(self, w, doc):
        self.doc = doc
        self.ents = {id(e): {'obj': e, 'eid': e.eid, 'etype': e.etype, 'split': [id(x) for x in e.split_ante], 'ms': [id(m) for m in e.mentions]} for e in doc.coref_entities}
        self.ms = {}
        for e in doc.coref_entities:
            for m in e.mentions:
                self.ms[id(m)] = {'obj': m, 'ent': id(e), 'words': frozenset(id(x) for x in m.words), 'head': id(m.head), 'other': dict(m.other),
                                  'links': [(id(bl.target), bl.relation) for bl in m.bridging]}
        self.rest = [w.tree_view(t) for t in doc.trees]
        self.nodes = {id(n): n for t in doc.trees for n in t.descendants_and_empty}
        self.tree_of = {id(n): id(t) for t in doc.trees for n in t.descendants_and_empty}
        self.pos = {i: k for k, i in enumerate(self.nodes)}
        self.kept = dict(w.names)

    def runs(self, words):
        """The maximal continuous parts of a set of words."""
        out, last = [], None
        for p, i in sorted((self.pos[i], i) for i in words):
            if last is not None and p == last + 1:
                out[-1].append(i)
            else:
                out.append([i])
            last = p
        return {tuple(x) for x in out}

    def eids(self):
        return sorted(e['eid'] for e in self.ents.values())

    def span(self, mid):
        return sorted(self.pos[i] for i in self.ms[mid]['words'])

    def by_tree(self):
        out = {}
        for i, m in self.ms.items():
            out.setdefault(self.tree_of[next(iter(m['words']))], []).append(i)
        return out


def consistent(sim, doc, what):
    """Entities, mentions and words of a document refer to each other consistently."""
    chk = sim.check
    say = lambda msg: f'after {what}: {msg}'
    nodes = [n for t in doc.trees for n in t.descendants_and_empty]
    pos = {id(n): i for i, n in enumerate(nodes)}
    tree_of = {id(n): n.root for n in nodes}
    for t in doc.trees:
        chk([str(n.ord) for n in t.descendants_and_empty] == [str(n.ord) for n in sorted(t.descendants_and_empty)], 'order', lambda: say('order of nodes'))
    found = doc.eid_to_entity
    chk(all(k == e.eid for k, e in found.items()), 'found-by-name', lambda: say(f'entities {[(k, e.eid) for k, e in found.items()]}'))
    chk(len(doc.coref_entities) == len(found) and {id(e) for e in doc.coref_entities} == {id(e) for e in found.values()}, 'entities', lambda: say('coref_entities'))
    want = {}
    for e in found.values():
        chk(len({id(m) for m in e.mentions}) == len(e.mentions), 'mentions-of-entity', lambda: say(f'{e.eid} lists a mention twice'))
        keys = []
        for m in e.mentions:
            words = list(m.words)
            where = [pos.get(id(x)) for x in words]
            chk(m.entity is e, 'entity-of-mention', lambda: say(f'a mention of {e.eid} claims {m.entity.eid}'))
            chk(bool(words), 'words', lambda: say(f'a mention of {e.eid} has no words'))
            chk(None not in where, 'words', lambda: say(f'a mention of {e.eid} has words {[x.form for x in words]}, which are not all in the document'))
            chk(where == sorted(set(where)), 'words-in-order', lambda: say(f'words of a mention of {e.eid}: {[x.address() for x in words]}'))
            chk(len({id(tree_of[id(x)]) for x in words}) == 1, 'words', lambda: say(f'a mention of {e.eid} spans several trees'))
            chk(any(m.head is x for x in words), 'head', lambda: say(f'head {m.head.form} of a mention of {e.eid} is not one of its words {[x.form for x in words]}'))
            chk(p15.parse_span(m.span, list(words[0].root.descendants_and_empty)) == {id(x) for x in words}, 'span', lambda: say(f'span {m.span} of {[x.address() for x in words]}'))
            keys.append((where[0], -len(where), where[-1]))
            for x in words:
                want.setdefault(id(x), []).append((id(m), keys[-1]))
            chk(m.bridging.src_mention is m, 'bridging', lambda: say('source of bridging'))
        chk(keys == sorted(keys), 'mentions-in-order', lambda: say(f'mentions of {e.eid} are listed as {[x.span for x in e.mentions]}'))
    for n in nodes:
        got = [id(m) for m in n.coref_mentions]
        w = dict(want.get(id(n), []))
        chk(sorted(got) == sorted(w), 'mentions-of-word',
            lambda: say(f'{n.address()} {n.form} knows mentions {[(m.entity.eid, m.span) for m in n.coref_mentions]}, it is a word of {len(w)} mentions'))
        keys = [w[i] for i in got]
        chk(keys == sorted(keys), 'mentions-in-order', lambda: say(f'mentions of {n.address()}: {[(x.entity.eid, x.span) for x in n.coref_mentions]}'))
    allm = [id(m) for m in doc.coref_mentions]
    chk(sorted(allm) == sorted(id(m) for e in found.values() for m in e.mentions), 'all-mentions', lambda: say('coref_mentions'))


class CorefBlocks(docworld.DocWorld):
    def __init__(self, sim, texts):
        super().__init__(sim, texts)
        self.counter += 5000

    def entity(self, d, k):
        e = sorted(self.doc(d).coref_entities, key=lambda x: x.eid)
        return e[k % len(e)] if e else None

    def mention(self, d, k):
        m = [x for e in sorted(self.doc(d).coref_entities, key=lambda x: x.eid) for x in e.mentions]
        return m[k % len(m)] if m else None

    def tree_view(self, tree):
        rows = []
        for n in tree.descendants_and_empty:
            misc = sorted((k, str(v)) for k, v in n.misc.items() if k not in ('Entity', 'Bridge', 'SplitAnte', 'Mark', 'Bug'))
            rows.append([self.name(n), n.form, n.lemma, n.upos, n.xpos, str(n.feats), n.deprel, str(n.ord), None if n.is_empty() else self.name(n.parent),
                         sorted([self.name(x['parent']), x['deprel']] for x in n.deps), misc])
        return [tree.sent_id, tree.text, tree.newpar, tree.comment, [[t.form, [self.name(x) for x in t.words]] for t in tree.multiword_tokens], rows]

    def consistent(self, doc, what):
        consistent(self.sim, doc, what)

    def storable(self, doc):
        for e in doc.coref_entities:
            for m in e.mentions:
                if not self.span_free(e, list(m.words), m):
                    return False
        return True

    # --- edits -------------------------------------------------------------------------------------------
    def block(self, name, *docs, **kw):
        from udapi.core.run import create_block
        level = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        try:
            b = create_block('corefud.' + name, **kw)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                b.process_start()
                for doc in docs:
                    b.apply_on_document(doc)
                b.process_end()
        finally:
            logging.disable(level)
        return b, out.getvalue()

    def same(self, a, b, what, ents=None, ms=None, but=(), rest=True):
        """Everything as it was: of the entities `ents` and the mentions `ms` (all if not given), except for the attributes `but`."""
        chk = self.sim.check
        say = lambda msg: f'{what}: {msg}'
        if ents is not None:
            chk(set(b.ents) == set(ents), 'entities', lambda: say(f'entities {b.eids()}, expected {sorted(a.ents[i]["eid"] for i in ents)}'))
        if ms is not None:
            chk(set(b.ms) == set(ms), 'mentions', lambda: say(f'{len(set(ms) - set(b.ms))} mentions were lost ({[a.ms[i]["obj"].entity.eid for i in set(ms) - set(b.ms)]}), '
                                                              f'{len(set(b.ms) - set(ms))} should not be there'))
        for i in b.ents:
            if i in a.ents and 'entity' not in but:
                for k in ('eid', 'etype', 'split'):
                    if k not in but:
                        chk(a.ents[i][k] == b.ents[i][k], k, lambda: say(f'{k} of {a.ents[i]["eid"]} has changed from {a.ents[i][k]} to {b.ents[i][k]}'))
        for i in b.ms:
            if i in a.ms:
                for k in ('ent', 'words', 'head', 'other', 'links'):
                    if k not in but:
                        nm = lambda v: [self.names[x] for x in sorted(v)] if k == 'words' else v
                        chk(a.ms[i][k] == b.ms[i][k], k, lambda: say(f'{k} of a mention of {a.ents[a.ms[i]["ent"]]["eid"]} has changed from {nm(a.ms[i][k])} to {nm(b.ms[i][k])}'))
        if rest:
            chk(a.rest == b.rest, 'rest', lambda: say(f'something else has changed: {diff(a.rest, b.rest)}'))

    def op(self, o, sim):
        kind, a, b, c, e_, f = o
        d = a % len(self.docs)
        doc = self.docs[d]
        trees = list(doc.trees)
        if not trees:
            return None
        tree = trees[c % len(trees)]
        ti = next(i for i, t in enumerate(self.trees) if t is tree)
        before = Snap(self, doc)
        ent, men = self.entity(d, b), self.mention(d, b)
        if kind == 'entity':
            if len(before.ents) > 7:
                return None
            self.counter += 1
            doc.create_coref_entity([None, f'n{self.counter}', f'NOCOREF{self.counter}', f'xNOCOREF{self.counter}', f'NOCOREFperson{self.counter}'][b % 5], ['person', None, 'spec', 'gen.loc', 'date'][c % 5])
        elif kind == 'mention':
            if ent is None:
                return None
            nodes = list(tree.descendants_and_empty)
            if not nodes:
                return None
            at = e_ % len(nodes)
            words = nodes[at:at + 1 + [0, 1, 1, 2, 3, 4, 6][f % 7]]
            if f % 3 == 0 and len(words) > 2:
                del words[1 + f % (len(words) - 2)]
            if not self.span_free(ent, words) and (c >> 4) % 3:
                return None
            ent.create_mention(head=words[(c >> 6) % len(words)], words=words)
        elif kind == 'dup':
            if ent is None or men is None:
                return None
            ent = self.entity(d, c)
            words = list(men.words)
            ent.create_mention(head=words[e_ % len(words)], words=words)
            sim.probe('same-span')
        elif kind == 'words':
            if men is None:
                return None
            nodes = list(men.head.root.descendants_and_empty)
            at = next(i for i, n in enumerate(nodes) if n is men.head)
            men.words = nodes[max(0, at - c % 4):at + 1 + e_ % 4]
        elif kind == 'rmmention':
            if men is None:
                return None
            men.remove()
        elif kind in ('head', 'moveto', 'bridge', 'split', 'other'):
            args = {'head': (d, b, c), 'moveto': (d, b, c), 'bridge': (d, b, c, e_), 'split': (d, b, c, e_), 'other': (d, b, c, e_)}[kind]
            if getattr(self, 'op_' + kind)(*args) == 'skip':
                return None
        elif kind in ('child', 'empty', 'parent'):
            if len(before.nodes) > 40:
                return None
            if kind == 'parent':
                n, p = self.pick_word(ti, b), self.pick_word(ti, e_, root=True)
                if n is None or n is p or p.is_descendant_of(n):
                    return None
                n.parent = p
            elif getattr(self, 'op_' + kind)(*((ti, b, e_) if kind == 'child' else (ti, b, e_ % 2, f % 2))) == 'skip':
                return None
        elif kind == 'paren':
            n = self.pick_word(ti, b)
            if n is None:
                return None
            n.lemma = '()[]{}'[e_ % 6]
            if men is not None and f % 5 == 4:
                ws = list(men.words)
                seq = list(ws[0].root.descendants)
                x = f // 5
                for n in ws + seq[int(ws[0].ord) - 2:int(ws[0].ord) - 1] + seq[int(ws[-1].ord):int(ws[-1].ord) + 1]:
                    if x % 2:
                        n.lemma = '()[]{}'[(e_ % 3 * 2 + x // 2) % 6]
                    x //= 3
            elif men is not None and f % 5 == 3 and len(men.words) > 1:     # brackets in balance, next to more of them
                o, z = '([{'[e_ % 3], ')]}'[e_ % 3]
                ws = list(men.words)
                seq = list(ws[0].root.descendants)
                ws[f // 5 % 2].lemma, ws[1 - f // 5 % 2].lemma = o, z
                for n in seq[int(ws[0].ord) - 2:int(ws[0].ord) - 1]:
                    n.lemma = o
                for n in seq[int(ws[-1].ord):int(ws[-1].ord) + 1]:
                    n.lemma = z
            elif men is not None and f % 3:
                o, z = '([{'[e_ % 3], ')]}'[e_ % 3]
                ws = list(men.words)
                seq = list(ws[0].root.descendants)
                if f % 3 == 1 and not ws[-1].is_empty() and ws[-1].ord < len(seq):
                    ws[f // 3 % len(ws)].lemma, seq[ws[-1].ord].lemma = o, z
                elif f % 3 == 2 and not ws[0].is_empty() and ws[0].ord > 1:
                    ws[f // 3 % len(ws)].lemma, seq[ws[0].ord - 2].lemma = z, o
        elif kind == 'newdoc':
            if f % 3:
                tree.newdoc = [True, 'name', None][e_ % 3]
            else:
                trees[-1].newdoc = True
        elif kind in ('remove', 'rmempty'):
            return self.removal(kind, d, ti, b, e_, f)
        else:
            res = getattr(self, 'do_' + kind)(doc, d, before, b, c, e_, f)
            if res is None:
                return None
        self.consistent(self.docs[d], kind)
        return kind

    def removal(self, kind, d, ti, k, mode, f):
        doc, tree, sim = self.docs[d], self.trees[ti], self.sim
        a = Snap(self, doc)
        if kind == 'rmempty':
            es = list(tree.empty_nodes)
            if not es:
                return None
            n = es[k % len(es)]
            n.remove()
        else:
            words = list(tree.descendants)
            if not words or (len(words) == 1 and mode % 3):
                return None
            n = words[k % len(words)]
            how = [None, 'rehang', None, 'rehang_warn'][mode % 4]
            level = logging.root.manager.disable
            logging.disable(logging.CRITICAL)
            try:
                n.remove(children=how) if how else n.remove()
            finally:
                logging.disable(level)
        b = Snap(self, doc)
        self.consistent(doc, 'removing nodes')
        gone = set(a.nodes) - set(b.nodes)
        sim.check(id(n) in gone, 'removed', 'the node is still there')
        self.shrunk(a, b, gone, 'removing nodes')
        return kind

    def shrunk(self, a, b, gone, what):
        sim = self.sim
        left = {i for i, m in a.ms.items() if m['words'] - gone}
        self.same(a, b, what, ents=set(a.ents), ms=left, but=('words', 'head'), rest=False)
        if len(left) < len(a.ms):
            sim.probe('mention-vanished')
        for i in left:
            old, new = a.ms[i], b.ms[i]
            sim.check(new['words'] == old['words'] - gone, 'words', lambda: f'{what}: words of a mention are {[self.names[x] for x in new["words"]]}, expected {[self.names[x] for x in old["words"] - gone]}')
            if old['head'] in gone:
                sim.probe('removed-head')
            else:
                sim.check(new['head'] == old['head'], 'head', f'{what}: the head has changed')
            if old['words'] & gone:
                sim.probe('removed-word')

    # --- blocks ------------------------------------------------------------------------------------------
    def do_nocoref(self, doc, d, a, b, c, e_, f):
        drop = {i for i, e in a.ents.items() if e['eid'].startswith('NOCOREF')}
        if any(t in drop for m in a.ms.values() if m['ent'] not in drop for t, _ in m['links']):
            self.sim.probe('nocoref-link')
        self.block('RemoveNoCorefEntities', doc)
        self.same(a, Snap(self, doc), 'RemoveNoCorefEntities', ents=set(a.ents) - drop, ms={i for i, m in a.ms.items() if m['ent'] not in drop}, but=('links', 'split'))
        # links to the removed entities must not be found any more
        for e in doc.coref_entities:
            for m in e.mentions:
                old = [(t, r) for t, r in a.ms[id(m)]['links'] if t not in drop]
                got = [(id(x.target), x.relation) for x in m.bridging if id(x.target) not in drop]
                self.sim.check(old == got, 'links', 'RemoveNoCorefEntities: bridging')
        return True

    def do_same(self, doc, d, a, b, c, e_, f):
        kw = {'same_entity_only': 1} if b % 2 else {}
        self.block('MergeSameSpan', doc, **kw)
        s = Snap(self, doc)
        groups = {}
        for i, m in a.ms.items():
            groups.setdefault((m['words'], m['ent'] if kw else 0), []).append(i)
        kept = set()
        for g in groups.values():
            here = [i for i in g if i in s.ms]
            self.sim.check(len(here) == 1, 'merged', lambda: f'MergeSameSpan {kw}: of {len(g)} mentions with the same words ({[self.names[x] for x in a.ms[g[0]]["words"]]}) {len(here)} are left')
            kept.update(here)
        self.same(a, s, 'MergeSameSpan', ents=set(a.ents), ms=kept)
        return True

    def do_inter(self, doc, d, a, b, c, e_, f):
        kw = {}
        if b % 3 == 1:
            kw['same_entity_only'] = 0
        if c % 4 == 1:
            kw['both_discontinuous'] = 1
        if e_ % 4 == 1:
            kw['crossing_only'] = 1
        if f % 4 == 1:
            kw['nested_same_subspan'] = 0

        def touch(x, y):
            if kw.get('same_entity_only', 1) and a.ms[x]['ent'] != a.ms[y]['ent']:
                return False
            return overlap(a.ms[x]['words'], a.ms[y]['words'])

        def overlap(wx, wy):
            if wx <= wy or wy <= wx:
                if kw.get('nested_same_subspan', 1) == 0 or not a.runs(wx) & a.runs(wy):
                    return False
            elif kw.get('crossing_only'):
                if not wx & wy:
                    return False
            else:
                px, py = [sorted(a.pos[i] for i in z) for z in (wx, wy)]
                if px[-1] < py[0] or py[-1] < px[0]:
                    return False
            return not kw.get('both_discontinuous') or (len(a.runs(wx)) > 1 and len(a.runs(wy)) > 1)

        self.block('FixInterleaved', doc, **kw)
        s = Snap(self, doc)
        what = f'FixInterleaved {kw}'
        self.same(a, s, what, ents=set(a.ents), but=('words',))
        for t, ms in a.by_tree().items():
            pairs = [(x, y) for i, x in enumerate(ms) for y in ms[:i] if touch(x, y)]
            if pairs:
                self.sim.probe('interleaved')
            free = [x for x in ms if not any(x in p for p in pairs)]
            if not pairs:
                self.sim.check(all(x in s.ms and s.ms[x]['words'] == a.ms[x]['words'] for x in ms), 'untouched', lambda: f'{what}: mentions changed although none overlaps')
            covered = set().union(*(a.ms[x]['words'] for x in ms))
            now = set().union(*(s.ms[x]['words'] for x in ms if x in s.ms))
            self.sim.check(covered == now, 'covered-words', lambda: f'{what}: words {[self.names[i] for i in covered ^ now]} are not covered as before')
            for e in {a.ms[x]['ent'] for x in ms}:
                old = set().union(*(a.ms[x]['words'] for x in ms if a.ms[x]['ent'] == e))
                new = set().union(*(s.ms[x]['words'] for x in ms if x in s.ms and a.ms[x]['ent'] == e))
                if kw.get('same_entity_only', 1):
                    self.sim.check(new <= old, 'covered-words', lambda: f'{what}: {a.ents[e]["eid"]} covers other words than before')
            for x in ms:
                if x in s.ms:
                    self.sim.check(s.ms[x]['words'] >= a.ms[x]['words'], 'words', f'{what}: a mention lost words')
            if len(pairs) == 1:
                x, y = pairs[0]
                both = a.ms[x]['words'] | a.ms[y]['words']
                third = [z for z in ms if z not in (x, y) and a.ms[z]['words'] == both]
                more = [z for z in ms if z not in (x, y) and z not in third and any(overlap(both, a.ms[z]['words']) and
                        (not kw.get('same_entity_only', 1) or a.ms[z]['ent'] == a.ms[q]['ent']) for q in (x, y))]
                if more or any(overlap(both, a.ms[z]['words']) and not kw.get('same_entity_only', 1) for z in third):
                    continue
                here = [z for z in (x, y) if z in s.ms]
                if third:
                    self.sim.probe('merged-into-third')
                    self.sim.check(not here, 'merged', lambda: f'{what}: a third mention has the words of the two merged ones, yet {len(here)} of them are left')
                else:
                    self.sim.check(len(here) == 1 and s.ms[here[0]]['words'] == both, 'merged', lambda: f'{what}: of two mentions to be merged {len(here)} are left')
                self.sim.check(all(z in s.ms and s.ms[z]['words'] == a.ms[z]['words'] for z in free), 'untouched', lambda: f'{what}: other mentions were changed')
        return True

    def do_fixparen(self, doc, d, a, b, c, e_, f):
        kw = {'mark': 0} if b % 3 == 0 else {}
        want = {}
        for i, m in a.ms.items():
            words = sorted(m['words'], key=a.pos.get)
            lem = {a.nodes[x].lemma for x in words}
            tree = a.nodes[words[0]].root
            seq = list(tree.descendants)
            out = list(words)
            for o, z in ('()', '[]', '{}'):
                if o in lem and z not in lem:
                    last = a.nodes[out[-1]]
                    if not last.is_empty() and last.ord < len(seq) and seq[last.ord].lemma == z:
                        out.append(id(seq[last.ord]))
                elif z in lem and o not in lem:
                    first = a.nodes[out[0]]
                    if not first.is_empty() and first.ord > 1 and seq[first.ord - 2].lemma == o:
                        out.append(id(seq[first.ord - 2]))
                out.sort(key=a.pos.get)
            want[i] = frozenset(out)
            if len(out) > len(words):
                self.sim.probe('parenthesis')
        self.block('FixParentheses', doc, **kw)
        s = Snap(self, doc)
        self.same(a, s, 'FixParentheses', ents=set(a.ents), ms=set(a.ms), but=('words',))
        for i, ws in want.items():
            self.sim.check(s.ms[i]['words'] == ws, 'words', lambda: f'FixParentheses: words {[self.names[x] for x in s.ms[i]["words"]]}, expected {[self.names[x] for x in ws]}')
        return True

    def do_index(self, doc, d, a, b, c, e_, f):
        kw = {}
        if b % 2:
            kw['start'] = c % 5
        if e_ % 2:
            kw['prefix'] = ['x', 'n', 'e1'][f % 3]
        more = [doc] + [x for x in self.docs if x is not doc and (b >> 3) % 2]
        before = [a] + [Snap(self, x) for x in more[1:]]
        self.block('IndexClusters', *more, **kw)
        start = kw.get('start', 1)
        for x, old in zip(more, before):
            s = Snap(self, x)
            self.same(old, s, 'IndexClusters', ents=set(old.ents), ms=set(old.ms), but=('eid',))
            want = [kw.get('prefix', 'e') + str(start + i) for i in range(len(old.ents))]
            start += len(want)
            self.sim.check(s.eids() == sorted(want), 'names', lambda: f'IndexClusters {kw}: entities {s.eids()}, expected {want}')
            self.sim.check([s.ents[i]['eid'] for i in old.ents] == want, 'names', lambda: f'IndexClusters {kw}: ids are not given in the order of entities')
            self.consistent(x, 'IndexClusters')
        if len(more) > 1:
            self.sim.probe('ids-across-documents')
        return True

    def do_guess(self, doc, d, a, b, c, e_, f):
        if any(a.nodes[m['head']].is_empty() for m in a.ms.values()):
            self.sim.probe('empty-head')
        self.block('GuessSpan', doc)
        s = Snap(self, doc)
        self.same(a, s, 'GuessSpan', ents=set(a.ents), ms=set(a.ms), but=('words',))
        for i, m in s.ms.items():
            sub, todo = set(), [a.nodes[m['head']]]
            while todo:
                x = todo.pop()
                sub.add(id(x))
                todo += list(x.children)
            self.sim.check(sub <= m['words'] and all(a.nodes[x].is_empty() for x in m['words'] - sub), 'words', lambda: f'GuessSpan: words {[self.names[x] for x in m["words"]]}')
            # empty nodes within the span or on its boundary are added if an enhanced parent is in the mention
            seq = [id(x) for x in a.nodes[m['head']].root.descendants_and_empty]
            at = [seq.index(x) for x in sub]
            lo, hi = min(at), max(at)
            while lo > 0 and a.nodes[seq[lo - 1]].is_empty():
                lo -= 1
            while hi < len(seq) - 1 and a.nodes[seq[hi + 1]].is_empty():
                hi += 1
            inner = seq[lo:hi + 1]
            need = {x for x in inner if a.nodes[x].is_empty() and any(id(dep['parent']) in sub for dep in a.nodes[x].deps)}
            if need - sub:
                self.sim.probe('empty-guessed')
            extra = m['words'] - sub - need         # only those between two words of the mention
            for x in extra & set(inner):
                k = seq.index(x)
                around = [[y for y in part if not a.nodes[y].is_empty()][:1] for part in (seq[:k][::-1], seq[k + 1:])]
                self.sim.probe('empty-inside')
                self.sim.check(all(y and y[0] in sub for y in around), 'words', lambda: f'GuessSpan: empty node {self.names[x]} was added to the mention of {self.names[m["head"]]}, but it is not inside of it')
            self.sim.check(need <= m['words'] and m['words'] <= set(inner), 'words',
                           lambda: f'GuessSpan: words {[self.names[x] for x in m["words"]]} of head {self.names[m["head"]]} should include {[self.names[x] for x in need]}')
        return True

    def do_movehead(self, doc, d, a, b, c, e_, f):
        kw = {}
        if b % 3 == 0:
            kw['bugs'] = ['mark', 'warn,mark', ''][c % 3]
        if e_ % 3 == 0:
            kw['keep_head_if_possible'] = 0
        self.block('MoveHead', doc, **kw)
        s = Snap(self, doc)
        self.same(a, s, 'MoveHead', ents=set(a.ents), ms=set(a.ms), but=('head',))
        for i, m in s.ms.items():
            tops = [x for x in m['words'] if a.nodes[x].is_empty() or id(a.nodes[x].parent) not in m['words']]
            if len(tops) == 1:
                self.sim.check(m['head'] == tops[0], 'head', lambda: f'MoveHead {kw}: head of a treelet is {self.names[m["head"]]}, its highest node {self.names[tops[0]]}')
            elif len(m['words']) > 1 and not any(a.nodes[x].is_empty() or a.nodes[x].raw_deps != '_' for x in m['words']):
                up = {}
                for x in tops:
                    up[x], n = [], a.nodes[x]
                    while n is not None:
                        up[x].append(id(n))
                        n = n.parent
                common = [x for x in tops if all(x in p for p in up.values())]
                tops.sort(key=a.pos.get)
                exp = common[0] if common else a.ms[i]['head'] if kw.get('keep_head_if_possible', 1) and a.ms[i]['head'] in tops else tops[0]
                self.sim.probe('head-of-gappy-treelet' if common else 'head-of-nontreelet')
                self.sim.check(m['head'] == exp, 'head', lambda: f'MoveHead {kw}: head of a mention which is no treelet is {self.names[m["head"]]}, expected {self.names[exp]}')
        return True

    def do_delete(self, doc, d, a, b, c, e_, f):
        kw = {}
        if b % 2:
            kw['coref'] = 0
        if c % 3:
            kw['empty'] = 1
        if e_ % 4 == 0:
            kw['misc'] = 1
        if kw.get('coref', 1) == 0 and 'empty' not in kw:
            return None
        what = f'corefud.Delete {kw}'
        spaces = {i: n.no_space_after for i, n in a.nodes.items()}
        empties = {i for i, n in a.nodes.items() if n.is_empty()} if 'empty' in kw else set()
        if kw.get('coref', 1) == 0 and (f % 2 or 'misc' in kw) and self.storable(doc):
            # as it happens with udapy: coreference has not been loaded yet when the block comes
            self.reload(d, f)
            return self.do_delete_unloaded(doc, d, b, what, kw)
        self.block('Delete', doc, **kw)
        s = Snap(self, doc)
        self.after_delete(a, s, empties, spaces, kw, what)
        if kw.get('coref', 1):
            self.sim.check(not s.ents and not s.ms, 'deleted', lambda: f'{what}: entities {s.eids()} are left')
            text = doc.to_conllu_string()
            self.sim.check(not re.search(r'(Entity|Bridge|SplitAnte)=', re.sub(r'^# .*$', '', text, flags=re.M)), 'deleted', f'{what}: coreference attributes are left')
        else:
            self.shrunk(a, s, empties, what)
        return True

    def do_delete_unloaded(self, old, d, b, what, kw):
        doc = self.docs[d]
        if 'misc' in kw:
            del kw['misc']
        text = doc.to_conllu_string()
        want = p16.storable(doc)
        names = {}
        for t in doc.trees:
            for n in t.descendants_and_empty:
                names[p16.addr(n)] = None if n.is_empty() else p16.addr(n)
        doc = self.Document()
        doc.from_conllu_string(text)
        self.block('Delete', doc, **kw)
        self.replace(d, doc)
        got = p16.storable(doc)
        exp = {}
        for eid, e in want.items():
            ms = []
            for where, (head, other) in e['mentions'].items():
                words = [x for x in where.split(',') if names[x]]
                if words:
                    ms.append([','.join(words), head if names[head] else None, sorted(other.items())])
            if ms:
                exp[eid] = sorted(ms, key=str)
        seen = {}
        for eid, e in got.items():
            seen[eid] = sorted(([w_, h, sorted(o.items())] for w_, (h, o) in e['mentions'].items()), key=str)
        # an own head must be found for mentions whose head was deleted
        strip = lambda ms: sorted([x[0], x[2]] for x in ms)
        if all(len({x[0] for x in ms}) == len(ms) for ms in exp.values()):
            self.sim.check({k: strip(v) for k, v in exp.items()} == {k: strip(v) for k, v in seen.items()}, 'deleted-unloaded',
                           lambda: f'{what}: {diff({k: strip(v) for k, v in exp.items()}, {k: strip(v) for k, v in seen.items()})}')
        self.sim.probe('delete-empty-only')
        return True

    def after_delete(self, a, s, empties, spaces, kw, what):
        chk = self.sim.check
        chk(set(s.nodes) == set(a.nodes) - empties, 'nodes', lambda: f'{what}: nodes')
        for old, new in zip(a.rest, s.rest):
            chk(old[:5] == new[:5], 'rest', lambda: f'{what}: {diff(old[:5], new[:5])}')
            rows = {r[0]: r for r in new[5]}
            for r in old[5]:
                if r[0] not in rows:
                    continue
                n = rows[r[0]]
                chk(r[:7] == n[:7] and r[8] == n[8], 'rest', lambda: f'{what}: {diff(r, n)}')
                if 'empty' not in kw:
                    chk(r[7] == n[7] and r[9] == n[9], 'rest', lambda: f'{what}: {diff(r, n)}')
                else:
                    gone = {self.names[i] for i in empties}
                    chk(not any(p in gone or p.startswith('?') for p, _ in n[9]), 'deps', lambda: f'{what}: enhanced dependencies of {r[0]} on deleted nodes')
                    chk(all(x in n[9] for x in r[9] if x[0] not in gone), 'deps', lambda: f'{what}: enhanced dependencies {r[9]} of {r[0]} became {n[9]}')
                if 'misc' in kw:
                    chk([x[0] for x in n[10]] in ([], ['SpaceAfter']), 'misc', lambda: f'{what}: MISC {n[10]}')
                else:
                    chk([x for x in r[10] if x[0] != 'Functor'] == [x for x in n[10] if x[0] != 'Functor'], 'misc', lambda: f'{what}: MISC {r[10]} became {n[10]}')
        for i, n in s.nodes.items():
            chk(n.no_space_after == spaces[i], 'misc', lambda: f'{what}: SpaceAfter of {self.names[i]}')

    def do_acrossnewdoc(self, doc, d, a, b, c, e_, f):
        if not a.ms or not self.storable(doc) or not (doc.meta.get('global.Entity') or 'eid').startswith('eid'):
            return None
        part, k = {}, -1
        for i, t in enumerate(doc.trees):
            if t.newdoc or k < 0:
                k += 1
            part[id(t)] = k
        sec = lambda m: part[id(m.words[0].root)]
        want = {}
        for e in doc.coref_entities:
            for m in e.mentions:
                if any(sec(x) == sec(m) for bl in m.bridging for x in bl.target.mentions) != bool(m.bridging) or \
                   any(not any(sec(x) == sec(m) for x in bl.target.mentions) for bl in m.bridging if bl.target.mentions):
                    return None
                rec = want.setdefault((sec(m), e.eid), {'etype': e.etype or '', 'ms': {}, 'links': {}, 'split': []})
                where = ','.join(p16.addr(w) for w in m.words)
                rec['ms'][where] = [p16.addr(m.head), dict(m.other)]
                for bl in m.bridging:
                    if bl.target.mentions:
                        rec['links'].setdefault(p16.addr(m.words[0]), []).append([sec(m), bl.target.eid, bl.relation or ''])
            kept = [x for x in e.split_ante if x.mentions]
            if e.mentions and len(kept) > 1:
                if any(not any(sec(m) == sec(e.mentions[0]) for m in x.mentions) for x in kept):
                    return None
                want[(sec(e.mentions[0]), e.eid)]['split'] = [[sec(e.mentions[0]), x.eid] for x in kept]
        if k:
            self.sim.probe('several-newdocs')
        self.block('FixEntityAcrossNewdoc', doc)
        s = Snap(self, doc)
        self.sim.check(a.rest == s.rest, 'rest', lambda: f'FixEntityAcrossNewdoc: something else has changed: {diff(a.rest, s.rest)}')
        key, got = {}, {}
        for e in doc.coref_entities:
            self.sim.check(len({sec(m) for m in e.mentions}) == 1, 'across-newdoc', lambda: f'FixEntityAcrossNewdoc: {e.eid} occurs in several documents')
            m = re.match(r'd\d+\.(.*)$', e.eid)
            self.sim.check(bool(m), 'names', lambda: f'FixEntityAcrossNewdoc: {e.eid}')
            key[id(e)] = (sec(e.mentions[0]), m.group(1))
        for e in doc.coref_entities:
            rec = got.setdefault(key[id(e)], {'etype': e.etype or '', 'ms': {}, 'links': {}, 'split': [list(key[id(x)]) for x in e.split_ante]})
            for m in e.mentions:
                rec['ms'][','.join(p16.addr(w) for w in m.words)] = [p16.addr(m.head), dict(m.other)]
                for bl in m.bridging:
                    rec['links'].setdefault(p16.addr(m.words[0]), []).append(list(key[id(bl.target)]) + [bl.relation or ''])
        for r in list(want.values()) + list(got.values()):
            r['links'] = {k: sorted(v) for k, v in r['links'].items()}
            for v in r['ms'].values():
                v[1].pop('orig_etype', None)
        show = lambda x: {f'{k[0]}/{k[1]}': v for k, v in sorted(x.items())}
        self.sim.check(show(want) == show(got), 'across-newdoc', lambda: f'FixEntityAcrossNewdoc: {diff(show(want), show(got))}')
        return True

    def do_links(self, doc, d, a, b, c, e_, f):
        free = [n for n in a.nodes.values() if not n.coref_mentions]
        if len(free) < 2:
            return None
        ids = {}
        for j, n in enumerate(free[:9]):
            n.misc['proiel-id'] = f'i{j}'
            ids[f'i{j}'] = n
        links = []
        x = b * 65536 + c
        for j, n in enumerate(free[:9]):
            x, pick = divmod(x, 7)
            x, to = divmod(x + e_, 9)
            if pick < 4:
                n.misc['antecedent-proiel-id'] = f'i{to}'
                if f'i{to}' in ids and to != j:
                    links.append((j, to))
        if f % 3 == 0:
            free[0].misc['information-status'] = 'new'
        comp = {i: {i} for i in range(9)}
        for p, q in links:
            if comp[p] is comp[q]:
                self.sim.probe('link-cycle')
                continue
            comp[p] |= comp[q]
            for z in comp[p]:
                comp[z] = comp[p]
        groups = {frozenset(id(ids[f'i{z}']) for z in g) for g in comp.values() if len(g) > 1}
        if groups:
            self.sim.probe('links')
        self.block('Link2Cluster', doc, eid_counter=[0, 500 + self.counter][e_ % 2])
        self.counter += 9
        s = Snap(self, doc)
        new = set(s.ms) - set(a.ms)
        got = {}
        for i in new:
            self.sim.check(len(s.ms[i]['words']) == 1, 'words', 'Link2Cluster: words of a mention')
            got.setdefault(s.ms[i]['ent'], set()).update(s.ms[i]['words'])
        self.sim.check({frozenset(g) for g in got.values()} == groups and len(new) == sum(map(len, groups)), 'clusters',
                       lambda: f'Link2Cluster: links {links}: clusters {sorted(sorted(self.names[x] for x in g) for g in got.values())}, expected {sorted(sorted(self.names[x] for x in g) for g in groups)}')
        self.sim.check(set(a.ms) <= set(s.ms) and set(a.ents) <= set(s.ents), 'mentions', 'Link2Cluster: mentions were lost')
        self.same(a, s, 'Link2Cluster', rest=False)
        for n in doc.nodes_and_empty:
            self.sim.check(not n.misc['proiel-id'] and not n.misc['antecedent-proiel-id'], 'rest', 'Link2Cluster: attributes are left')
            del n.misc['information-status']
        s = Snap(self, doc)
        self.sim.check(a.rest == s.rest, 'rest', lambda: f'Link2Cluster: something else has changed: {diff(a.rest, s.rest)}')
        return True

    def do_cfu02(self, doc, d, a, b, c, e_, f):
        self.block('FixCorefUD02', doc)
        self.same(a, Snap(self, doc), 'FixCorefUD02', ents=set(a.ents), ms=set(a.ms), but=('etype', 'other', 'links'))
        return True

    def do_marks(self, doc, d, a, b, c, e_, f):
        names = ['same_entity', 'both_continuous', 'both_discontinuous', 'nested', 'crossing', 'interleaved', 'same_head', 'same_span', 'same_subspan']
        kw = {'log': 0}
        x = b * 65536 + c
        for n in names:
            x, p = divmod(x, 6)
            if p < 2:
                kw[n] = [-1, 1][p]
        if f % 2:
            other = ['MarkCrossing', 'MarkInterleaved', 'MarkNested', 'MarkSameSubSpan', 'PrintEntities', 'Stats', 'CountGaps'][f // 2 % 7]
            self.block(other, doc)
            self.same(a, Snap(self, doc), other, ents=set(a.ents), ms=set(a.ms))
        pairs, marked = 0, set()
        for t, ms in a.by_tree().items():
            for i, p in enumerate(ms):
                for q in ms[:i]:
                    m, n = a.ms[p], a.ms[q]
                    rp, rq = a.runs(m['words']), a.runs(n['words'])
                    sp, sq = a.span(p), a.span(q)
                    facts = {'same_entity': m['ent'] == n['ent'], 'both_continuous': len(rp) == len(rq) == 1, 'both_discontinuous': len(rp) > 1 and len(rq) > 1,
                             'nested': m['words'] <= n['words'] or n['words'] <= m['words'], 'crossing': bool(m['words'] & n['words']) and not (m['words'] <= n['words'] or n['words'] <= m['words']),
                             'interleaved': not m['words'] & n['words'] and sp[-1] > sq[0] and sq[-1] > sp[0], 'same_head': m['head'] == n['head'], 'same_span': m['words'] == n['words'],
                             'same_subspan': bool(rp & rq)}
                    if all(kw.get(k, 0) == 0 or (kw[k] == 1) == v for k, v in facts.items()):
                        pairs += 1
                        marked |= m['words'] | n['words']
                        self.sim.probe('marked-pair')
        for n in a.nodes.values():
            del n.misc['Mark']
        block, _ = self.block('MarkPairs', doc, **kw)
        self.same(a, Snap(self, doc), 'MarkPairs', ents=set(a.ents), ms=set(a.ms))
        got = {i for i, n in a.nodes.items() if n.misc['Mark'] != ''}
        self.sim.check(got == marked, 'marks', lambda: f'MarkPairs {kw}: marked {sorted(self.names[i] for i in got)}, expected {sorted(self.names[i] for i in marked)}')
        for n in a.nodes.values():
            del n.misc['Mark']
        return True

    # --- storing -----------------------------------------------------------------------------------------
    def replace(self, d, doc):
        old = {id(t) for t in self.docs[d].trees}
        self.docs[d] = doc
        self.trees = [t for t in self.trees if id(t) not in old] + list(doc.trees)
        self.models = [None] * len(self.trees)
        for t in doc.trees:
            for n in list(t.descendants) + list(t.empty_nodes):
                self.register(n)

    def reload(self, d, how):
        text = self.docs[d].to_conllu_string()
        doc = self.Document()
        doc.from_conllu_string(text)
        self.replace(d, doc)

    def do_store(self, doc, d, a, b, c, e_, f):
        if not self.storable(doc):
            return None
        want = p16.storable(doc)
        level = logging.root.manager.disable
        logging.disable(logging.CRITICAL)
        try:
            text = doc.to_conllu_string()
            self.same(a, Snap(self, doc), 'storing', ents=set(a.ents), ms=set(a.ms))
            try:
                got = p16.read_entities(text)
            except (AssertionError, KeyError, ValueError, IndexError, TypeError) as e:
                raise core.Violation('stored-annotation', f'the stored annotation cannot be read: {e!r}')
            self.sim.check(got == p16.unescape(want, doc.meta.get('global.Entity')), 'stored-annotation', lambda: f'stored annotation differs from the one in memory: {diff(p16.unescape(want, doc.meta.get('global.Entity')), got)}')
            new = self.Document()
            new.from_conllu_string(text)
            got = p16.storable(new)
        finally:
            logging.disable(level)
        self.sim.check(got == want, 'loaded-annotation', lambda: f'loaded annotation differs: {diff(want, got)}')
        self.sim.probe('stored')
        self.sim.log(text)
        return new

    def do_reload(self, doc, d, a, b, c, e_, f):
        new = self.do_store(doc, d, a, b, c, e_, f)
        if new is None:
            return None
        self.replace(d, new)
        self.sim.probe('reload')
        self.sim.fault('document replaced by its stored copy')
        return True


def execute(plan, sim):
    if not plan['docs']:
        return
    w = CorefBlocks(sim, plan['docs'])
    for o in plan['ops']:
        what = w.op(o, sim)
        sim.log(o[0], what)
        if what is None:
            continue
        sim.count('op:' + what)
        if any(d.coref_mentions for d in w.docs):
            sim.nontrivial = True
        sim.state([what, sorted([m.span, len(m.bridging)] for d in w.docs for m in d.coref_mentions)])
    for d, doc in enumerate(w.docs):
        if doc.trees:
            w.do_store(doc, d, Snap(w, doc), 0, 0, 0, 0)
