"""P19: histories of splitting, joining, merging, (re)segmenting and distributing sentences; the whole content is compared with a model after every step."""
import io
import re

from dst import gen as G

RUNS = {'quick': 6000, 'thorough': 150000}
LISTS = ('ops', 'docs', 'sents')
STATE_RULE = 'one state = (sizes of all sentences with the shape of their trees, positions of multi-word tokens and empty nodes, last two operations), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['util.SplitSentence', 'util.JoinSentence', 'util.Split', 'util.ResegmentGold', 'segment.Merge', 'segment.Simple', 'tokenize.OnWhitespace', 'tokenize.Simple',
                       'udapi.core.root', 'udapi.core.bundle', 'udapi.core.document', 'udapi.core.run', 'read.Conllu', 'write.Conllu'],
              'stub': ['an independent reader of CoNLL-U (the model)']}
ASSUMPTIONS = ['sentences are not split inside a multi-word token or a mention', 'sentences of the default zone have words (other zones may lack trees)',
               'util.ResegmentGold: no predicted token crosses a gold sentence boundary (the block documents that as unsolved)',
               'the comments, the paragraph mark and the id of a sentence appended to another one are dropped with it (there is one sentence less)',
               'where segment.Simple puts the boundaries and how the tokenisers cut words is not checked, only that nothing is lost']
PROBES = ('split', 'split-many', 'join', 'join-run', 'merge', 'merge-missing-zone', 'restart', 'refused', 'empty-moved', 'mwt-moved', 'crossing-arc', 'deps-cut', 'parts', 'segmented', 'tokenized',
          'resegmented', 'resegment-refused', 'entities', 'numeric')
DETAIL = ['lemma', 'upos', 'xpos', 'feats', 'deprel']


def gen(rng):
    kind = rng.choices(['surgery', 'zones', 'text', 'gold'], [5, 1.5, 1.5, 2])[0]
    plan = {'kind': kind}
    r = lambda n=1 << 16: rng.randrange(n)
    if kind in ('surgery', 'zones'):
        docs = []
        for d in range(rng.choice([1, 1, 2, 3]) if kind == 'surgery' else 1):
            sents = []
            base = G.Names(rng.choice(['w', 'Slovo', 'w.']) + 'abc'[d])
            names = lambda: base() + (';' if rng.random() < 0.12 else '')
            zones = [''] if kind == 'surgery' else rng.choice([['', 'en'], ['en', 'de'], ['en', '', 'fr'], ['en']])
            idkind = rng.choice(['s', 's', '', 'x-', 'p1s'])
            for i in range(rng.choice([0, 1, 2, 3, 4, 5]) if rng.random() < 0.9 else 0):
                for z in zones:
                    if z != zones[0] and rng.random() < 0.3:
                        continue
                    size = rng.choice([1, 2, 4]) if z != zones[0] else rng.choice([1, 2, 3, 4, 6, 9])
                    lines = G.tree(rng, size, sent_id=f'{idkind}{i + 1 + 100 * d}' + ('/' + z if z else ''), names=names, empties=0.35 if size else 0, mwts=0.3, deps=0.5,
                                   newdoc=rng.choice([None, None, True, f'd{i}']) if i == 0 else None, newpar=rng.choice([None, None, None, True, f'p{i}']))
                    sents.append('\n'.join(lines) + '\n\n')
            docs.append(sents)
        plan['docs'] = docs
        plan['coref'] = [[r(), r(3), r(2)] for _ in range(rng.choice([0, 0, 2, 5]))] if kind == 'surgery' else []
        plan['decoded'] = r(2)
        names = ['split_id', 'split_misc', 'join_id', 'join_misc', 'merge', 'restart', 'bad', 'look']
        weights = [3, 3, 3, 3, 2, 1, 2, 1]
        if kind == 'zones':
            names, weights = ['merge', 'restart', 'bad', 'look', 'blank'], [3, 1, 2, 1, 1]
        plan['ops'] = [[rng.choices(names, weights)[0], r(), r(), r(), r()] for _ in range(rng.randint(1, 9))]
        plan['end'] = [rng.choice(['none', 'parts', 'size']) if kind == 'surgery' else rng.choice(['none', 'size']), rng.randint(1, 4)]
    elif kind == 'text':
        toks = ['A.', 'Merkel', 'e.g.', 'Hello.', 'Yes!', 'what?', '"Quoted."', '“No!”', '(sic.)', '1.', '2.5', 'Ž.', 'např.', 'končí.', 'Další', 'x', 'foo', '„A.', '…', 'a-b', "don't", '«', '中文。', '.',
                '"', '!', 'é', '100%', '\u00a0x', 'U.S.', 'No.', ')']
        sents = []
        for i in range(rng.randint(1, 3)):
            for z in rng.choice([[''], [''], ['', 'en'], ['en', 'cs']]):
                text = ''
                for _ in range(rng.choice([0, 1, 2, 4, 8, 14])):
                    text += rng.choice(toks) + rng.choice([' ', ' ', ' ', ' ', '  ', '   ', '', '\t', '\u00a0', ' \t '])
                text = rng.choice(['', '', ' ', '\t']) + text.rstrip(' ' if r(3) else None)
                sents.append([i, z, text])
        plan['sents'] = sents
        plan['zones'] = rng.choice(['all', 'all', 'en', '', 'en,cs'])
        plan['keep'] = r(2)
        plan['tok'] = rng.choice(['tokenize.OnWhitespace', 'tokenize.Simple'])
        plan['first'] = rng.choice(['segment', 'segment', 'tokenize', 'both'])
        plan['tokenized_tree'] = r(len(sents) * 2) if r(3) == 0 else None
    else:
        total = rng.choice([1, 2, 4, 8, 14, 22])
        atoms = [''.join(rng.choice('abcč中') for _ in range(rng.randint(1, 2))) for _ in range(total)]
        cut = lambda p: [j for j in range(1, total) if rng.random() < p] + [total]
        gs, ps = cut(rng.choice([0.1, 0.3, 0.6])), cut(rng.choice([0.1, 0.3, 0.6]))
        plan.update(atoms=atoms, gold_sents=gs, pred_sents=ps, gold_toks=cut(0.8), pred_toks=cut(rng.choice([0.6, 0.9, 1])), pred_mwt=[r() for _ in range(6)], seed=r(1 << 30),
                    pred_first=r(2), spoil=rng.choice([None] * 6 + ['longer', 'more', 'shorter', 'other']))
    return plan


# --- the model: sentences read independently of the library ---------------------------------------------------
class Sent:
    def __init__(self, lines):
        self.comments, self.id, self.zone, self.text, self.newdoc, self.newpar = [], None, '', None, None, None
        self.seq, self.words, self.attr, self.parent, self.deps, self.mwts = [], [], {}, {}, {}, []
        at, heads, deps, spans = {'0': 0}, {}, {}, []
        for line in lines:
            if line.startswith('# sent_id = '):
                self.id, _, self.zone = line[12:].partition('/')
            elif line.startswith('# text = '):
                self.text = line[9:]
            elif line.startswith('# newdoc'):
                self.newdoc = line[14:] or True
            elif line.startswith('# newpar'):
                self.newpar = line[14:] or True
            elif line.startswith('# global.Entity'):
                pass
            elif line.startswith('#'):
                self.comments.append(line[1:])
            else:
                f = line.split('\t')
                misc = set() if f[9] == '_' else set(f[9].split('|'))
                if '-' in f[0]:
                    spans.append((f[0], f[1], misc))
                    continue
                name = f[1]
                at[f[0]] = name
                self.seq.append(name)
                self.attr[name] = {'lemma': f[2], 'upos': f[3], 'xpos': f[4], 'feats': f[5], 'deprel': None if '.' in f[0] else f[7], 'misc': misc}
                if '.' not in f[0]:
                    self.words.append(name)
                    heads[name] = f[6]
                deps[name] = [] if f[8] == '_' else [x.split(':', 1) for x in f[8].split('|')]
        self.parent = {n: at[h] for n, h in heads.items()}
        self.deps = {n: [[at[h], rel] for h, rel in d] for n, d in deps.items()}
        for span, form, misc in spans:
            lo, hi = map(int, span.split('-'))
            self.mwts.append([form, misc, self.words[lo - 1:hi]])

    @classmethod
    def empty(cls, ident, zone=''):
        s = cls([])
        s.id, s.zone = ident, zone
        return s

    def mwt(self, w):
        return next((m for m in self.mwts if w in m[2]), None)

    def spelled(self):
        out, done = '', []
        for w in self.words:
            m = self.mwt(w)
            if m is None:
                out += w + ('' if 'SpaceAfter=No' in self.attr[w]['misc'] else ' ')
            elif m not in done:
                done.append(m)
                out += m[0] + ('' if 'SpaceAfter=No' in m[1] else ' ')
        return out.rstrip()

    def cut(self, first, last):
        """The part with the words first..last (1-based) as the body of a new sentence."""
        part = Sent.empty(None, self.zone)
        part.words = self.words[first - 1:last]
        lo = self.seq.index(part.words[0])
        hi = self.seq.index(self.words[last]) if last < len(self.words) else len(self.seq)
        part.seq = self.seq[0 if first == 1 else lo:hi]
        inside = set(part.seq)
        for n in part.seq:
            part.attr[n] = self.attr[n]
            part.deps[n] = [x for x in self.deps[n] if x[0] in inside or x[0] == 0]
        for w in part.words:
            part.parent[w] = self.parent[w] if self.parent[w] in inside else 0
        part.mwts = [m for m in self.mwts if m[2][0] in inside]
        return part

    def append(self, other):
        self.words += other.words
        self.seq += other.seq
        self.attr.update(other.attr)
        self.parent.update(other.parent)
        self.deps.update(other.deps)
        self.mwts += other.mwts

    def shape(self):
        pos = {n: i for i, n in enumerate(self.seq)}
        return [len(self.words), [pos.get(self.parent[w], -1) for w in self.words], [[pos[w] for w in m[2]] for m in self.mwts], [i for i, n in enumerate(self.seq) if n not in self.parent]]


def miscset(obj):
    s = str(obj)
    return set() if s in ('_', '') else set(s.split('|'))


def verify_tree(sim, tree, s, what, entities=False):
    say = lambda msg: f'{what}: {s.id}/{s.zone}: {msg}'
    got = [n.form for n in tree.descendants_and_empty]
    sim.check(got == s.seq, 'words', lambda: say(f'nodes {got}, expected {s.seq}'))
    sim.check([n.form for n in tree.descendants] == s.words, 'words', lambda: say('words and empty nodes'))
    sim.check([n.ord for n in tree.descendants] == list(range(1, len(s.words) + 1)), 'ords', lambda: say(f'ords {[n.ord for n in tree.descendants]}'))
    name = lambda n: 0 if n is tree else (n.form if n.root is tree else f'!{n.form}')
    last, k = 0, 0
    for n in tree.descendants_and_empty:
        a = s.attr[n.form]
        if not n.is_empty():
            last, k = n.ord, 0
            p = name(n.parent)
            sim.check(p == s.parent[n.form], 'heads', lambda: say(f'head of {n.form} is {p}, expected {s.parent[n.form]}'))
            sim.check(any(c is n for c in n.parent.children), 'heads', lambda: say(f'{n.form} is not among the children of its head'))
        else:
            k += 1
            sim.check(str(n.ord).split('.')[0] == str(last), 'ords', lambda: say(f'empty node {n.form} has ord {n.ord}, follows word {last}'))
        sim.check(n.root is tree, 'root', lambda: say(f'{n.form} has another root'))
        for key in DETAIL:
            v = str(n.feats) if key == 'feats' else getattr(n, key)
            if a[key] is None or (v is None and a[key] == '_'):
                continue
            sim.check(v == a[key], 'attributes', lambda: say(f'{key} of {n.form} is {v!r}, expected {a[key]!r}'))
        m = miscset(n.misc)
        want = a['misc']
        if entities:
            m, want = ({x for x in y if not x.startswith('Entity=')} for y in (m, want))
        sim.check(m == want, 'misc', lambda: say(f'MISC of {n.form} is {sorted(m)}, expected {sorted(want)}'))
        d = [[name(x['parent']), x['deprel']] for x in n.deps]
        sim.check(d == s.deps[n.form], 'deps', lambda: say(f'enhanced deps of {n.form}: {d}, expected {s.deps[n.form]}'))
    mw = [[m.form, miscset(m.misc), [w.form for w in m.words]] for m in tree.multiword_tokens]
    sim.check(sorted(mw, key=lambda x: s.words.index(x[2][0])) == sorted(s.mwts, key=lambda x: s.words.index(x[2][0])), 'mwts', lambda: say(f'multi-word tokens {mw}, expected {s.mwts}'))
    for m in tree.multiword_tokens:
        sim.check(m.root is tree and all(w.multiword_token is m for w in m.words), 'mwts', lambda: say('links of a multi-word token'))
    text = tree.text
    sim.check(text == s.text, 'text', lambda: say(f'text {text!r}, expected {s.text!r}'))
    newdoc = s.newdoc or (True if entities and tree.newdoc else None)       # storing entities marks the first sentence
    sim.check(tree.newdoc == newdoc and tree.newpar == s.newpar, 'marks', lambda: say(f'newdoc {tree.newdoc}, newpar {tree.newpar}'))
    c = [x for x in (tree.comment or '').split('\n') if x and not x.startswith('$')]
    sim.check(c == s.comments, 'comments', lambda: say(f'comments {c}, expected {s.comments}'))


class Surgery:
    def __init__(self, plan, sim):
        from udapi.core.document import Document
        self.plan, self.sim = plan, sim
        self.docs, self.model, self.entities = [], [], []
        count = 0
        for sents in plan['docs']:
            lines = [s.rstrip('\n').split('\n') for s in sents]
            model = [Sent(x) for x in lines]
            ents = {}
            if plan['coref'] and lines:
                self.annotate(lines, ents, count)
                model = [Sent(x) for x in lines]
            count += 1
            doc = Document()
            text = ''.join('\n'.join(x) + '\n\n' for x in lines)
            doc.from_conllu_string(text)
            groups = []
            for s in model:
                if groups and groups[-1][0].id == s.id:
                    groups[-1].append(s)
                else:
                    groups.append([s])
            self.docs.append(doc)
            self.model.append(groups)
            self.entities.append(ents)
            if ents:
                sim.probe('entities')
                if plan['decoded']:
                    list(doc.coref_entities)

    def annotate(self, lines, ents, count):
        """Add mentions of one or two words (not inside multi-word tokens) to the text."""
        where = next((i for i, x in enumerate(lines[0]) if not x.startswith('# newdoc')), 0)
        lines[0].insert(where, '# global.Entity = eid-etype-head-other')
        for k, e, two in self.plan['coref']:
            rows = [(si, li) for si, x in enumerate(lines) for li, row in enumerate(x) if re.match(r'\d+\t', row)]
            si, li = rows[k % len(rows)]
            span = [li]
            if two and li + 1 < len(lines[si]) and re.match(r'\d+\t', lines[si][li + 1]):
                span.append(li + 1)
            if any('Entity=' in lines[si][x] for x in span):
                continue
            eid = f'c{count}e{e}'
            ents.setdefault(eid, []).append([lines[si][x].split('\t')[1] for x in span])
            for j, x in enumerate(span):
                f = lines[si][x].split('\t')
                value = f'Entity=({eid}-person-1-)' if len(span) == 1 else (f'Entity=({eid}-person-1-' if j == 0 else f'Entity={eid})')
                misc = [] if f[9] == '_' else f[9].split('|')
                f[9] = '|'.join(sorted(misc + [value], key=lambda m: m.split('=')[0].lower()))
                lines[si][x] = '\t'.join(f)

    def whole(self, s, p):
        """The nearest place where s may be cut before word p (1-based), or None."""
        while 2 <= p <= len(s.words):
            m = s.mwt(s.words[p - 1])
            both = any(s.words[p - 2] in span and s.words[p - 1] in span for ents in self.entities for spans in ents.values() for span in spans)
            if (m is None or m[2][0] == s.words[p - 1]) and not both:
                return p
            p += 1
        return None

    def verify(self, what, docs=None):
        sim = self.sim
        for di, (doc, groups) in enumerate(zip(self.docs, self.model)):
            if docs is not None and di not in docs:
                continue
            self.verify_doc(doc, groups, f'{what} (document {di})', bool(self.entities[di]))

    def verify_doc(self, doc, groups, what, entities=False):
        sim = self.sim
        got = [[b.bundle_id, [t.zone for t in b.trees]] for b in doc.bundles]
        want = [[g[0].id, [s.zone for s in g]] for g in groups]
        sim.check(got == want, 'sentences', lambda: f'{what}: sentences {got}, expected {want}')
        sim.check([b.number for b in doc.bundles] == list(range(1, len(groups) + 1)), 'numbers', lambda: f'{what}: numbers {[b.number for b in doc.bundles]}')
        for b, g in zip(doc.bundles, groups):
            sim.check(b.document is doc, 'links', lambda: f'{what}: bundle {b.bundle_id} belongs to another document')
            for t, s in zip(b.trees, g):
                sim.check(t.bundle is b and t.sent_id == s.id + ('/' + s.zone if s.zone else ''), 'links', lambda: f'{what}: tree {t.sent_id} in bundle {b.bundle_id}')
                verify_tree(sim, t, s, what, entities)

    def run(self):
        from udapi.core.document import Document
        from udapi.core.run import create_block
        sim = self.sim
        self.verify('loading')
        last = ['load', 'load']
        for name, a, b, c, e in self.plan['ops']:
            di = a % len(self.docs)
            doc, groups = self.docs[di], self.model[di]
            if not groups and name != 'bad' and name != 'merge':
                continue
            sim.log(name, di)
            sim.count('op:' + name)
            last = [last[1], name]
            gi = b % len(groups) if groups else 0
            if name == 'split_id':
                s = groups[gi][0]
                p = self.whole(s, 2 + c % max(1, len(s.words) - 1)) if len(s.words) > 1 else None
                if p is None or len(groups) > 12:
                    continue
                ident = s.id
                if ident.isdigit() and e % 2:
                    ident = int(ident)
                    sim.probe('numeric')
                self.split(groups, gi, [p])
                create_block('util.SplitSentence', sent_id=ident, word_id=p).apply_on_document(doc)
            elif name == 'split_misc':
                value = [None, 'yes', '7', None][e % 4]
                marked = lambda s, w: next((m[10:] for m in s.attr[w]['misc'] if m.startswith('SplitHere=')), None)
                for i, g in enumerate(groups):
                    if i != gi and not c >> i & 1:
                        continue
                    s, nodes = g[0], doc.bundles[i].get_tree().descendants
                    for j in range(1 + (e >> 2) % 3):
                        p = self.whole(s, 2 + (c >> (j * 3)) % max(1, len(s.words) - 1)) if (b >> j) % 5 else 1
                        if p is None or p > len(nodes):
                            continue
                        v = (value or 'x') if (b >> j) % 7 else 'other'
                        nodes[p - 1].misc['SplitHere'] = v
                        old = s.attr[s.words[p - 1]]
                        s.attr[s.words[p - 1]] = dict(old, misc={m for m in old['misc'] if not m.startswith('SplitHere=')} | {'SplitHere=' + v})
                points = [[p for p, w in enumerate(g[0].words, 1) if p > 1 and marked(g[0], w) and value in (None, marked(g[0], w))] for g in groups]
                if len(groups) + sum(map(len, points)) > 18 or max(map(len, points)) > 12:
                    continue
                for i in reversed(range(len(groups))):
                    if points[i]:
                        s = groups[i][0]
                        for p in points[i]:
                            w = s.words[p - 1]
                            s.attr[w] = dict(s.attr[w], misc={m for m in s.attr[w]['misc'] if not m.startswith('SplitHere=')})
                        self.split(groups, i, points[i])
                param = int(value) if value == '7' and e & 8 else value
                if param == 7:
                    sim.probe('numeric')
                create_block('util.SplitSentence', misc_name='SplitHere', misc_value=param).apply_on_document(doc)
            elif name == 'join_id':
                if gi == 0:
                    continue
                ident = groups[gi][0].id
                if ident.isdigit() and e % 2:
                    ident = int(ident)
                    sim.probe('numeric')
                self.join(groups, gi)
                create_block('util.JoinSentence', sent_id=ident).apply_on_document(doc)
            elif name == 'join_misc':
                value = [None, 'yes', '7', None][e % 4]
                which = [i for i in range(1, len(groups)) if i == gi or c >> i & 1]
                for i in reversed(which):
                    nodes = doc.bundles[i].get_tree().descendants
                    for j in range(1 + (c >> 9) % 2):
                        nodes[(b >> (4 + j)) % len(nodes)].misc['JoinIt'] = value or 'x'
                    self.join(groups, i)
                if any(x + 1 in which for x in which):
                    sim.probe('join-run')
                param = int(value) if value == '7' and e & 8 else value
                create_block('util.JoinSentence', misc_name='JoinIt', misc_value=param).apply_on_document(doc)
            elif name == 'merge':
                zone = groups[0][0].zone if groups else ''
                zones = 'all' if c % 2 and all(g[0].zone == zone for g in groups) else zone
                self.merge(groups, zone)
                create_block('segment.Merge', zones=zones).apply_on_document(doc)
            elif name == 'blank':
                zone = ['cs', 'en', 'fr', 'de'][c % 4]
                if doc.bundles[gi].has_tree(zone):
                    continue
                doc.bundles[gi].create_tree(zone).text = 'not tokenized'
                groups[gi].append(Sent.empty(groups[gi][0].id, zone))
                groups[gi][-1].text = 'not tokenized'
            elif name == 'restart':             # only what was stored survives
                self.forget_blank(doc, groups)
                text = doc.to_conllu_string()
                new = Document()
                new.from_conllu_string(text)
                self.docs[di] = new
                for g in groups:
                    for s in g:
                        s.text = s.text if s.text is not None else ''
                sim.fault('restart-from-stored-state')
                sim.probe('restart')
            elif name == 'bad':
                self.bad(doc, groups, b, c, e)
            elif name == 'look':
                for t in doc.trees:
                    [t.descendants, t.get_sentence(), t.compute_text(), [n.deps for n in t.descendants_and_empty]]    # pylint: disable=W0104
            self.verify(name)
            sim.state([last, [[s.shape() for s in g] for g in groups]])
        self.finish()

    @staticmethod
    def forget_blank(doc, groups):
        """CoNLL-U cannot hold sentences without words."""
        for b, g in zip(doc.bundles, groups):
            for t in list(b.trees):
                if not t.descendants:
                    t.remove()
            g[:] = [s for s in g if s.words]

    def split(self, groups, gi, points):
        s = groups[gi][0]
        sim = self.sim
        sim.probe('split' if len(points) == 1 else 'split-many')
        bounds = [1] + points + [len(s.words) + 1]
        parts = [s.cut(lo, hi - 1) for lo, hi in zip(bounds, bounds[1:])]
        if any(n not in s.parent for p in parts[1:] for n in p.seq):
            sim.probe('empty-moved')
        if any(p.mwts for p in parts[1:]):
            sim.probe('mwt-moved')
        if any(s.parent[w] and not p.parent[w] for p in parts for w in p.words):
            sim.probe('crossing-arc')
        if any(len(p.deps[n]) < len(s.deps[n]) for p in parts for n in p.seq):
            sim.probe('deps-cut')
        for k, p in enumerate(parts):
            p.id = s.id + 'ABCDEFGHIJKLMNOP'[k]
            p.text = p.spelled()
            for w in p.words:
                if p.parent[w] == 0:
                    p.attr[w] = dict(p.attr[w], deprel='root')
        parts[0].comments, parts[0].newdoc, parts[0].newpar = s.comments, s.newdoc, s.newpar
        groups[gi:gi + 1] = [[p] for p in parts]

    def join(self, groups, gi):
        first, second = groups[gi - 1][0], groups[gi][0]
        first.append(second)
        first.text = first.spelled()
        del groups[gi]
        self.sim.probe('join')

    def merge(self, groups, zone):
        i = 1
        while i < len(groups):
            mine = lambda g: next(s for s in g if s.zone == zone)
            a, b = mine(groups[i - 1]), mine(groups[i])
            if a.words and b.words and a.words[-1].endswith(';'):
                for s in groups[i]:
                    t = next((x for x in groups[i - 1] if x.zone == s.zone), None)
                    if t is None:
                        s.id = groups[i - 1][0].id
                        groups[i - 1].append(s)
                        self.sim.probe('merge-missing-zone')
                    else:
                        t.append(s)
                        t.text = t.spelled()
                del groups[i]
                self.sim.probe('merge')
            else:
                i += 1

    def bad(self, doc, groups, b, c, e):
        from udapi.core.run import create_block
        sim = self.sim
        single = all([s.zone for s in g] == [''] for g in groups)
        if not groups:
            for block, kw in (('util.SplitSentence', {'sent_id': 'x', 'word_id': 2}), ('util.JoinSentence', {'misc_name': 'X'}), ('segment.Simple', {})):
                create_block(block, **kw).apply_on_document(doc)
            return
        s = groups[b % len(groups)][0]
        first = groups[0][0]
        mark = None
        cases = [('util.SplitSentence', {'sent_id': s.id}), ('util.SplitSentence', {'word_id': 2}), ('util.SplitSentence', {}), ('util.JoinSentence', {}),
                 ('util.SplitSentence', {'sent_id': s.id, 'misc_name': 'X'}), ('util.JoinSentence', {'sent_id': s.id, 'misc_name': 'X'})]
        if single:
            cases += [('util.SplitSentence', {'sent_id': s.id, 'word_id': w}) for w in (0, 1, len(s.words) + 1, len(s.words) + 7)]
            cases += [('util.JoinSentence', {'sent_id': first.id}), ('util.JoinSentence', {'misc_name': 'JoinIt'})]
        else:
            cases += [('util.SplitSentence', {'sent_id': s.id, 'word_id': 2}), ('util.JoinSentence', {'sent_id': groups[-1][0].id}), ('util.SplitSentence', {'misc_name': 'JoinIt'}),
                      ('util.JoinSentence', {'misc_name': 'JoinIt'})]
        if any(x.words for g in groups for x in g):
            cases.append(('segment.Simple', {}))
        block, kw = cases[c % len(cases)]
        if kw.get('misc_name') == 'JoinIt':
            mark = doc.bundles[0].trees[0].descendants[:1]
            for n in mark:
                n.misc['JoinIt'] = 'x'
        sim.log('bad', block, sorted(kw))
        try:
            create_block(block, **kw).apply_on_document(doc)
        except ValueError:
            sim.probe('refused')
            sim.fault('impossible-request')
        else:
            sim.check(False, 'not-refused', lambda: f'{block} {kw} was not refused; sentences {[g[0].id for g in groups]}')
        for n in mark or []:
            n.misc['JoinIt'] = None
        if single and e % 2:        # a sentence which is not there: nothing happens
            create_block('util.SplitSentence', sent_id='no such', word_id=2).apply_on_document(doc)
            create_block('util.JoinSentence', sent_id='no such').apply_on_document(doc)

    def coref(self, doc, what, sents):
        """Entities with their words, as the library reads them, against those planted (of the given sentences)."""
        sim = self.sim
        there = {w for g in sents for s in g for w in s.words}
        want = {}
        for ents in self.entities:
            for eid, spans in ents.items():
                mine = [x for x in spans if x[0] in there]
                if mine:
                    want[eid] = sorted(mine)
        got = {e.eid: sorted([w.form for w in m.words] for m in e.mentions) for e in doc.coref_entities}
        sim.check(got == want, 'coreference', lambda: f'{what}: entities {got}, expected {want}')

    def finish(self):
        from udapi.core.block import Block
        from udapi.core.document import Document
        from udapi.core.run import Run
        import argparse
        sim = self.sim
        kind, n = self.plan['end']
        # store and load everything once more
        texts = []
        for di, (doc, groups) in enumerate(zip(self.docs, self.model)):
            if self.entities[di]:
                self.coref(doc, f'document {di}', groups)
            self.forget_blank(doc, groups)
            text = doc.to_conllu_string() if groups else ''
            new = Document()
            if text:
                new.from_conllu_string(text)
            for g in groups:
                for s in g:
                    s.text = s.text or ''
            self.verify_doc(new, groups, f'stored and loaded document {di}', bool(self.entities[di]))
            if self.entities[di]:
                self.coref(new, f'stored and loaded document {di}', groups)
            texts.append(text)
        if kind == 'none':
            return

        class Feed(Block):
            finished = False

            def process_document(self, document):
                if todo:
                    text = todo.pop(0)
                    if text:
                        document.from_conllu_string(text)
                self.finished = not todo

        class Take(Block):
            def process_document(self, document):
                took.append(document)

        todo, took = list(texts), []
        from udapi.block.util.split import Split
        split = Split(**{'parts' if kind == 'parts' else 'bundles_per_doc': n})
        Run(argparse.Namespace(scenario=['x'])).run_blocks([('feed', Feed(), {}), ('util.Split', split, {}), ('take', Take(), {})])
        sim.log('parts', kind, n, [len(d.bundles) for d in took])
        allg = [g for groups in self.model for g in groups]
        sizes = [len(d.bundles) for d in took]
        sim.check(sum(sizes) == len(allg), 'parts', lambda: f'{len(allg)} sentences in, {sizes} out')
        if len(texts) == 1 and allg:
            per = n if kind == 'size' else -(-len(allg) // n)
            want = [min(per, len(allg) - i) for i in range(0, len(allg), per)]
            sim.check(sizes == want, 'parts', lambda: f'{len(allg)} sentences split by {kind}={n} into {sizes}, expected {want}')
        if kind == 'size':
            sim.check(max(sizes + [0]) <= n, 'parts', lambda: f'parts of {sizes} sentences, at most {n} were asked for')
        i = 0
        for k, d in enumerate(took):
            part = allg[i:i + len(d.bundles)]
            i += len(d.bundles)
            ent = any(self.entities)
            self.verify_doc(d, part, f'part {k}', ent)
            sim.probe('parts')
            if part:
                text = d.to_conllu_string()
                new = Document()
                new.from_conllu_string(text)
                self.verify_doc(new, part, f'stored and loaded part {k}', ent)
                if ent and len(texts) == 1:
                    self.coref(new, f'stored and loaded part {k}', part)


def run_text(plan, sim):
    from udapi.core.document import Document
    from udapi.core.run import create_block
    doc = Document()
    rows = []
    for i, z, text in plan['sents']:
        if i not in [x[0] for x in rows]:
            rows.append((i, doc.create_bundle()))
        bundle = dict((x[0], x[1]) for x in rows)[i]
        if bundle.has_tree(z):
            continue
        bundle.create_tree(z).text = text
    before = {}
    trees = list(doc.trees)
    for t in trees:
        before.setdefault(t.zone, []).append(t.text)
    zones = plan['zones']
    mine = lambda z: zones == 'all' or z in zones.split(',')
    if plan['tokenized_tree'] is not None and plan['tokenized_tree'] < len(trees):
        t = trees[plan['tokenized_tree']]
        t.create_child(form='tokenized')
        state = lambda: [[b.bundle_id, b.number, [[x.zone, x.text, [n.form for n in x.descendants]] for x in b.trees]] for b in doc.bundles]
        was = state()
        if mine(t.zone):
            try:
                create_block('segment.Simple', zones=zones, keep_spaces=plan['keep']).apply_on_document(doc)
            except ValueError:
                sim.fault('tree-already-tokenized')
            else:
                sim.check(False, 'not-refused', f'segment.Simple accepted the tokenized tree {t.sent_id}')
            sim.check(state() == was, 'refused-unchanged', lambda: f'segment.Simple failed and left {state()} of {was}')
            try:
                create_block(plan['tok'], keep_spaces=plan['keep']).process_tree(t)
            except ValueError:
                pass
            else:
                sim.check(False, 'not-refused', 'a tree was tokenized twice')
            sim.check(state() == was, 'refused-unchanged', lambda: f'{plan["tok"]} failed and left {state()} of {was}')
        t.children[0].remove()
    if plan['first'] in ('segment', 'both'):
        groups = [[b, {t.zone: t.text for t in b.trees}] for b in doc.bundles]
        create_block('segment.Simple', zones=zones, keep_spaces=plan['keep']).apply_on_document(doc)
        sim.check([b.number for b in doc.bundles] == list(range(1, len(doc.bundles) + 1)), 'numbers', lambda: f'numbers {[b.number for b in doc.bundles]}')
        ids = [b.bundle_id for b in doc.bundles]
        sim.check(len(set(ids)) == len(ids), 'ids', lambda: f'ids {ids}')
        old = [b for b in doc.bundles if any(b is g[0] for g in groups)]
        sim.check(len(old) == len(groups) and all(a is b[0] for a, b in zip(old, groups)), 'sentences', 'bundles were lost or reordered')
        parts, texts = [], None
        for b in doc.bundles:
            sim.check(b.document is doc and all(t.bundle is b and t.sent_id == b.bundle_id + ('/' + t.zone if t.zone else '') for t in b.trees), 'links', lambda: f'links of bundle {b.bundle_id}')
            g = next((x for x in groups if x[0] is b), None)
            if g:
                texts = {}
                parts.append([texts, g[1]])
            for t in b.trees:
                texts.setdefault(t.zone, []).append(t.text)
        for texts, orig in parts:
            sim.check(sorted(texts) == sorted(orig), 'zones', lambda: f'zones {sorted(texts)} of {sorted(orig)}')
            for z, segs in texts.items():
                if not mine(z):
                    sim.check(segs == [orig[z]], 'other-zones', lambda: f'zone {z} was not selected, {orig[z]!r} became {segs}')
                    continue
                joined = ('' if plan['keep'] else ' ').join(segs)
                sim.check(joined == orig[z], 'segmented-text', lambda: f'{orig[z]!r} was segmented to {segs}')
                if len(segs) > 1:
                    sim.probe('segmented')
                    sim.nontrivial = True
                sim.state(['seg', len(segs), len(orig[z]) > 20])
    if plan['first'] in ('tokenize', 'both'):
        texts = [(t, t.text) for t in doc.trees if mine(t.zone)]
        create_block(plan['tok'], zones=zones, keep_spaces=plan['keep']).apply_on_document(doc)
        unescape = {r'\s': ' ', r'\t': '\t', r'\r': '\r', r'\n': '\n'}
        real = lambda v: re.sub(r'\\[strn]', lambda m: unescape[m.group(0)], v)
        for t, text in texts:
            words = t.descendants
            sim.check([n.ord for n in words] == list(range(1, len(words) + 1)) and t.text == text, 'ords', lambda: f'tokens of {text!r}')
            sim.check(''.join(n.form for n in words) == ''.join(text.split()), 'tokens', lambda: f'{text!r} was tokenized to {[n.form for n in words]}')
            if plan['keep']:
                again = ''
                for n in words:
                    again += real(n.misc['SpacesBefore']) + n.form
                    again += real(n.misc['SpacesAfter']) if n.misc['SpacesAfter'] else ('' if n.misc['SpaceAfter'] == 'No' else ' ')
                if words:
                    sim.check(again == text, 'spaces', lambda: f'{text!r} can be restored only as {again!r}')
            else:
                again = ''.join(n.form + ('' if n.misc['SpaceAfter'] == 'No' else ' ') for n in words).rstrip()
                sim.check(again == ' '.join(text.split()), 'spaces', lambda: f'{text!r} can be restored only as {again!r}')
                sim.check(t.compute_text() == again, 'spaces', lambda: f'computed text of {text!r} is {t.compute_text()!r}')
            sim.probe('tokenized')
            sim.nontrivial = True
    for t in doc.trees:
        if not mine(t.zone):
            sim.check(not t.descendants and t.text in before[t.zone], 'other-zones', lambda: f'zone {t.zone} was not selected')


def run_gold(plan, sim):
    import random
    from udapi.core.document import Document
    from udapi.core.run import create_block
    rng = random.Random(plan['seed'])
    atoms = plan['atoms']
    total = len(atoms)

    def sentences(sents, toks, clean):
        """[[(first, last) of a token, ...], ...] over positions of atoms."""
        cuts = sorted(set(x for x in toks if x < total) | set(x for x in sents if x < total) | set(x for x in clean if x < total))
        bounds = [0] + cuts + [total]
        out, cur = [], []
        for lo, hi in zip(bounds, bounds[1:]):
            cur.append((lo, hi))
            if hi in sents or hi == total:
                out.append(cur)
                cur = []
        return out

    gs, ps = plan['gold_sents'], plan['pred_sents']
    gold = sentences(gs, plan['gold_toks'], [])
    pred = sentences(ps, plan['pred_toks'], gs)
    pred_atoms = list(atoms)
    spoil = plan['spoil']
    if spoil in ('longer', 'more'):
        if spoil == 'longer':
            pred[-1].append((total, total + 1))
        else:
            pred.append([(total, total + 1)])
        pred_atoms.append('QQ')
    elif spoil == 'shorter' and (len(pred[-1]) > 1 or len(pred) > 1):
        pred[-1].pop()
        pred = [x for x in pred if x]
    elif spoil == 'other':
        pred_atoms[rng.randrange(total)] = 'Ž'
    else:
        spoil = None
    doc = Document()
    for i in range(max(len(gold), len(pred))):
        doc.create_bundle()
    info = {}

    def build(tree, toks, zone):
        nodes, mw = [], None
        k = 0
        while k < len(toks):
            lo, hi = toks[k]
            src = pred_atoms if zone == 'pred' else atoms
            n = tree.create_child(form=''.join(src[lo:hi]), lemma=f'{zone}{lo}', upos=rng.choice(['NOUN', 'ADP']), deprel=rng.choice(['nsubj', 'case', 'det', 'obj', 'cc']))
            if rng.random() < 0.3:
                n.misc['SpaceAfter'] = 'No'
            ws = [n]
            if zone == 'pred' and any(k == x % 7 for x in plan['pred_mwt'][:2]):
                n2 = tree.create_child(form='xx', lemma=f'{zone}{lo}b', upos='X', deprel='aux')
                tree.create_multiword_token([n, n2], form=n.form)
                n.form = 'yy'
                ws.append(n2)
            nodes += ws
            k += 1
        top = rng.choice(nodes)
        top.deprel = 'root'
        heads = {top: tree}
        done = [top]
        for n in nodes:
            if n is not top:
                p = rng.choice(done)
                n.parent = p
                done.append(n)
        for n in nodes:
            info[n] = {a: getattr(n, a) for a in ('form', 'lemma', 'upos', 'deprel')}
            info[n].update(misc=str(n.misc), parent=n.parent if n.parent is not tree else None, mwt=n.multiword_token)

    zones = ['gold', 'pred']
    for b, (name, data) in [(b, x) for b in range(len(doc.bundles)) for x in ((('pred', pred), ('gold', gold)) if plan['pred_first'] else (('gold', gold), ('pred', pred)))]:
        if b < len(data):
            tree = doc.bundles[b].create_tree(name)
            build(tree, data[b], name)
    gold_trees = [t for t in doc.trees if t.zone == 'gold']
    pred_nodes = [n for t in doc.trees if t.zone == 'pred' for n in t.descendants]
    gold_view = lambda: [[t.sent_id, [[n.form, n.lemma, n.deprel, str(n.misc), n.ord, n.parent.ord] for n in t.descendants]] for t in gold_trees]
    was = gold_view()
    block = create_block('util.ResegmentGold', gold_zone='gold')
    try:
        block.apply_on_document(doc)
    except (ValueError, IndexError) as exc:
        sim.check(spoil is not None, 'resegment-failed', lambda: f'{type(exc).__name__}: {exc}')
        sim.probe('resegment-refused')
        sim.fault('texts-differ')
        return
    sim.check(spoil is None, 'not-refused', lambda: f'predicted text differs from the gold text ({spoil}), nothing was reported')
    sim.check(gold_view() == was and [b.get_tree('gold') for b in doc.bundles] == gold_trees, 'gold-unchanged', 'the gold zone has changed')
    sim.check(all([t.zone for t in b.trees] in (['gold', 'pred'], ['pred', 'gold']) for b in doc.bundles), 'zones', lambda: f'zones {[[t.zone for t in b.trees] for b in doc.bundles]}')
    sim.check([b.number for b in doc.bundles] == list(range(1, len(gold) + 1)), 'numbers', lambda: f'numbers {[b.number for b in doc.bundles]}')
    got = [n for b in doc.bundles for n in b.get_tree('pred').descendants]
    sim.check(len(got) == len(pred_nodes) and all(a is b for a, b in zip(got, pred_nodes)), 'words', lambda: f'words {[n.lemma for n in got]} of {[n.lemma for n in pred_nodes]}')
    chars = lambda t: ''.join(x.form for x in t.token_descendants)
    for b, g in zip(doc.bundles, gold):
        t = b.get_tree('pred')
        sim.check(chars(t) == ''.join(''.join(atoms[lo:hi]) for lo, hi in g), 'segmentation', lambda: f'sentence {b.bundle_id}: {chars(t)!r} for the gold sentence {chars(b.get_tree("gold"))!r}')
        sim.check(len(t.children) == 1, 'one-root', lambda: f'{len(t.children)} roots')
        words = t.descendants
        sim.check([n.ord for n in words] == list(range(1, len(words) + 1)), 'ords', 'ords')
        for n in words:
            i = info[n]
            now = {a: getattr(n, a) for a in ('form', 'lemma', 'upos', 'deprel')}
            sim.check(all(now[a] == i[a] for a in now), 'attributes', lambda: f'{i} became {now}')
            misc = '|'.join(x for x in str(n.misc).split('|') if x not in ('Rehanged=Yes', 'FuncChildMissing=Yes')) or '_'
            sim.check(misc == i['misc'], 'misc', lambda: f'MISC {i["misc"]} became {n.misc}')
            sim.check(n.multiword_token is i['mwt'] or (n.multiword_token and i['mwt'] and n.multiword_token.form == i['mwt'].form), 'mwts', lambda: f'multi-word token of {n.lemma}')
            if i['parent'] is not None and i['parent'].root is t:
                sim.check(n.parent is i['parent'], 'heads', lambda: f'head of {n.lemma} was {i["parent"].lemma}, is {n.parent.lemma}')
            sim.check(n.root is t and any(c is n for c in n.parent.children), 'links', lambda: f'links of {n.lemma}')
    sim.probe('resegmented')
    sim.nontrivial = True
    sim.state(['gold', [len(g) for g in gold], [len(p) for p in pred]])
    text = doc.to_conllu_string()
    new = Document()
    new.from_conllu_string(text)
    sim.check([[n.form for n in t.descendants] for t in new.trees] == [[n.form for n in t.descendants] for t in doc.trees], 'stored', 'the resegmented document is stored differently')


def execute(plan, sim):
    if plan['kind'] in ('surgery', 'zones'):
        Surgery(plan, sim).run()
    elif plan['kind'] == 'text':
        run_text(plan, sim)
    else:
        run_gold(plan, sim)
