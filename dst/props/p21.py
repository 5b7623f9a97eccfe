"""P21: blocks that change the tokens of a sentence do exactly that; all other annotation blocks leave the tokens alone; one sentence does not influence another."""
import contextlib
import importlib
import io
import logging
import unicodedata

from dst import gen as G, zygote
from dst.core import Violation

RUNS = {'quick': 5000, 'thorough': 120000}
LISTS = ('ops', 'docs')
STATE_RULE = 'one state = (block with its parameters, shape of a sentence it changed: heads, positions of empty nodes, spans of multi-word tokens), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['ud.AddMwt and its language variants', 'ud.RemoveMwt', 'ud.JoinAsMwt', 'ud.FixMwtSpace', 'ud.JoinToken', 'ud.SplitUnderscoreTokens', 'ud.SetSpaceAfter', 'ud.SetSpaceAfterFromText',
                       'ud.ComplyWithText', 'ud.GoeswithFromText', 'annotation blocks of ud, transform, util, mwe', 'udapi.core', 'read.Conllu', 'write.Conllu'],
              'stub': ['the analyses of ud.AddMwt (drawn) in half of its runs']}
ASSUMPTIONS = ['heuristics of the language specific blocks may fail with an exception on an unusual tree (the run ends there)',
               'SpaceAfter is set at tokens, not at words of multi-word tokens', 'ud.JoinToken is not used with enhanced dependencies of the joined words (documented)',
               'which annotation the heuristic blocks choose is not judged, only that the tokens, their order and the other sentences are left alone']
PROBES = ('addmwt', 'addmwt-in-mwt', 'addmwt-lang', 'removemwt', 'joinasmwt', 'fixmwtspace', 'jointoken', 'jointoken-refused', 'underscore', 'underscore-mwt', 'spaceafter', 'fromtext', 'comply', 'comply-fixed',
          'comply-deleted', 'comply-added', 'comply-mwt', 'comply-goeswith', 'goeswith', 'annot', 'restart', 'leaky')
ROOT = 'ROOT'
PLAIN = ('form', 'lemma', 'upos', 'xpos', 'deprel')
# annotation blocks which change no token (those which do, or need special input, are not in the list)
ANNOT = [('ud.FixPunct', [{}, {'copy_to_enhanced': 1}]), ('ud.FixChain', [{}]), ('ud.FixRightheaded', [{}]), ('ud.FixLeaf', [{}]), ('ud.FixRoot', [{}]), ('ud.FixPunctChild', [{}]), ('ud.FixMultiSubjects', [{}]),
         ('ud.FixAdvmodByUpos', [{}]), ('ud.FixCompoundName', [{}]), ('ud.FixPseudoCop', [{'lemmas': 'walk,be'}]), ('ud.Basic2Enhanced', [{}]), ('ud.AddPunctType', [{}]),
         ('ud.MarkBugs', [{}]), ('ud.Convert1to2', [{'skip': 'text'}]), ('transform.Proj', [{}, {'lifting_order': 'shortest'}, {'label': 'deprel'}]), ('transform.Deproj', [{}, {'label': 'deprel'}]),
         ('transform.Flatten', [{}, {'oneroot': 1}]), ('util.Normalize', [{}, {'empty_node_ord': 1}]), ('util.Mark', [{'node': 'node.upos=="NOUN"'}]), ('util.MarkMwtBugsAtNodes', [{}]), ('ud.PrintFixed', [{}]),
         ('ud.ar.FixEdeprels', [{}]), ('ud.cs.FixEdeprels', [{}]), ('ud.lt.FixEdeprels', [{}]), ('ud.ru.FixEdeprels', [{}]), ('ud.sk.FixEdeprels', [{}]), ('ud.es.FixVerbFeats', [{}]), ('ud.es.FixTenerQue', [{}]),
         ('ud.ca.ElQue', [{}, {'fix': 1}]), ('ud.es.ElQue', [{}, {'fix': 1}]), ('ud.ga.To2', [{}]), ('ud.gl.To2', [{}]), ('ud.he.FixNeg', [{}]), ('ud.hi.FixAux', [{}]), ('ud.kk.FixSpuriousAux', [{}]),
         ('ud.ug.FixSpuriousAux', [{}]), ('ud.ro.FixNeg', [{}]), ('ud.ru.FixRemnant', [{}]), ('ud.ru.FixToEst', [{}]), ('ud.yue.Lemmatize', [{}]), ('ud.zh.Lemmatize', [{}]), ('ud.la.MarkFeatsBugs', [{}]),
         ('ud.ml.MarkFeatsBugs', [{}]), ('ud.cs.MarkFeatsBugs', [{}]), ('mwe.Normalize', [{}]), ('mwe.Possessives', [{}]), ('ud.Lemmatize', [{}]), ('ud.da.FixMultiSubject', [{}])]
LANGS = ['cs', 'de', 'fr', 'es', 'ca', 'pt', 'el', 'la', 'id']
TOKENS = ['.', ',', '"', '„', '“', '(', ')', '?', '!', '...', '-', ';', ':', '¿', '/', '…', "''"]
WORDS = ['del', 'zum', 'Aux', 'abych', 'DU', 'au', 'dámelo', 'in_spite_of', 'New_York', 'a_b', '_x', 'y_', 'mother-in-law', '3', '10', 'p.m', "don't", 'he is', '中文', 'é', 'Ž', 'al', '10,5', 'X', 'kdybys', 'aby', 'no', 'ß', 'ﬁ']


# ------------------------------------------------------------------------------------------------ generator
def gen(rng):
    r = lambda n=1 << 16: rng.randrange(n)
    docs = []
    count = 0
    for d in range(rng.choice([1, 1, 2])):
        sents = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            count += 1
            n = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 10])
            lines = [x.split('\t') for x in G.tree(rng, n, sent_id=f's{count}', empties=0.25, mwts=0.35, deps=rng.choice([0, 0, 0.5]), rare=0)]
            glue = {}
            for f in lines:
                if len(f) != 10:
                    continue
                if '-' in f[0]:
                    if rng.random() < 0.4:
                        f[1] = ' '.join(x[1] for x in lines if len(x) == 10 and x[0].isdigit() and int(f[0].split('-')[0]) <= int(x[0]) <= int(f[0].split('-')[1]))
                        if rng.random() < 0.3:
                            f[1] = f[1].replace(' ', '')
                        elif rng.random() < 0.4:        # a space elsewhere, or between some of the words only
                            f[1] = f[1].replace(' ', '', 1)
                            if ' ' not in f[1] and len(f[1]) > 1:
                                k = rng.randrange(1, len(f[1]))
                                f[1] = f[1][:k] + ' ' + f[1][k:]
                    continue
                x = rng.random()
                if x < 0.25:
                    f[1] = rng.choice(TOKENS)
                    f[3] = 'PUNCT' if rng.random() < 0.8 else f[3]
                elif x < 0.45:
                    f[1] = rng.choice(WORDS)
                elif x < 0.55:
                    f[1] = f[1].title()
                elif x < 0.6:
                    f[1] = f[1].upper()
                if rng.random() < 0.6:
                    f[2] = f[1].lower()
                elif rng.random() < 0.1:
                    f[2] = rng.choice(['_', 'a_b', 'x'])
                if f[7] not in ('_', 'root') and rng.random() < 0.1:
                    f[7] = 'goeswith'
                misc = [] if f[9] == '_' else f[9].split('|')
                if rng.random() < 0.08 and '.' not in f[0]:
                    misc.append(rng.choice(['JoinToken=Yes', 'JoinToken=1', 'OrigForm=xyz', 'JoinToken=Yes']))
                if rng.random() < 0.05:
                    misc.append('Entity=(e1)')
                f[9] = '|'.join(sorted(set(misc), key=lambda s: s.split('=')[0].lower())) or '_'
            body = ['\t'.join(f) if len(f) == 10 else f[0] for f in lines if not f[0].startswith('# text')]
            sents.append(['\n'.join(body) + '\n\n', rng.choice(['none', 'right', 'right', 'right', 'altered', 'altered', 'spaces', 'other']), r(1 << 30)])
        docs.append(sents)
    ops = []
    kinds = ['addmwt', 'addlang', 'removemwt', 'joinasmwt', 'fixmwtspace', 'jointoken', 'underscore', 'spaceafter', 'fromtext', 'comply', 'goeswith', 'annot', 'restart', 'edit', 'text']
    weights = [3, 1.5, 2, 2.5, 2, 3, 3, 2.5, 2.5, 3, 2.5, 4, 1, 4, 2]
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        ops.append([rng.choices(kinds, weights)[0], r(), r(), r(), r()])
    return {'docs': docs, 'ops': ops}


def alter(rng, text):
    """A text which differs from the tokens a bit."""
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randint(0, len(text))
        kind = rng.randrange(8)
        if kind == 0:
            text = text[:i] + ' ' + text[i:]
        elif kind == 1:
            spaces = [k for k, c in enumerate(text) if c == ' ']
            if spaces:
                k = rng.choice(spaces)
                text = text[:k] + text[k + 1:]
        elif kind == 2:
            text = text[:i] + rng.choice(['.', ',', '!', '"', ' .', ' , ', '?!']) + text[i:]
        elif kind == 3:
            text = text[:i] + rng.choice('abcé') + text[i:]
        elif kind == 4:
            text = text[:i] + text[i + 1:]
        elif kind == 5:
            text = text[:i] + text[i + rng.randint(1, 4):]
        elif kind == 6:
            text = text.replace('-', ' ')
        else:
            words = text.split(' ')
            k = rng.randrange(len(words))
            words[k] = rng.choice(['xyz', words[k] + '.', words[k].upper(), '', words[k][::-1]])
            text = ' '.join(words)
    text = ' '.join(text.split())
    return text or 'x'


# ------------------------------------------------------------------------------------------------ snapshots (the model works on these)
class Snap:
    """Everything of one tree as plain data; nodes have names."""

    def __init__(self, tree=None, name=None):
        if tree is None:
            return
        self.id, self.text, self.comment, self.newdoc, self.newpar = tree.sent_id, tree.text, tree.comment, tree.newdoc, tree.newpar
        nodes = list(tree.descendants_and_empty)
        self.seq = [name(n) for n in nodes]
        self.attr, self.parent, self.deps = {}, {}, {}
        for n in nodes:
            k = name(n)
            self.attr[k] = {a: getattr(n, a) for a in PLAIN}
            self.attr[k]['feats'] = dict(n.feats)
            self.attr[k]['misc'] = {a: str(v) for a, v in n.misc.items()}
            if not n.is_empty():
                self.parent[k] = ROOT if n.parent.is_root() else name(n.parent)
            self.deps[k] = [[ROOT if d['parent'].is_root() else name(d['parent']), d['deprel']] for d in n.deps]
        self.mwts = [[m.form, {a: str(v) for a, v in m.misc.items()}, [name(w) for w in m.words]] for m in tree.multiword_tokens]

    @property
    def words(self):
        return [x for x in self.seq if x in self.parent]

    def mwt(self, w):
        for m in self.mwts:
            if w in m[2]:
                return m
        return None

    def tokens(self):
        """[(form, misc, mwt or None, name)]"""
        out = []
        for w in self.words:
            m = self.mwt(w)
            if m is None:
                out.append((self.attr[w]['form'], self.attr[w]['misc'], None, w))
            elif m[2][0] == w:
                out.append((m[0], m[1], m, w))
        return out

    def computed(self):
        out = ''
        for form, misc, _, _ in self.tokens():
            out += form + ('' if misc.get('SpaceAfter') == 'No' else ' ')
        return out.rstrip()

    def subtree(self, w):
        todo, out = [w], []
        while todo:
            x = todo.pop()
            out.append(x)
            todo += [c for c in self.words if self.parent[c] == x]
        return out

    def remove_rehang(self, w):
        p = self.parent[w]
        for c in self.words:
            if self.parent[c] == w:
                self.parent[c] = p
        self.drop(w)

    def drop(self, w):
        self.seq.remove(w)
        del self.attr[w], self.deps[w], self.parent[w]
        for k in self.deps:
            self.deps[k] = [d for d in self.deps[k] if d[0] != w]
        for m in self.mwts:
            m[2] = [x for x in m[2] if x != w]
        self.mwts = [m for m in self.mwts if m[2]]

    def insert(self, w, where, after, parent, **attrs):
        i = self.seq.index(where) + (1 if after else 0)
        while after and i < len(self.seq) and self.seq[i] not in self.parent:      # behind the empty nodes which follow the word
            i += 1
        self.seq.insert(i, w)
        self.attr[w] = {a: attrs.get(a) for a in PLAIN}
        self.attr[w]['feats'], self.attr[w]['misc'] = dict(attrs.get('feats') or {}), dict(attrs.get('misc') or {})
        self.parent[w] = parent
        self.deps[w] = []

    def renamed(self, old):
        """New words (names not in old) are called +1, +2, ... in surface order; everything comparable."""
        ren = {}
        for x in self.seq:
            ren[x] = x if x in old else f'+{len([1 for y in ren.values() if y[0] == "+"]) + 1}'
        f = lambda x: ROOT if x == ROOT else ren.get(x, '?' + str(x))
        none = lambda v: '_' if v in (None, '') else v
        return {'seq': [f(x) for x in self.seq],
                'nodes': {f(x): {a: (none(v) if not isinstance(v, dict) else v) for a, v in self.attr[x].items()} for x in self.seq},
                'parent': {f(x): f(self.parent[x]) for x in self.words},
                'deps': {f(x): [[f(p), d] for p, d in self.deps[x]] for x in self.seq},
                'mwts': sorted(([m[0], m[1], [f(x) for x in m[2]]] for m in self.mwts), key=lambda m: (m[2], m[0])) if all(m[2] for m in self.mwts) else 'EMPTY MWT',
                'text': self.text, 'comment': none(self.comment), 'id': self.id, 'newdoc': self.newdoc, 'newpar': self.newpar}


def difference(a, b, path=''):
    """First few differences of two structures as text."""
    if type(a) is not type(b) or not isinstance(a, (dict, list)):
        return [] if a == b else [f'{path}: {a!r}, expected {b!r}']
    out = []
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                out.append(f'{path}.{k}: {"missing" if k not in a else repr(a[k])}, expected {"none" if k not in b else repr(b[k])}')
            else:
                out += difference(a[k], b[k], f'{path}.{k}')
        return out[:4]
    return [] if a == b else [f'{path}: {a!r}, expected {b!r}']


def wellformed(tree):
    """None or what is wrong."""
    nodes = list(tree.descendants)
    if [n.ord for n in nodes] != list(range(1, len(nodes) + 1)):
        return f'word numbers {[n.ord for n in nodes]}'
    reach, todo = [], list(tree.children)
    while todo:
        n = todo.pop()
        reach.append(n)
        if len(reach) > len(nodes):
            break
        for c in n.children:
            if c.parent is not n:
                return f'child {c.form!r} of {n.form!r} has another parent'
        todo += n.children
    if len(reach) != len(nodes) or {id(n) for n in reach} != {id(n) for n in nodes}:
        return 'not every word is reachable from the root exactly once'
    for n in nodes:
        if n.root is not tree:
            return f'{n.form!r} has another root'
        if n.multiword_token is not None and not any(n.multiword_token is m for m in tree.multiword_tokens):
            return f'{n.form!r} is in a multi-word token which is not in the tree'
    for m in tree.multiword_tokens:
        ords = [w.ord for w in m.words]
        if ords != list(range(ords[0], ords[0] + len(ords))) if ords else True:
            return f'multi-word token {m.form!r} of the words {ords}'
        for w in m.words:
            if w.multiword_token is not m or not any(w is n for n in nodes):
                return f'word {w.form!r} of the multi-word token {m.form!r}'
    ok = {id(n) for n in nodes} | {id(n) for n in tree.empty_nodes} | {id(tree)}
    for n in list(nodes) + list(tree.empty_nodes):
        for d in n.deps:
            if id(d['parent']) not in ok:
                return f'enhanced dependency of {n.form!r} on a node that is not in the tree'
    return None


# ------------------------------------------------------------------------------------------------ the world
def prepare():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        zygote.blocks()


def make(name, args):
    module = 'udapi.block.' + name.rsplit('.', 1)[0] + '.' + name.rsplit('.', 1)[1].lower()
    return getattr(importlib.import_module(module), name.rsplit('.', 1)[1])(**args)


class DrawnMwt:
    """Base class ud.AddMwt with drawn analyses; the decision depends only on the form."""

    @staticmethod
    def make(salt):
        from udapi.block.ud.addmwt import AddMwt
        import random

        class Drawn(AddMwt):
            def multiword_analysis(self, node):
                rng = random.Random(f'{salt} {node.form}')
                if rng.random() > 0.35 or not node.form or ' ' in node.form:
                    return None
                k = rng.choice([2, 2, 2, 3, 1])
                out = {'form': ' '.join(rng.choice(['de', 'el', 'ab', 'y', 'zz']) for _ in range(k))}
                if rng.random() < 0.8:
                    out['main'] = rng.randrange(k)
                if rng.random() < 0.6:
                    out['shape'] = rng.choice(['siblings', 'subtree'])
                pick = lambda items: ' '.join(rng.choice(items) for _ in range(k))
                if rng.random() < 0.7:
                    out['lemma'] = pick(['*', 'de', 'el'])
                if rng.random() < 0.7:
                    out['upos'] = pick(['*', 'ADP', 'DET'])
                if rng.random() < 0.4:
                    out['xpos'] = pick(['*', 'X1'])
                if rng.random() < 0.6:
                    out['feats'] = pick(['*', '_', 'Case=Gen', 'Case=*', 'Case=*|Number=Plur', 'PronType=Art'])
                if rng.random() < 0.7:
                    out['deprel'] = pick(['*', 'det', 'case'])
                if rng.random() < 0.3:
                    stars = rng.randrange(k + 1)
                    out['misc'] = ' '.join('*' if i == stars else '_' for i in range(k))
                return out
        return Drawn()


class Machine:
    def __init__(self, plan, sim):
        import random
        from udapi.core.document import Document
        self.plan, self.sim = plan, sim
        self.docs, self.blocks, self.names, self.keep, self.serial = [], {}, {}, [], 0
        logging.disable(logging.CRITICAL)
        for sents in plan['docs']:
            doc = Document()
            doc.from_conllu_string(''.join(s[0] for s in sents) or '\n')
            for (_, kind, seed), tree in zip(sents, doc.trees):
                rng = random.Random(seed)
                text = Snap(tree, self.name).computed()
                if kind != 'none':
                    tree.text = {'right': lambda: text, 'altered': lambda: alter(rng, text), 'spaces': lambda: text.replace(' ', rng.choice(['  ', '\u00a0', ' '])),
                                 'other': lambda: alter(rng, alter(rng, text))}[kind]()
            self.docs.append(doc)

    def name(self, node):
        k = self.names.get(id(node))
        if k is None:
            self.serial += 1
            self.keep.append(node)
            k = self.names[id(node)] = f'n{self.serial}'
        return k

    def snaps(self, doc):
        return [Snap(t, self.name) for t in doc.trees]

    def positions(self, doc):
        """A view of a document in which nodes are named by position."""
        out = []
        for t in doc.trees:
            pos = {}
            for i, n in enumerate(t.descendants_and_empty):
                pos[id(n)] = f'p{i}'
            v = Snap(t, lambda n: pos.get(id(n), 'OUTSIDE'))
            for k in v.attr:
                if v.attr[k]['form'] is None:
                    v.attr[k]['form'] = '_'
                bug = v.attr[k]['misc'].get('Bug')
                if bug:     # the order of features is not defined before they are stored
                    v.attr[k]['misc']['Bug'] = '+'.join(sorted(bug.split('+')))
            out.append(v.renamed(v.seq))
        return out

    def block(self, name, args):
        key = (name, str(sorted(args.items())))
        if key not in self.blocks:
            self.blocks[key] = make(name, args)
        else:
            self.sim.probe('leaky')
        return self.blocks[key]

    def storable(self, doc, what):
        from udapi.core.document import Document
        text = doc.to_conllu_string()
        again = Document()
        again.from_conllu_string(text)
        a, b = self.positions(doc), self.positions(again)
        for x in a + b:
            x['newdoc'] = None
            x['text'] = x['text'] or ''
            x['comment'] = plain_comment(x['comment'])
        for i, (x, y) in enumerate(zip(a, b)):
            if not x['text']:
                x['text'] = y['text']
            for n in list(x['nodes'].values()) + list(y['nodes'].values()):
                n['deprel'] = n['deprel'] or '_'
            if x != y:
                raise Violation('storable', f'{what}: sentence {i} stored and loaded again: {difference(y, x)}')
        self.sim.check(len(a) == len(b), 'storable', lambda: f'{what}: {len(a)} trees stored, {len(b)} loaded')
        return again

    def apply(self, name, doc, block, fresh, model=None, tolerate=False, refuse=None, solo=True):
        """Run a block on a document; compare every sentence with the model and with what a fresh block makes of the sentence alone."""
        from udapi.core.document import Document
        sim = self.sim
        before = self.snaps(doc)
        alone = []
        if solo:
            for tree in doc.trees:
                one = Document()
                one.from_conllu_string(self.single(tree))
                fit = self.fits(one, tree)
                res = None
                if fit:
                    list(one.trees)[0].text = tree.text
                    for x, y in zip(list(one.trees)[0].descendants_and_empty, tree.descendants_and_empty):
                        for k in PLAIN:     # what is None must stay None, not '_'
                            if getattr(x, k) != getattr(y, k):
                                setattr(x, k, getattr(y, k))
                    b = fresh()
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            b.apply_on_document(one)
                        res = self.positions(one)[0]
                    except Exception:       # pylint: disable=broad-except
                        res = 'failed'
                alone.append(res)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                block.apply_on_document(doc)
        except Exception as exc:        # pylint: disable=broad-except
            if refuse and isinstance(exc, refuse):
                return 'refused'
            if tolerate:
                sim.count('heuristic-failed')
                return 'failed'
            raise
        sim.check(len(doc.bundles) == len(before), 'sentences', lambda: f'{name}: {len(before)} sentences became {len(doc.bundles)}')
        after = self.snaps(doc)
        for i, (tree, b, a) in enumerate(zip(doc.trees, before, after)):
            wrong = wellformed(tree)
            sim.check(wrong is None, 'well-formed', lambda: f'{name}: sentence {b.id}: {wrong}')
            if model is not None:
                expected = model(b, a)
                if isinstance(expected, Snap):
                    x, y = a.renamed(b_names(b)), expected.renamed(b_names(b))
                    sim.check(x == y, 'effect', lambda: f'{name}: sentence {b.id} ({self.before_text(b)!r}): {difference(x, y)}')
                elif expected is not None:
                    raise Violation('effect', f'{name}: sentence {b.id} ({self.before_text(b)!r}): {expected}')
            if a.renamed(b_names(b)) != b.renamed(b_names(b)):
                sim.state([name, [a.seq.index(a.parent[w]) if a.parent[w] != ROOT else -1 for w in a.words], [x in a.parent for x in a.seq], [[a.seq.index(x) for x in m[2]] for m in a.mwts]])
        if solo:
            now = self.positions(doc)
            for i, (x, y) in enumerate(zip(alone, now)):
                if x is None or x == 'failed':
                    sim.check(x is None or tolerate, 'sentence-alone', lambda: f'{name}: fails on sentence {i} alone, but not in the document')
                    continue
                x['newdoc'] = y['newdoc'] = None
                x['comment'], y['comment'] = plain_comment(x['comment']), plain_comment(y['comment'])
                sim.check(x == y, 'sentence-alone', lambda: f'{name}: sentence {y["id"]} in the document: {difference(y, x)} (what it is if processed alone)')
        self.storable(doc, name)
        return 'done'

    @staticmethod
    def single(tree):
        from udapi.block.write.conllu import Conllu
        from udapi.core.document import Document
        text = tree.document.to_conllu_string()
        parts = text.split('\n\n')
        index = [t for t in tree.document.trees].index(tree)
        return parts[index] + '\n\n'

    def fits(self, one, tree):
        return len(list(one.trees)) == 1 and list(one.trees)[0].sent_id == tree.sent_id

    @staticmethod
    def before_text(b):
        return ' '.join(('[' + str(b.attr[x]['form']) + ']' if x not in b.parent else str(b.attr[x]['form'])) for x in b.seq)[:150]

    # -------------------------------------------------------------------------------------------- operations
    def run(self):
        for op in self.plan['ops']:
            self.sim.log('op', op)
            doc = self.docs[op[1] % len(self.docs)]
            if not list(doc.trees):
                continue
            out = getattr(self, 'op_' + op[0])(doc, *op[2:])
            self.sim.time += 1
            self.sim.nontrivial = True
            if out == 'failed':
                break

    def op_restart(self, doc, a, b, c):
        i = self.docs.index(doc)
        self.docs[i] = self.storable(doc, 'restart')
        self.sim.probe('restart')
        self.sim.fault('document replaced by its stored copy')

    def op_text(self, doc, a, b, c):
        import random
        trees = list(doc.trees)
        t = trees[a % len(trees)]
        right = Snap(t, self.name).computed()
        t.text = [None, right, alter(random.Random(b), right), alter(random.Random(b), right), right.replace(' ', ''), '  '.join(right.split(' '))][c % 6] or None

    def op_edit(self, doc, a, b, c):
        trees = list(doc.trees)
        t = trees[a % len(trees)]
        words = t.descendants
        if not words:
            return
        w = words[b % len(words)]
        kind = c % 9
        if kind == 0:
            w.misc['JoinToken'] = ['Yes', '1'][c // 9 % 2]
            p = w.prev_node
            if p and not p.is_root() and p.multiword_token is None and w.multiword_token is None and c // 18 % 4:
                p.misc['SpaceAfter'] = 'No'
        elif kind == 1:
            w.form = WORDS[c // 9 % len(WORDS)]
        elif kind == 2:
            t.create_child(form=TOKENS[c // 9 % len(TOKENS)], upos='PUNCT', lemma='x', deprel='punct').shift_after_node(w)
            if w.multiword_token:
                new = w.next_node
                if new.next_node and new.next_node.multiword_token is w.multiword_token:
                    new.remove()
        elif kind == 3:
            if w.multiword_token is None:
                w.misc['SpaceAfter'] = ['No', ''][c // 9 % 2]
        elif kind == 4:
            if w.multiword_token is None:
                w.form = f'{w.form}_{w.form}'
                w.lemma = w.form if c // 9 % 2 else None
        elif kind == 5:
            w.create_empty_child('dep', after=bool(c // 9 % 2), form='E')
        elif kind == 6:
            k = w.next_node
            if k is not None and w.multiword_token is None and k.multiword_token is None:
                t.create_multiword_token([w, k], f'{w.form} {k.form}' if c // 9 % 2 else f'{w.form}{k.form}', 'SpaceAfter=No' if c // 18 % 2 else None)
        elif kind == 7:
            p = words[c // 9 % len(words)]
            if p is not w and not p.is_descendant_of(w):
                w.parent = p
        else:
            w.misc['OrigForm'] = 'orig'

    # ---- multi-word tokens
    def op_addmwt(self, doc, a, b, c):
        salt = a % 5
        key = ('drawn', salt)
        if key not in self.blocks:
            self.blocks[key] = DrawnMwt.make(salt)
        block = self.blocks[key]
        self.sim.probe('addmwt')
        out = self.apply('ud.AddMwt', doc, block, lambda: DrawnMwt.make(salt), lambda before, after: self.model_addmwt(before, block))
        return out

    def model_addmwt(self, b, block):
        s = clone(b)
        text = s.computed()
        for w in b.words:
            class N:
                form = s.attr[w]['form']
            an = block.multiword_analysis(N)
            if an is None:
                continue
            at = s.attr[w]
            forms = an['form'].split()
            main = an.get('main', 0)
            orig = {k: at[k] for k in PLAIN}
            ofeats, omisc, tmisc = dict(at['feats']), dict(at['misc']), dict(at['misc'])
            parent = w if an.get('shape') == 'subtree' else s.parent[w]
            group = []
            for i, f in enumerate(forms):
                if i == main:
                    group.append(w)
                    at['form'] = f
                    continue
                new = f'x{len(s.seq)}.{w}.{i}'
                if i < main:
                    s.insert(new, w, False, parent, form=f)
                else:
                    s.insert(new, group[-1], True, parent, form=f)
                group.append(new)
            if orig['form'].isupper():
                for x in group:
                    s.attr[x]['form'] = s.attr[x]['form'].upper()
            elif orig['form'][0].isupper():
                s.attr[group[0]]['form'] = s.attr[group[0]]['form'].title()
            at['misc'] = {}
            for k in ('lemma', 'upos', 'xpos', 'deprel'):
                if k in an:
                    for x, v in zip(group, an[k].split()):
                        s.attr[x][k] = orig[k] if v == '*' else v
            if 'feats' in an:
                for x, v in zip(group, an['feats'].split()):
                    if v == '*':
                        s.attr[x]['feats'] = dict(ofeats)
                    elif v == '_':
                        s.attr[x]['feats'] = {}
                    else:
                        d = dict(y.split('=') for y in v.split('|'))
                        s.attr[x]['feats'] = {q: (ofeats.get(q, '') if z == '*' else z) for q, z in d.items()}
                        s.attr[x]['feats'] = {q: z for q, z in s.attr[x]['feats'].items() if z}
            if 'misc' in an:
                for x, v in zip(group, an['misc'].split()):
                    if v == '*':
                        s.attr[x]['misc'] = {q: z for q, z in omisc.items() if q != 'SpaceAfter'}
                        tmisc = {q: z for q, z in omisc.items() if q == 'SpaceAfter'}      # nothing is both at the word and at the token
            if tmisc.get('Entity'):
                s.attr[group[0]]['misc']['Entity'] = tmisc.pop('Entity')
            old = s.mwt(w)
            form = orig['form']
            if old is not None:
                form = old[0]
                tmisc.update(old[1])
                s.mwts.remove(old)
                i = old[2].index(w)
                group = old[2][:i] + group + old[2][i + 1:]
                self.sim.probe('addmwt-in-mwt')
            s.mwts.append([form, tmisc, group])
        if s.computed() != text:
            raise AssertionError('the model changed the text')
        return s

    def op_addlang(self, doc, a, b, c):
        name = f'ud.{LANGS[a % len(LANGS)]}.AddMwt'
        self.sim.probe('addmwt-lang')

        def model(before, after):
            if after.computed() != before.computed():
                return f'text of the tokens {after.computed()!r}, it was {before.computed()!r}'
            return kept(before, after)
        return self.apply(name, doc, self.block(name, {}), lambda: make(name, {}), model, tolerate=True)

    def op_removemwt(self, doc, a, b, c):
        def model(before, after):
            s = clone(before)
            for m in list(s.mwts):
                first = m[2][0]
                feats = {}
                for w in m[2]:
                    feats.update(s.attr[w]['feats'])
                s.attr[first]['form'], s.attr[first]['misc'], s.attr[first]['feats'] = m[0], dict(m[1]), feats
                s.mwts.remove(m)
                for w in m[2][1:]:
                    s.remove_rehang(w)
                self.sim.probe('removemwt')
            return s
        return self.apply('ud.RemoveMwt', doc, self.block('ud.RemoveMwt', {}), lambda: make('ud.RemoveMwt', {}), model)

    def op_joinasmwt(self, doc, a, b, c):
        args = [{}, {'revert_orig_form': 0}][a % 2]

        def model(before, after):
            s = clone(before)
            for w in before.words:
                if s.mwt(w):
                    continue
                group = [w]
                while True:
                    x = group[-1]
                    i = s.words.index(x)
                    if s.attr[x]['misc'].get('SpaceAfter') != 'No' or i + 1 == len(s.words):
                        break
                    y = s.words[i + 1]
                    if s.mwt(y) or not s.attr[x]['form'][-1:].isalpha() or not s.attr[y]['form'][:1].isalpha():
                        break
                    group.append(y)
                if len(group) > 1:
                    s.mwts.append([''.join(s.attr[x]['form'] for x in group), {'SpaceAfter': 'No'} if s.attr[group[-1]]['misc'].get('SpaceAfter') == 'No' else {}, group])
                    for x in group:
                        s.attr[x]['misc'].pop('SpaceAfter', None)
                        if not args and s.attr[x]['misc'].get('OrigForm'):
                            s.attr[x]['form'] = s.attr[x]['misc'].pop('OrigForm')
                    self.sim.probe('joinasmwt')
            return s
        return self.apply('ud.JoinAsMwt', doc, self.block('ud.JoinAsMwt', args), lambda: make('ud.JoinAsMwt', args), model)

    def op_fixmwtspace(self, doc, a, b, c):
        def model(before, after):
            s = clone(before)
            for m in list(s.mwts):
                if ' ' in m[0] and ' '.join(s.attr[x]['form'] for x in m[2]) == m[0]:
                    s.mwts.remove(m)
                    if m[1].get('SpaceAfter') == 'No':
                        s.attr[m[2][-1]]['misc']['SpaceAfter'] = 'No'
                    self.sim.probe('fixmwtspace')
            if s.computed() != before.computed():
                raise AssertionError('the model changed the text')
            return s
        return self.apply('ud.FixMwtSpace', doc, self.block('ud.FixMwtSpace', {}), lambda: make('ud.FixMwtSpace', {}), model)

    # ---- joining and splitting words
    def op_jointoken(self, doc, a, b, c):
        for t in doc.trees:
            for n in t.descendants:
                if n.misc['JoinToken'] and (n.deps or (n.prev_node and n.prev_node.deps)):
                    return None
        args = [{}, {}, {'misc_value': 'Yes'}, {'misc_value': 1}][a % 4]

        def model(before, after):
            s = clone(before)
            for w in before.words:
                value = s.attr[w]['misc'].get('JoinToken')
                if not value or ('misc_value' in args and value != str(args['misc_value'])):
                    continue
                i = s.words.index(w)
                if i == 0 or s.mwt(w) or s.mwt(s.words[i - 1]):
                    s.attr[w]['misc']['Bug'] = 'JoiningTokenNotSupportedHere'
                    self.sim.probe('jointoken-refused')
                    continue
                p = s.words[i - 1]
                if s.attr[p]['misc'].get('SpaceAfter') != 'No':
                    s.attr[w]['misc']['Bug'] = 'JoiningTokensWithSpaceNotSupported'
                    self.sim.probe('jointoken-refused')
                    continue
                self.sim.probe('jointoken')
                if p in s.subtree(w):
                    s.parent[p] = s.parent[w]
                    s.attr[p]['deprel'] = s.attr[w]['deprel']
                for x in s.words:
                    if s.parent[x] == w:
                        s.parent[x] = p
                s.attr[p]['form'] += s.attr[w]['form']
                s.attr[p]['misc'].pop('SpaceAfter')
                if s.attr[w]['misc'].get('SpaceAfter'):
                    s.attr[p]['misc']['SpaceAfter'] = s.attr[w]['misc']['SpaceAfter']
                s.drop(w)
            return s
        return self.apply('ud.JoinToken', doc, self.block('ud.JoinToken', args), lambda: make('ud.JoinToken', args), model)

    def op_underscore(self, doc, a, b, c):
        args = [{}, {}, {'deprel': 'fixed'}, {'lemma': 'form'}, {'default_deprel': 'compound'}][a % 5]

        def model(before, after):
            s = clone(before)
            for w in before.words:
                at = s.attr[w]
                if at['form'] == '_' or '_' not in at['form']:
                    continue
                forms = at['form'].split('_')
                if not all(forms):
                    continue
                lemma = at['form'] if args.get('lemma') == 'form' else at['lemma']
                lemmas = ['_'] * len(forms) if lemma in (None, '_') else lemma.split('_')
                if len(lemmas) != len(forms):
                    if args.get('lemma') == 'form':
                        at['lemma'] = lemma
                    continue
                up = at['upos']
                rel = args.get('deprel') or ('flat' if up == 'PROPN' else 'fixed' if up in ('ADP', 'AUX', 'CCONJ', 'DET', 'PART', 'PRON', 'SCONJ') else args.get('default_deprel', 'flat'))
                last = w
                group = [w]
                for f, le in list(zip(forms, lemmas))[1:]:
                    new = f'x{len(s.seq)}.{w}'
                    s.insert(new, last, True, w, form=f, lemma=le, upos=up, xpos=at['xpos'], deprel=rel)
                    group.append(new)
                    last = new
                at['form'], at['lemma'] = forms[0], lemmas[0]
                m = s.mwt(w)
                self.sim.probe('underscore')
                if m is not None:
                    i = m[2].index(w)
                    m[2][i:i + 1] = group
                    self.sim.probe('underscore-mwt')
                elif at['misc'].get('SpaceAfter') == 'No':
                    del at['misc']['SpaceAfter']
                    s.attr[last]['misc']['SpaceAfter'] = 'No'
            return s
        return self.apply('ud.SplitUnderscoreTokens', doc, self.block('ud.SplitUnderscoreTokens', args), lambda: make('ud.SplitUnderscoreTokens', args), model)

    # ---- spaces and text
    def op_spaceafter(self, doc, a, b, c):
        name = ['ud.SetSpaceAfter', 'ud.SetSpaceAfter', 'ud.en.SetSpaceAfter'][a % 3]
        args = [{}, {}, {'fix_text': 0}, {'extra_not_before': 'a b'}][b % 4]

        def model(before, after):
            s = clone(before)
            changed = False
            for form, misc, m, w in s.tokens():
                now = (after.mwt(w) or [0, {}])[1] if m else after.attr.get(w, {}).get('misc', {})
                if now.get('SpaceAfter') == 'No' and misc.get('SpaceAfter') != 'No':
                    misc['SpaceAfter'] = 'No'
                    changed = True
            self.sim.probe('spaceafter')
            if changed and args.get('fix_text', 1):
                s.text = s.computed()
            elif args.get('fix_text', 1) and after.text != before.text and after.text == s.computed():
                s.text = after.text
            return s
        return self.apply(name, doc, self.block(name, args), lambda: make(name, args), model)

    def op_fromtext(self, doc, a, b, c):
        if any(t.text is None for t in doc.trees):
            return None

        def model(before, after):
            s = clone(before)
            for x in s.seq:
                if x not in s.parent:
                    s.attr[x]['misc'].pop('SpaceAfter', None)
            text = ' '.join(s.text.split())
            if s.text == s.computed():
                return s
            rest, good = text, True
            marks = []
            for form, misc, _, _ in s.tokens():
                if not rest.startswith(form):
                    good = False
                    break
                rest = rest[len(form):]
                marks.append(bool(rest) and not rest.startswith(' '))
                rest = rest.lstrip()
            for (form, misc, _, _), no in zip(s.tokens(), marks):
                misc.pop('SpaceAfter', None)
                if no:
                    misc['SpaceAfter'] = 'No'
            if good and not rest:
                self.sim.probe('fromtext')
                if s.computed() != text:
                    raise AssertionError(f'the model does not give the text {text!r} {s.computed()!r}')
            if ' '.join(before.text.split()) != before.text.strip():     # other kinds of spaces inside of forms
                if any(ch.isspace() for f, _, _, _ in s.tokens() for ch in f):
                    return None
            return s
        return self.apply('ud.SetSpaceAfterFromText', doc, self.block('ud.SetSpaceAfterFromText', {}), lambda: make('ud.SetSpaceAfterFromText', {}), model)

    def op_goeswith(self, doc, a, b, c):
        if any(t.text is None for t in doc.trees):
            return None
        args = [{}, {'keep_lemma': 1}][a % 2]

        def model(before, after):
            s = clone(before)
            if s.text == s.computed() or s.text.replace(' ', '') != s.computed().replace(' ', ''):
                return s
            if any(m and ' ' in f or ' ' in f for f, _, m, _ in s.tokens()):
                return None
            text = ' '.join(s.text.split())
            tokens = s.tokens()
            # cut the text into the pieces of the tokens
            for form, misc, m, w in tokens:
                k = left = 0
                while left < len(form):
                    left += text[k] != ' '
                    k += 1
                raw, text = text[:k], text[k:]
                glued = bool(text) and not text.startswith(' ')
                text = text.lstrip()
                pieces = raw.split(' ')
                if m is not None and len(pieces) > 1:
                    if glued:
                        misc['SpaceAfter'] = 'No'
                    else:
                        misc.pop('SpaceAfter', None)
                    continue
                misc.pop('SpaceAfter', None)
                last = misc
                if len(pieces) > 1:
                    at = s.attr[w]
                    at['form'] = pieces[0]
                    if not args:
                        at['lemma'] = pieces[0].lower()
                    prev = w
                    for p in pieces[1:]:
                        new = f'x{len(s.seq)}.{w}'
                        s.insert(new, prev, True, w, form=p, lemma=None if args else p, upos=at['upos'], xpos=at['xpos'], deprel='goeswith')
                        prev = new
                    last = s.attr[prev]['misc']
                    self.sim.probe('goeswith')
                if glued:
                    last['SpaceAfter'] = 'No'
            return s
        return self.apply('ud.GoeswithFromText', doc, self.block('ud.GoeswithFromText', args), lambda: make('ud.GoeswithFromText', args), model)

    def op_comply(self, doc, a, b, c):
        if any(t.text is None for t in doc.trees):
            return None
        args = [{}, {}, {'prefer_mwt': 0}, {'fix_text': 0}, {'allow_goeswith': 0}, {'allow_delete_punct': 0}, {'allow_add_punct': 0}, {'max_mwt_length': 2}, {'previous_form_label': ''},
                {'previous_text_label': 'Was', 'added_label': 'New', 'previous_form_label': 'Prev'}, {'allow_hyphen_goeswith': 0}][a % 11]
        flabel, tlabel = args.get('previous_form_label', 'CorrectForm'), args.get('previous_text_label', 'OrigText')
        alabel = args.get('added_label', 'Added')
        fix = args.get('fix_text', 1)

        def model(b, s):
            norm = ' '.join(b.text.split())
            comments = [x for x in (b.comment or '').split('\n')]
            if fix:
                if s.text != s.computed():
                    return f'text {s.text!r}, the tokens give {s.computed()!r}'
                if s.text != b.text and tlabel and f'{tlabel} = {b.text}'.rstrip() not in [x.strip() if x.strip() == x else x.lstrip().rstrip() for x in (s.comment or '').split('\n')]:
                    return f'the text {b.text!r} is lost, comments are {s.comment!r}'
            elif s.text != b.text:
                return f'text changed in spite of fix_text=0: {s.text!r}'
            if norm == b.computed():
                x = clone(b)
                x.text, x.comment = s.text, s.comment
                return x
            if s.computed() == norm:
                self.sim.probe('comply')
            else:
                self.sim.probe('comply-fixed')
            kept_words = [w for w in b.words if w in s.parent]
            if [w for w in s.words if w in b.parent] != kept_words or [x for x in s.seq if x not in s.parent] != [x for x in b.seq if x not in b.parent]:
                return 'order of the words'
            lost = [w for w in b.words if w not in s.parent]
            if lost:
                self.sim.probe('comply-deleted')
                punct = lambda f: all(unicodedata.category(ch)[0] == 'P' for ch in f)
                if 'allow_delete_punct' in args or not all(punct(b.attr[w]['form']) or (b.mwt(w) and punct(b.mwt(w)[0])) for w in lost):
                    return f'the words {[b.attr[w]["form"] for w in lost]} are lost'
            for w in kept_words:
                x, y = b.attr[w], s.attr[w]
                for k in ('lemma', 'upos', 'xpos', 'deprel'):
                    if x[k] != y[k]:
                        return f'{k} of {x["form"]!r} is {y[k]!r}, it was {x[k]!r}'
                plain = lambda d, *drop: {k: v for k, v in d.items() if k not in drop}
                if plain(x['feats'], 'Typo') != plain(y['feats'], 'Typo') or plain(x['misc'], 'SpaceAfter', flabel) != plain(y['misc'], 'SpaceAfter', flabel):
                    return f'features or MISC of {x["form"]!r} changed'
                if x['form'] != y['form'] and flabel and x['form'] not in ("''", '``') and y['misc'].get(flabel) != x['form']:
                    return f'form {x["form"]!r} changed to {y["form"]!r}, but {flabel}={y["misc"].get(flabel)!r}'
                if x['form'] == y['form'] and not (b.mwt(w) or s.mwt(w)) and y['misc'].get(flabel) != x['misc'].get(flabel):
                    return f'form {x["form"]!r} did not change, but {flabel}={y["misc"].get(flabel)!r}'
                want = [[p, d] for p, d in b.deps[w] if p not in lost]
                if s.deps[w] != want:
                    return f'enhanced dependencies of {x["form"]!r}'
                p = b.parent[w]
                while p in lost:
                    p = b.parent[p]
                if s.parent[w] != p:
                    return f'parent of {x["form"]!r} changed'
            for w in s.words:
                if w in b.parent:
                    continue
                at = s.attr[w]
                if at['deprel'] == 'punct' and at['upos'] == 'PUNCT' and at['misc'].get(alabel) and 'allow_add_punct' not in args:
                    self.sim.probe('comply-added')
                elif at['deprel'] == 'goeswith' and at['upos'] == 'X' and 'allow_goeswith' not in args:
                    self.sim.probe('comply-goeswith')
                else:
                    return f'new word {at}'
            for m in s.mwts:
                if m[2][0] not in sum((x[2] for x in b.mwts), []):
                    self.sim.probe('comply-mwt')
                    if len(m[2]) > args.get('max_mwt_length', 4):
                        return f'new multi-word token of {len(m[2])} words'
            return None
        return self.apply('ud.ComplyWithText ' + str(args), doc, self.block('ud.ComplyWithText', args), lambda: make('ud.ComplyWithText', args), model)

    # ---- annotation blocks
    def op_annot(self, doc, a, b, c):
        name, variants = ANNOT[a % len(ANNOT)]
        args = variants[b % len(variants)]
        self.sim.probe('annot')

        def model(before, after):
            if after.seq != before.seq:
                return f'nodes {[after.attr[x]["form"] for x in after.seq]}'
            for k in before.seq:
                if after.attr[k]['form'] != before.attr[k]['form']:
                    return f'form {before.attr[k]["form"]!r} became {after.attr[k]["form"]!r}'
                if after.attr[k]['misc'].get('SpaceAfter') != before.attr[k]['misc'].get('SpaceAfter'):
                    return f'SpaceAfter of {before.attr[k]["form"]!r} changed'
            if [m[0] for m in after.mwts] != [m[0] for m in before.mwts] or [m[2] for m in after.mwts] != [m[2] for m in before.mwts]:
                return f'multi-word tokens {after.mwts}'
            for k in ('id', 'text', 'newdoc', 'newpar'):
                if getattr(after, k) != getattr(before, k):
                    return f'{k} {getattr(after, k)!r}, it was {getattr(before, k)!r}'
            return None
        return self.apply(f'{name} {args}', doc, self.block(name, args), lambda: make(name, args), model, tolerate=True)


def plain_comment(comment):
    """Without the marks of the places where sent_id, text etc. belong."""
    return [line.strip() for line in comment.split('\n') if not line.startswith('$') and line.strip()]


def b_names(b):
    return set(b.seq)


def clone(b):
    s = Snap()
    s.id, s.text, s.comment, s.newdoc, s.newpar = b.id, b.text, b.comment, b.newdoc, b.newpar
    s.seq = list(b.seq)
    s.attr = {k: {a: (dict(v) if isinstance(v, dict) else v) for a, v in d.items()} for k, d in b.attr.items()}
    s.parent = dict(b.parent)
    s.deps = {k: [list(d) for d in v] for k, v in b.deps.items()}
    s.mwts = [[f, dict(m), list(w)] for f, m, w in b.mwts]
    return s


def kept(before, after):
    """The old nodes are still there in order, with their enhanced dependencies."""
    if [x for x in after.seq if x in before.attr] != before.seq:
        return 'order of the words'
    for x in before.seq:
        if after.deps[x] != before.deps[x]:
            return f'enhanced dependencies of {before.attr[x]["form"]!r}'
    return None


def execute(plan, sim):
    Machine(plan, sim).run()
