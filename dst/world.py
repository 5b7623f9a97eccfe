"""A world of documents edited by interleaved clients, with structural invariants and an executable reference model.

The model is deliberately naive: a tree is a sequence of names (words and empty nodes in surface order), a parent map,
enhanced dependencies as (name, relation) pairs bound to nodes (never to positions), and a list of multi-word tokens.
"""
import io

from dst import core, gen
from dst.core import Violation

SHIFTS = ('shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree')


class MTree:
    """Reference model of one tree."""

    def __init__(self):
        self.seq = []        # names of words and empty nodes in order
        self.parent = {}     # word -> word or 'ROOT'
        self.deps = {}       # name -> list of [target name, relation]
        self.mwts = []       # list of [form, [words], misc set]
        self.attr = {}       # name -> dict of public attributes

    def words(self):
        return [x for x in self.seq if x in self.parent]

    def empties(self):
        return [x for x in self.seq if x not in self.parent]

    def children(self, p):
        return [w for w in self.words() if self.parent[w] == p]

    def subtree(self, w):
        todo, out = [w], set()
        while todo:
            x = todo.pop()
            out.add(x)
            todo.extend(self.children(x))
        return out

    def mwt_of(self, w):
        for m in self.mwts:
            if w in m[1]:
                return m
        return None


def misc_pairs(obj):
    return sorted((k, str(v)) for k, v in obj.misc.items())


class World:
    def __init__(self, sim, texts, model=True):
        from udapi.core.document import Document
        from udapi.core.root import Root
        self.sim = sim
        self.Document, self.Root = Document, Root
        self.docs, self.trees, self.models = [], [], []
        self.names, self.keep, self.objs = {}, [], {}
        self.counter = 0
        self.steps = 0
        self.use_model = model
        self.iters = {}
        self.removed = []
        for text in texts:
            doc = Document()
            doc.from_conllu_string(text)
            self.docs.append(doc)
            for tree in doc.trees:
                self.trees.append(tree)
                for n in list(tree.descendants) + list(tree.empty_nodes):
                    self.register(n)
        for tree in self.trees:
            self.models.append(self.observe_model(tree) if model else None)

    # --- names -------------------------------------------------------------------------------------------
    def register(self, node, name=None):
        self.counter += 1
        name = name or f"{'e' if node.is_empty() else 'w'}{self.counter}"
        self.keep.append(node)
        self.names[id(node)] = name
        self.objs[name] = node
        return name

    def name(self, node):
        if node is None:
            return None
        if node.is_root():
            for i, t in enumerate(self.trees):
                if t is node:
                    return f'ROOT{i}'
            return 'ROOT?'
        return self.names.get(id(node), '?unknown')

    def fresh(self):
        return f'n{self.counter + 1}'

    # --- observation -------------------------------------------------------------------------------------
    def attrs(self, n):
        return {'form': n.form, 'lemma': n.lemma, 'upos': n.upos, 'xpos': n.xpos, 'deprel': n.deprel, 'feats': str(n.feats),
                'misc': misc_pairs(n)}

    def observe_model(self, tree):
        m = MTree()
        for n in sorted(list(tree.descendants) + list(tree.empty_nodes), key=lambda x: x.ord):
            name = self.name(n)
            m.seq.append(name)
            if not n.is_empty():
                m.parent[name] = 'ROOT' if n.parent is tree else self.name(n.parent)
            m.deps[name] = [[self.name(d['parent']), d['deprel']] for d in n.deps]
            m.attr[name] = self.attrs(n)
        for t in tree.multiword_tokens:
            m.mwts.append([t.form, [self.name(w) for w in t.words], misc_pairs(t)])
        return m

    # --- invariants (P01) --------------------------------------------------------------------------------
    def invariants(self, ti):
        tree, sim, nm = self.trees[ti], self.sim, self.name
        chk = sim.check
        words = list(tree.descendants)
        chk([n.ord for n in words] == list(range(1, len(words) + 1)), 'ords-1-to-n',
            lambda: f'tree {ti}: ords of the words are {[n.ord for n in words]}')
        chk(len({id(n) for n in words}) == len(words), 'word-listed-once', lambda: f'tree {ti}: a word is listed twice')
        reach, todo = {}, [tree]
        while todo:
            n = todo.pop()
            kids = list(n.children)
            chk([c.ord for c in kids] == sorted(c.ord for c in kids), 'children-sorted', lambda: f'tree {ti}: children of {nm(n)} are not in order')
            for c in kids:
                chk(id(c) not in reach, 'one-parent', lambda: f'tree {ti}: {nm(c)} is reachable twice')
                chk(c.parent is n, 'parent-child', lambda: f'tree {ti}: {nm(c)} is a child of {nm(n)} but its parent is {nm(c.parent)}')
                reach[id(c)] = c
                todo.append(c)
        chk(set(reach) == {id(n) for n in words}, 'reachable',
            lambda: f'tree {ti}: reachable {sorted(nm(x) for x in reach.values())}, listed {sorted(nm(x) for x in words)}')
        chk(tree.parent is None and tree.ord == 0 and tree.is_root() and tree.form == '<ROOT>', 'root', lambda: f'tree {ti}: technical root damaged')
        up = {}
        for n in words:
            chk(n.root is tree, 'root-of-word', lambda: f'tree {ti}: root of {nm(n)} is another tree')
            anc, x = [], n.parent
            while x is not None and len(anc) <= len(words):
                anc.append(x)
                x = x.parent
            chk(bool(anc) and anc[-1] is tree, 'climb-to-root', lambda: f'tree {ti}: climbing from {nm(n)} does not end in the root')
            up[id(n)] = {id(x) for x in anc}
        for n in [tree] + words:
            desc = [w for w in words if n is tree or id(n) in up[id(w)]]
            got = list(n.descendants)
            chk(len(got) == len(desc) and all(a is b for a, b in zip(got, desc)), 'descendants',
                lambda: f'tree {ti}: descendants of {nm(n)} are {[nm(x) for x in got]}, expected {[nm(x) for x in desc]}')
            chk({id(x) for x in n.unordered_descendants()} == {id(x) for x in desc} and len(list(n.unordered_descendants())) == len(desc),
                'unordered-descendants', lambda: f'tree {ti}: unordered descendants of {nm(n)}')
            chk(n.is_leaf() == (not desc), 'is-leaf', lambda: f'tree {ti}: is_leaf of {nm(n)}')
            with_self = n.descendants(add_self=True)
            chk([id(x) for x in with_self] == [id(x) for x in [tree] * (n is tree) + [w for w in words if w is n or any(w is d for d in desc)]],
                'descendants-add-self', lambda: f'tree {ti}: descendants(add_self) of {nm(n)}')
        for i, n in enumerate(words):
            prev, nxt = (words[i - 1] if i else tree), (words[i + 1] if i + 1 < len(words) else None)
            chk(n.prev_node is prev and n.next_node is nxt, 'prev-next', lambda: f'tree {ti}: neighbours of {nm(n)}')
            sib = [x for x in n.parent.children if x is not n]
            got = list(n.siblings)
            chk(len(got) == len(sib) and all(a is b for a, b in zip(got, sib)), 'siblings', lambda: f'tree {ti}: siblings of {nm(n)}')
            j = (i * 7 + 3) % len(words)
            chk(bool(n.is_descendant_of(words[j])) == (id(words[j]) in up[id(n)]), 'is-descendant-of',
                lambda: f'tree {ti}: is_descendant_of({nm(n)}, {nm(words[j])})')
            if j != i:
                from udapi.core.node import find_minimal_common_treelet
                trio = [n, words[j]] + ([words[(j + 1) % len(words)]] if (j + 1) % len(words) not in (i, j) else [])
                common = [x for x in [tree] + words if all(x is y or id(x) in up[id(y)] for y in trio)]
                lowest = max(common, key=lambda x: len(up.get(id(x), ())))
                inner = {id(x) for x in [tree] + words if any(x is y or id(x) in up[id(y)] for y in trio) and (x is lowest or id(lowest) in up.get(id(x), ()))}
                high, added = find_minimal_common_treelet(*trio)
                chk(high is lowest, 'common-treelet', lambda: f'tree {ti}: highest node of the treelet of {[nm(x) for x in trio]} is {nm(high)}, expected {nm(lowest)}')
                chk({id(x) for x in added} == inner - {id(x) for x in trio}, 'common-treelet', lambda: f'tree {ti}: nodes added to the treelet of {[nm(x) for x in trio]}: {[nm(x) for x in added]}')
            chk(n.precedes(words[j]) == (i < j) and (n < words[j]) == (i < j), 'precedes', lambda: f'tree {ti}: precedes of {nm(n)}')
        if words:       # one node at a time is compared with the definitions of all relations
            self.relations(ti, words, words[(self.steps + ti) % len(words)], up)
            self.steps += 1
        self.empty_invariants(ti, words)
        # multi-word tokens
        seen = {}
        for t in tree.multiword_tokens:
            chk(len(t.words) > 0, 'mwt-has-words', lambda: f'tree {ti}: multi-word token {t.form} without words')
            chk(t.root is tree, 'mwt-root', lambda: f'tree {ti}: multi-word token {t.form} belongs to another tree')
            for w in t.words:
                chk(any(w is x for x in words), 'mwt-word-present', lambda: f'tree {ti}: multi-word token {t.form} lists {nm(w)}, which is not in the tree')
                chk(id(w) not in seen, 'mwt-overlap', lambda: f'tree {ti}: {nm(w)} is listed in two multi-word tokens')
                chk(w.multiword_token is t, 'mwt-backref', lambda: f'tree {ti}: {nm(w)} does not know its multi-word token')
                seen[id(w)] = t
        for w in words:
            if id(w) not in seen:
                chk(w.multiword_token is None, 'mwt-backref', lambda: f'tree {ti}: {nm(w)} claims a multi-word token that does not list it')
        for t in tree.multiword_tokens:
            o = sorted(w.ord for w in t.words)
            chk([w.ord for w in t.words] == o, 'mwt-words-in-order', lambda: f'tree {ti}: words of {t.form} are listed as {[nm(w) for w in t.words]}')
            if o != list(range(o[0], o[0] + len(o))):
                break
        else:   # token sequence: each word exactly once, in order
            flat = [w for tok in tree.token_descendants for w in sorted(tok.words, key=lambda x: x.ord)]
            chk([id(w) for w in flat] == [id(w) for w in words], 'token-descendants', lambda: f'tree {ti}: tokens cover {[nm(w) for w in flat]}')
        # nothing refers to what was removed
        present = {id(n) for n in words} | {id(e) for e in tree.empty_nodes} | {id(tree)}
        for n in words + list(tree.empty_nodes):
            for d in n.deps:
                chk(id(d['parent']) in present, 'deps-target-present',
                    lambda: f"tree {ti}: enhanced dependency of {nm(n)} refers to {nm(d['parent'])}, which is not in the tree")

    def relations(self, ti, words, n, up):
        tree, chk, nm = self.trees[ti], self.sim.check, self.name
        below = lambda x, y: id(y) in up[id(x)]     # x is a descendant of y
        at = words.index(n)
        for what, plain in (('children', list(n.children)), ('descendants', list(n.descendants)), ('siblings', list(n.siblings))):
            listed = getattr(n, what)
            for own in (False, True):
                if own and what == 'siblings':
                    continue
                every = [w for w in words if any(w is x for x in plain) or (own and w is n)]
                for side in (None, 'preceding_only', 'following_only'):
                    exp = [w for i, w in enumerate(words) if any(w is x for x in every) and (side is None or i == at or (i < at) == (side == 'preceding_only'))]
                    if what == 'siblings' and side:
                        continue
                    got = listed(add_self=own, **({side: True} if side else {}))
                    chk([id(x) for x in got] == [id(x) for x in exp], 'call-options', lambda: f'tree {ti}: {what}(add_self={own}, {side}) of {nm(n)} are {[nm(x) for x in got]}, expected {[nm(x) for x in exp]}')
        parent = n.parent
        top = parent is tree
        depth, x = 0, n
        while x is not tree:
            depth, x = depth + 1, x.parent
        prev, nxt = (words[at - 1] if at else tree), (words[at + 1] if at + 1 < len(words) else None)
        exp = {'dir': 'root' if top else 'left' if n.ord < parent.ord else 'right', 'edge': str(0 if top else n.ord - parent.ord), 'children': str(len(list(n.children))), 'siblings': str(len(list(parent.children)) - 1),
               'depth': str(depth), 'p_depth': str(depth - 1), 'p_ord': str(parent.ord), 'l_ord': str(prev.ord)}
        got = dict(zip(exp, n.get_attrs(list(exp))))
        chk(got == exp, 'pseudo-attributes', lambda: f'tree {ti}: get_attrs of {nm(n)} yields {got}, expected {exp}')
        chk(n.get_attrs(['c_ord', 'r_ord']) == [str(c.ord) for c in n.children] + ([str(nxt.ord)] if nxt is not None else []), 'pseudo-attributes', lambda: f'tree {ti}: c_ord and r_ord of {nm(n)} are {n.get_attrs(["c_ord", "r_ord"])}')
        lo, hi = sorted((n.ord, parent.ord))
        crossing = not top and any(not below(w, parent) for w in words[lo:hi - 1])
        chk(bool(n.is_nonprojective()) == crossing, 'nonprojective', lambda: f'tree {ti}: is_nonprojective of {nm(n)} is {n.is_nonprojective()}')
        gap = False
        for w in words:
            if w is not n and not below(n, w):
                span = [i for i, y in enumerate(words) if y is w or below(y, w)]
                gap = gap or span[0] < at < span[-1]
        chk(bool(n.is_nonprojective_gap()) == gap, 'nonprojective-gap', lambda: f'tree {ti}: is_nonprojective_gap of {nm(n)} is {n.is_nonprojective_gap()}')

    def empty_invariants(self, ti, words):
        tree, chk, nm = self.trees[ti], self.sim.check, self.name
        empties = list(tree.empty_nodes)
        ords = [str(e.ord) for e in empties]
        for e, o in zip(empties, ords):
            parts = o.split('.')
            chk(len(parts) == 2 and all(p.isdigit() for p in parts) and parts[1] != '0' and 0 <= int(parts[0]) <= len(words),
                'empty-ord-valid', lambda: f'tree {ti}: empty node {nm(e)} has ord {o} among {len(words)} words')
            chk(e.root is tree and e.parent is None and e.is_empty(), 'empty-root', lambda: f'tree {ti}: root of empty node {nm(e)}')
        keys = [tuple(int(p) for p in o.split('.')) for o in ords]
        chk(all(a < b for a, b in zip(keys, keys[1:])), 'empty-ords-unique-sorted', lambda: f'tree {ti}: ords of empty nodes are {ords}')
        both = list(tree.descendants_and_empty)
        want = sorted([((w.ord, 0), w) for w in words] + list(zip(keys, empties)), key=lambda x: x[0])
        chk([id(x) for x in both] == [id(x) for _, x in want], 'descendants-and-empty',
            lambda: f'tree {ti}: words with empty nodes are {[nm(x) for x in both]}, expected {[nm(x) for _, x in want]}')

    # --- refinement (P02) --------------------------------------------------------------------------------
    def refine(self, ti):
        tree, m, chk, nm = self.trees[ti], self.models[ti], self.sim.check, self.name
        got = [nm(x) for x in sorted(list(tree.descendants) + list(tree.empty_nodes), key=lambda x: tuple(int(p) for p in (str(x.ord) + '.0').split('.')[:2]))]
        chk(got == m.seq, 'order', lambda: f'tree {ti}: order is {got}, documented effect gives {m.seq}')
        for w in m.words():
            p = self.objs[w].parent
            pn = 'ROOT' if p is tree else nm(p)
            chk(pn == m.parent[w], 'parents', lambda: f'tree {ti}: parent of {w} is {pn}, documented effect gives {m.parent[w]}')
        for x in m.seq:
            o = self.objs[x]
            d = [[nm(y['parent']), y['deprel']] for y in o.deps]
            chk(d == m.deps[x], 'enhanced-deps', lambda: f'tree {ti}: enhanced dependencies of {x} are {d}, documented effect gives {m.deps[x]}')
            a = self.attrs(o)
            chk(a == m.attr[x], 'attributes', lambda: f'tree {ti}: attributes of {x} are {a}, expected {m.attr[x]}')
        t = sorted([t.form, sorted(nm(w) for w in t.words), misc_pairs(t)] for t in tree.multiword_tokens)
        e = sorted([f, sorted(ws), mi] for f, ws, mi in m.mwts)
        chk(t == e, 'multi-word-tokens', lambda: f'tree {ti}: multi-word tokens are {t}, documented effect gives {e}')

    def refine_text(self, di):
        """The stored file says the same as the model."""
        doc = self.docs[di]
        chk = self.sim.check
        text = doc.to_conllu_string()
        blocks = [b for b in text.split('\n\n') if b.strip()]
        trees = list(doc.trees)
        chk(len(blocks) == len(trees), 'stored-trees', lambda: f'document {di}: {len(trees)} trees, stored {len(blocks)}')
        for tree, block in zip(trees, blocks):
            ti = next(i for i, t in enumerate(self.trees) if t is tree)
            m = self.models[ti]
            ids, c, k = {f'ROOT{ti}': '0'}, 0, 0
            for x in m.seq:
                if x in m.parent:
                    c, k = c + 1, 0
                    ids[x] = str(c)
                else:
                    k += 1
                    ids[x] = f'{c}.{k}'
            rows = [l.split('\t') for l in block.split('\n') if l and l[0] != '#']
            if not m.words():
                rows = [r for r in rows if r[9] != 'Empty=Yes']
            plain = [r for r in rows if '-' not in r[0]]
            # the fractional part of empty nodes is only required to be increasing; compare positions
            chk([r[1] for r in plain] == [('_' if m.attr[x]['form'] is None else m.attr[x]['form']) for x in m.seq], 'stored-order',
                lambda: f'tree {ti}: stored forms {[r[1] for r in plain]}')
            real = {}
            for r, x in zip(plain, m.seq):
                ok = r[0] == ids[x] if x in m.parent else r[0].split('.')[0] == ids[x].split('.')[0] and r[0].split('.')[1].isdigit()
                chk(ok, 'stored-ids', lambda: f'tree {ti}: {x} is stored with id {r[0]}, expected {ids[x]}')
                real[x] = r[0]
            real[f'ROOT{ti}'] = '0'
            chk(len(set(real.values())) == len(real), 'stored-ids-unique', lambda: f'tree {ti}: stored ids {sorted(real.values())}')
            for r, x in zip(plain, m.seq):
                if x in m.parent:
                    want = '0' if m.parent[x] == 'ROOT' else real[m.parent[x]]
                    chk(r[6] == want, 'stored-heads', lambda: f'tree {ti}: head of {x} is stored as {r[6]}, expected {want}')
                want = '|'.join(f'{real.get(h, "?" + str(h))}:{d}' for h, d in m.deps[x]) or '_'
                chk(r[8] == want, 'stored-deps', lambda: f'tree {ti}: enhanced dependencies of {x} are stored as {r[8]}, expected {want}')
            pos = {w: i for i, w in enumerate(m.words(), 1)}
            spans = [sorted(pos[w] for w in ws) for _, ws, _ in m.mwts]
            if all(s == list(range(s[0], s[0] + len(s))) for s in spans):
                want = sorted((f'{s[0]}-{s[-1]}', f) for (f, _, _), s in zip(m.mwts, spans))
                got = sorted((r[0], r[1]) for r in rows if '-' in r[0])
                chk(got == want, 'stored-mwts', lambda: f'tree {ti}: multi-word tokens are stored as {got}, expected {want}')
        return text

    # --- operations --------------------------------------------------------------------------------------
    def tree_i(self, k):
        return k % len(self.trees)

    def pick_word(self, ti, k, root=False):
        """Word number k (modulo) of a tree, or its root; None if there is no word."""
        words = list(self.trees[ti].descendants)
        if root:
            words = [self.trees[ti]] + words
        return words[k % len(words)] if words else None

    def apply(self, op):
        """Apply one operation.  Returns 'done', 'refused' or 'skip'."""
        handler = getattr(self, 'op_' + op[0])
        res = handler(*op[1:])
        self.sim.count(f'op:{op[0]}:{res}')
        self.sim.log(op, res)
        if res == 'refused':
            self.sim.nontrivial = True
        return res

    def must_refuse(self, what, fn, *args, **kw):
        try:
            fn(*args, **kw)
        except core.Violation:
            raise
        except Exception as e:   # pylint: disable=broad-except
            try:
                str(e)
            except Exception as e2:   # pylint: disable=broad-except
                raise Violation('refusal-message', f'{what}: the exception cannot be printed: {e2!r}')
            self.sim.count('oracle:must-refuse')
            self.sim.fault('refused: ' + what)
            return 'refused'
        raise Violation('must-refuse', f'{what} was not refused')

    def op_child(self, t, k, attrs=0):
        ti = self.tree_i(t)
        p = self.pick_word(ti, k, root=True)
        kw = {'form': self.fresh(), 'lemma': 'l'}
        if attrs & 1:
            kw.update(upos='NOUN', xpos='x', deprel='dep')
        if attrs & 2:
            kw.update(feats='Case=Nom', misc='Z=1|A=2')
        n = p.create_child(**kw)
        name = self.register(n)
        if self.use_model:
            m = self.models[ti]
            m.seq.append(name)
            # behind trailing empty nodes: the new word is the last one
            m.parent[name] = 'ROOT' if p.is_root() else self.name(p)
            m.deps[name] = []
            m.attr[name] = {'form': kw['form'], 'lemma': 'l', 'upos': kw.get('upos'), 'xpos': kw.get('xpos'), 'deprel': kw.get('deprel'),
                            'feats': kw.get('feats', '_'), 'misc': [('A', '2'), ('Z', '1')] if attrs & 2 else []}
        return 'done'

    def op_empty(self, t, k, after, fill=0):
        ti = self.tree_i(t)
        tree = self.trees[ti]
        if len(tree.empty_nodes) >= 30:
            return 'skip'
        p = self.pick_word(ti, k)
        if p is None:
            return 'skip'
        before = [(str(e.ord)) for e in tree.empty_nodes]
        form = self.fresh()
        n = p.create_empty_child('dep', after=bool(after), form=form, **({'upos': 'PRON', 'misc': 'Q=1'} if fill else {}))
        name = self.register(n)
        base = p.ord if after else p.ord - 1
        want = next(f'{base}.{j}' for j in range(1, 90) if f'{base}.{j}' not in before)
        self.sim.check(str(n.ord) == want, 'empty-new-ord', lambda: f'tree {ti}: new empty node has ord {n.ord}, documented is {want}')
        if self.use_model:
            m = self.models[ti]
            wn = self.name(p)
            words = m.words()
            i = words.index(wn)
            if not after:
                i -= 1
            at = (m.seq.index(words[i]) + 1) if i >= 0 else 0
            taken = int(want.split('.')[1]) - 1      # numbers below are taken by this many empty nodes of the slot
            m.seq.insert(at + taken, name)
            m.deps[name] = [[wn, 'dep']]
            m.attr[name] = {'form': form, 'lemma': None, 'upos': 'PRON' if fill else None, 'xpos': None, 'deprel': None, 'feats': '_',
                            'misc': [('Q', '1')] if fill else []}
        return 'done'

    def op_burst(self, t, k, after, count):
        """Ten and more empty nodes in one place."""
        for _ in range(8 + count % 5):
            if self.op_empty(t, k, after) == 'skip':
                return 'skip'
        return 'done'

    def op_parent(self, t, k, j):
        ti = self.tree_i(t)
        n, p = self.pick_word(ti, k), self.pick_word(ti, j, root=True)
        if n is None:
            return 'skip'
        old = n.parent
        x = p
        bad = False
        while x is not None:
            if x is n:
                bad = True
            x = x.parent
        if bad and p is not old:
            def assign():
                n.parent = p
            return self.must_refuse('a cycle', assign)
        n.parent = p
        if self.use_model:
            self.models[ti].parent[self.name(n)] = 'ROOT' if p.is_root() else self.name(p)
        return 'done'

    def op_badparent(self, t, k, kind, j):
        """Assignments that must be refused whatever the state."""
        ti = self.tree_i(t)
        n = self.pick_word(ti, k)
        if n is None:
            return 'skip'
        kind = kind % 5
        if kind == 0:
            target, what = None, 'no parent'
        elif kind == 1:
            target, what = n, 'a node as its own parent'
        elif kind == 2:
            e = list(self.trees[ti].empty_nodes)
            if not e:
                return 'skip'
            target, what = e[j % len(e)], 'an empty node as parent'
        elif kind == 3:
            if len(self.trees) < 2:
                return 'skip'
            to = (ti + 1 + j % (len(self.trees) - 1)) % len(self.trees)
            target, what = self.pick_word(to, j, root=True), 'a parent in another tree'
        else:
            n, target, what = self.trees[ti], n, 'a parent of the technical root'

        def assign():
            n.parent = target
        return self.must_refuse(what, assign)

    def op_remove(self, t, k, mode):
        ti = self.tree_i(t)
        n = self.pick_word(ti, k)
        if n is None:
            return 'skip'
        mode = [None, 'rehang', 'warn', 'rehang_warn'][mode % 4]
        name = self.name(n)
        self.removed += [n] + (list(n.descendants) if not (mode or '').startswith('rehang') else [])
        n.remove(children=mode) if mode else n.remove()
        if self.use_model:
            m = self.models[ti]
            gone = m.subtree(name)
            if mode and mode.startswith('rehang'):
                gone = {name}
                for c in m.children(name):
                    m.parent[c] = m.parent[name]
            self.model_forget(m, gone)
        return 'done'

    def model_forget(self, m, gone):
        m.seq = [x for x in m.seq if x not in gone]
        for x in gone:
            m.parent.pop(x, None)
            m.deps.pop(x, None)
            m.attr.pop(x, None)
        for x in m.seq:
            m.deps[x] = [d for d in m.deps[x] if d[0] not in gone]
        for w in m.mwts:
            w[1] = [x for x in w[1] if x not in gone]
        m.mwts = [w for w in m.mwts if w[1]]

    def op_rmempty(self, t, k):
        ti = self.tree_i(t)
        empties = list(self.trees[ti].empty_nodes)
        if not empties:
            return 'skip'
        e = empties[k % len(empties)]
        e.remove()
        self.removed.append(e)
        if self.use_model:
            self.model_forget(self.models[ti], {self.name(e)})
        return 'done'

    def op_shift(self, t, k, j, kind, wo, skip):
        ti = self.tree_i(t)
        kind = SHIFTS[kind % 4]
        n = self.pick_word(ti, k)
        ref = self.pick_word(ti, j, root=kind in ('shift_after_node', 'shift_after_subtree') or skip & 2)
        if n is None or ref is n:
            return 'skip'
        kw = {}
        if wo:
            kw['without_children'] = True
        if skip & 1:
            kw['skip_if_descendant'] = True
        fn = getattr(n, kind)
        if ref.is_root() and 'before' in kind:
            return self.must_refuse('a shift before the root', fn, ref, **kw)
        x, desc = ref, False
        while x is not None:
            desc = desc or x is n
            x = x.parent
        if desc and not wo and not skip & 1:
            return self.must_refuse('a shift of a subtree relative to its own member', fn, ref, **kw)
        fn(ref, **kw)
        if self.use_model and not (desc and not wo):
            m = self.models[ti]
            name, rname = self.name(n), self.name(ref)
            words = m.words()
            moved = {name} if wo else m.subtree(name)
            sub = {rname} if not ref.is_root() else set()
            if 'subtree' in kind:
                sub = (m.subtree(rname) if not ref.is_root() else set(words)) - {name}
            pos = {w: i for i, w in enumerate(words)}
            if 'after' in kind:
                slot = max((pos[w] for w in sub), default=-1) + 1     # before words[slot]
            else:
                slot = min(pos[w] for w in sub)
            target = next((w for w in words[slot:] if w not in moved), None)
            block = [w for w in words if w in moved]
            self.model_move(m, block, target, slot)
        return 'done'

    @staticmethod
    def model_move(m, block, target, slot):
        """Extract `block` and insert it directly before word `target` (at the very end if None).

        Empty nodes belong to the gap between the words that do not move: the block goes behind the empty nodes of the
        gap it is inserted into, unless it does not move at all.
        """
        words = m.words()
        rest = [w for w in words if w not in block]
        new = rest[:]
        at = new.index(target) if target is not None else len(new)
        new[at:at] = block
        if new == words:
            return
        seq = [x for x in m.seq if x not in block]
        if target is None:
            seq = seq + block
        else:
            i = seq.index(target)
            seq[i:i] = block
        m.seq = seq

    def op_flatten(self, t):
        ti = self.tree_i(t)
        self.trees[ti].flatten()
        if self.use_model:
            m = self.models[ti]
            for w in m.words():
                m.parent[w] = 'ROOT'
                m.attr[w]['deprel'] = 'root'
        return 'done'

    def op_mwt(self, t, k, length, sp):
        ti = self.tree_i(t)
        words = list(self.trees[ti].descendants)
        if len(words) < 2:
            return 'skip'
        i = k % (len(words) - 1)
        ws = words[i:i + 2 + length % 3]
        form = self.fresh() + 'M'
        self.counter += 1
        self.trees[ti].create_multiword_token(ws, form, 'W=1' if sp else None)
        if self.use_model:
            m = self.models[ti]
            names = [self.name(w) for w in ws]
            self.model_mwt(m, names, form, [('W', '1')] if sp else [])
        return 'done'

    @staticmethod
    def model_mwt(m, names, form, misc):
        m.mwts = [x for x in m.mwts if not set(x[1]) & set(names)]
        if ('SpaceAfter', 'No') in m.attr[names[-1]]['misc']:
            misc = sorted({**dict(misc), 'SpaceAfter': 'No'}.items())
        m.mwts.append([form, names, misc])
        for w in names:
            m.attr[w]['misc'] = [x for x in m.attr[w]['misc'] if x[0] != 'SpaceAfter']

    def op_rmmwt(self, t, k):
        ti = self.tree_i(t)
        mwts = list(self.trees[ti].multiword_tokens)
        if not mwts:
            return 'skip'
        x = mwts[k % len(mwts)]
        names = {self.name(w) for w in x.words}
        x.remove()
        if self.use_model:
            m = self.models[ti]
            m.mwts = [y for y in m.mwts if not set(y[1]) & names]
        return 'done'

    def op_steal(self, t, s, sel, bits):
        """Move words of tree s to the end of tree t: all of them, a contiguous run, or any subset."""
        ti, si = self.tree_i(t), self.tree_i(s)
        src = list(self.trees[si].descendants)
        if ti == si or not src:
            return 'skip'
        if sel == 0:
            nodes = src
        elif sel == 1:
            a = bits % len(src)
            nodes = src[a:a + 1 + (bits >> 8) % len(src)]
        else:
            if sel == 3:
                src = list(self.trees[si].descendants_and_empty)
            nodes = [n for i, n in enumerate(src) if bits >> (i % 24) & 1]
        if not nodes or len(self.trees[ti].empty_nodes) + len(self.trees[si].empty_nodes) > 60:
            return 'skip'
        self.trees[ti].steal_nodes(list(nodes))
        if self.use_model:
            self.model_steal(self.models[ti], self.models[si], [self.name(n) for n in nodes], ti, si)
        return 'done'

    def model_steal(self, d, s, names, ti, si):
        listed = set(names)
        names = [x for x in s.words() if x in listed]
        whole = names == s.words()
        moved = set(names)
        for w in names:
            if s.parent[w] in moved:
                d.parent[w] = s.parent[w]
            else:
                d.parent[w] = 'ROOT'
        for w in s.words():
            if w not in moved and s.parent[w] in moved:
                s.parent[w] = 'ROOT'
        carry = s.seq[:] if whole else [x for x in s.seq if x in listed]
        gone = set(carry)
        for x in carry:
            d.seq.append(x)
            d.attr[x] = s.attr.pop(x)
            dd = s.deps.pop(x)
            d.deps[x] = [[f'ROOT{ti}' if h == f'ROOT{si}' else h, r] for h, r in dd if h in gone or h == f'ROOT{si}']
        s.seq = [x for x in s.seq if x not in gone]
        for x in s.seq:
            s.deps[x] = [y for y in s.deps[x] if y[0] not in gone]
        for w in names:
            del s.parent[w]
        keep = []
        for form, ws, misc in s.mwts:
            inside = [w for w in ws if w in moved]
            if not inside:
                keep.append([form, ws, misc])
            elif len(inside) == len(ws) or True:
                self.model_mwt(d, inside, form, misc)
        s.mwts = keep

    def op_badsteal(self, t, s, k):
        if len(self.trees) < 3:
            return 'skip'
        ti = self.tree_i(t)
        others = [i for i in range(len(self.trees)) if i != ti and list(self.trees[i].descendants)]
        if len(others) < 2:
            return 'skip'
        a, b = others[s % len(others)], others[(s + 1) % len(others)]
        nodes = [self.pick_word(a, k), self.pick_word(b, k)]
        return self.must_refuse('moving words of several trees at once', self.trees[ti].steal_nodes, nodes)

    def op_dep(self, t, k, j, via):
        """Enhanced dependency of a word or empty node, through each of the three ways to write them."""
        ti = self.tree_i(t)
        tree = self.trees[ti]
        allnodes = list(tree.descendants_and_empty)
        if not allnodes:
            return 'skip'
        n = allnodes[k % len(allnodes)]
        h = ([tree] + allnodes)[j % (len(allnodes) + 1)]
        via = via % 5
        rel = f'r{self.counter % 7}:x'
        if via == 0:
            n.deps.append({'parent': h, 'deprel': rel})
            new = 'append'
        elif via == 1:
            n.deps = [{'parent': h, 'deprel': rel}]
            new = 'set'
        elif via == 2:
            n.raw_deps = f'{h.ord}:{rel}'
            new = 'set'
        elif via == 3:
            n.deps = []
            new = 'clear'
        else:
            del n.deps[:]
            new = 'clear'
        if self.use_model:
            d = self.models[ti].deps
            if new == 'append':
                d[self.name(n)] = d[self.name(n)] + [[self.name(h), rel]]
            else:
                d[self.name(n)] = [[self.name(h), rel]] if new == 'set' else []
        return 'done'

    def op_attr(self, t, k, what):
        ti = self.tree_i(t)
        n = self.pick_word(ti, k)
        if n is None:
            return 'skip'
        a = self.models[ti].attr[self.name(n)] if self.use_model else {}
        what = what % 8
        if what == 0:
            n.form = a['form'] = self.fresh()
            self.counter += 1
        elif what == 1:
            n.feats['Case'] = 'Gen'
            a['feats'] = str(n.feats)
        elif what == 2:
            n.misc['SpaceAfter'] = 'No'
            a['misc'] = misc_pairs(n)
        elif what == 3:
            n.deprel = a['deprel'] = ['obj', 'obl:arg', 'conj:and:so'][k % 3]
        elif n.deprel is None:
            return 'skip'
        elif what in (4, 5):     # the universal part: what follows the first colon is kept
            old = n.deprel.split(':', 1)
            n.udeprel = 'xcomp'
            a['deprel'] = ':'.join(['xcomp'] + [x for x in old[1:] if x])
        else:                    # the specific part: what precedes the first colon is kept
            value = ['', None, 'q', 'a:b'][k % 4]
            old = n.deprel.split(':', 1)
            n.sdeprel = value
            a['deprel'] = old[0] + (':' + value if value else '')
        return 'done'

    # --- paused iterations -------------------------------------------------------------------------------
    def op_iter(self, slot, t, kind, k):
        ti = self.tree_i(t)
        tree = self.trees[ti]
        kind = kind % 5
        if kind == 0:
            it, want = iter(tree.descendants), list(tree.descendants)
        elif kind == 1:
            n = self.pick_word(ti, k, root=True)
            it, want = iter(n.children), list(n.children)
        elif kind == 2:
            n = self.pick_word(ti, k, root=True)
            it, want = iter(n.descendants), list(n.descendants)
        elif kind == 3:
            n = self.pick_word(ti, k)
            if n is None:
                return 'skip'
            it, want = iter(n.siblings), list(n.siblings)
        else:
            it, want = iter(tree.descendants_and_empty), list(tree.descendants_and_empty)
        self.iters[slot] = [it, want, 0]
        return 'done'

    def op_next(self, slot, count):
        st = self.iters.get(slot)
        if st is None:
            return 'skip'
        for _ in range(1 + count % 3):
            got = next(st[0], None)
            want = st[1][st[2]] if st[2] < len(st[1]) else None
            st[2] += 1
            self.sim.check(got is want, 'paused-iteration',
                           lambda: f'iteration {slot} yields {self.name(got) if got is not None else None} as item {st[2]}, promised was '
                                   f'{self.name(want) if want is not None else None}')
            if got is None:
                break
        self.sim.probe('iteration-resumed')
        return 'done'

    # --- reads (P04) -------------------------------------------------------------------------------------
    def op_read(self, t, k, what, j):
        read_something(self, self.tree_i(t), k, what, j)
        return 'done'


def read_something(world, ti, k, what, j):
    """One read through the public interface; must not matter for anything that follows."""
    tree = world.trees[ti]
    allnodes = list(tree.descendants_and_empty)
    n = allnodes[k % len(allnodes)] if allnodes else tree
    reads = [
        lambda: [d['deprel'] for d in n.deps] if not n.is_root() else None,
        lambda: n.raw_deps,
        lambda: str(n.feats), lambda: n.feats['Nope'], lambda: dict(n.feats), lambda: len(n.misc), lambda: 'X' in n.misc,
        lambda: n.misc['Gloss'], lambda: list(n.misc), lambda: str(n.misc), lambda: n.feats.is_plural(), lambda: n.no_space_after,
        lambda: n.gloss, lambda: str(n), lambda: repr(n), lambda: n.address(), lambda: tree.sent_id, lambda: tree.address(),
        lambda: n.descendants(add_self=True), lambda: n.children(add_self=True), lambda: tree.descendants(add_self=True),
        lambda: tree.descendants(preceding_only=True, add_self=True), lambda: n.children(following_only=True),
        lambda: n.siblings(add_self=True) if not n.is_root() and n.parent is not None else None,
        lambda: tree.compute_text(), lambda: tree.get_sentence(), lambda: tree.token_descendants,
        lambda: [m.ord_range for m in tree.multiword_tokens], lambda: [str(m.misc) for m in tree.multiword_tokens],
        lambda: tree.document and str(tree.document), lambda: tree.document.to_conllu_string(),
        lambda: [x.form for x in tree.document.nodes], lambda: [x.form for x in tree.document.nodes_and_empty],
        lambda: tree.is_nonprojective() if n.is_root() else (n.is_nonprojective() if not n.is_empty() else None),
        lambda: n.is_nonprojective_gap() if not n.is_root() and not n.is_empty() else None,
        lambda: n.get_attrs(['form', 'p_upos', 'c_form', 'l_form', 'r_form', 'dir', 'edge', 'children', 'siblings', 'depth', 'feats_split',
                             'misc_split', 'feats[Case]', 'misc[X]'], undefs='-') if not n.is_root() and not n.is_empty() else None,
        lambda: (n.udeprel, n.sdeprel), lambda: n.is_leaf(), lambda: (n.prev_node, n.next_node) if not n.is_empty() else None,
        lambda: n.multiword_token, lambda: n.words,
        lambda: n.unordered_descendants(),
        lambda: [b.get_tree(tree.zone).sent_id for b in [tree.bundle]], lambda: tree.bundle.has_tree('xx'), lambda: str(tree.bundle),
        lambda: draw(tree), lambda: draw(n) if not n.is_empty() else None, lambda: draw(tree.bundle),
        lambda: sorted(allnodes), lambda: n.feats.copy(), lambda: dict(n.misc.copy()),
        lambda: common(allnodes, k, j), lambda: [m.misc['X'] for m in tree.multiword_tokens],
        lambda: list(tree.document.trees), lambda: len(tree.document), lambda: n.coref_mentions, lambda: n.coref_entities,
        lambda: tree.document.coref_entities, lambda: tree.document.eid_to_entity,
    ]
    r = reads[what % len(reads)]
    r()
    world.sim.count(f'read:{what % len(reads)}')


def draw(what):
    import contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        what.draw(color=False)
    return out.getvalue()


def common(nodes, k, j):
    from udapi.core.node import find_minimal_common_treelet
    words = [n for n in nodes if not n.is_empty()]
    if len(words) >= 2:
        a = words[k % len(words)]
        b = words[j % len(words)]
        if a is not b:
            top, added = find_minimal_common_treelet(a, b)
            return top, list(added)
    return None


def gen_world(rng, docs=(1, 2), trees=(1, 3), sizes=(1, 9), **kw):
    texts = []
    for d in range(rng.randint(*docs)):
        names = gen.Names('abcdefgh'[d])
        texts.append(gen.document(rng, rng.randint(*trees), sizes, names=names, **kw))
    return texts


def gen_edit(rng, weights=None):
    """One random edit operation."""
    b = lambda n=1 << 16: rng.randrange(n)
    kinds = weights or {'child': 2, 'empty': 2, 'parent': 4, 'remove': 2, 'rmempty': 1, 'shift': 6, 'flatten': 0.2, 'mwt': 1.2, 'rmmwt': 0.4,
                        'steal': 0.8, 'dep': 1.5, 'attr': 0.6}
    kind = rng.choices(list(kinds), list(kinds.values()))[0]
    t = b(6)
    if kind == 'child':
        return [kind, t, b(), b(4)]
    if kind == 'empty':
        return [kind, t, b(), b(2), b(2)]
    if kind == 'burst':
        return [kind, t, b(), b(2), b(5)]
    if kind == 'parent':
        return [kind, t, b(), b()]
    if kind == 'badparent':
        return [kind, t, b(), b(5), b()]
    if kind == 'remove':
        return [kind, t, b(), b(4)]
    if kind == 'rmempty':
        return [kind, t, b()]
    if kind == 'shift':
        return [kind, t, b(), b(), b(4), int(rng.random() < 0.4), rng.choice([0, 0, 0, 1, 1, 2, 3])]
    if kind == 'flatten':
        return [kind, t]
    if kind == 'mwt':
        return [kind, t, b(), b(3), b(2)]
    if kind == 'rmmwt':
        return [kind, t, b()]
    if kind == 'steal':
        return [kind, t, b(6), rng.choice([0, 0, 1, 1, 2, 3]), b(1 << 24)]
    if kind == 'badsteal':
        return [kind, t, b(6), b()]
    if kind == 'dep':
        return [kind, t, b(), b(), b(5)]
    if kind == 'attr':
        return [kind, t, b(), b(8)]
    if kind == 'iter':
        return [kind, b(3), t, b(5), b()]
    if kind == 'next':
        return [kind, b(3), b(3)]
    if kind == 'read':
        return [kind, t, b(), b(), b()]
    raise ValueError(kind)


def shape(tree):
    """State measure: the unlabelled structure of a tree with positions of empty nodes and multi-word tokens."""
    return [[n.parent.ord for n in tree.descendants], [str(e.ord) for e in tree.empty_nodes],
            sorted(sorted(w.ord for w in m.words) for m in tree.multiword_tokens)]
