"""A world of whole documents: bundles, zones, ids, attribute maps and coreference on top of the tree edits of World."""
from dst import core, view
from dst.world import World, gen_edit, MTree  # noqa: F401

ZONES = ['', 'en', 'de', 'en_gold', 'cs_x-1', 'fr']
BADZONES = ['EN', 'a b', 'x/y', 'all', 'en_', 'č', '1', 'en_a_b']


class DocWorld(World):
    """Names of trees and nodes are stable objects; documents are lists of bundles."""

    def __init__(self, sim, texts, model=False):
        super().__init__(sim, texts, model=model)
        self.mentions = []

    # --- picking -----------------------------------------------------------------------------------------
    def doc(self, k):
        return self.docs[k % len(self.docs)]

    def bundle(self, d, k):
        b = self.doc(d).bundles
        return b[k % len(b)] if b else None

    def entity(self, d, k):
        e = list(self.doc(d).coref_entities)
        return e[k % len(e)] if e else None

    def mention(self, d, k):
        m = [x for e in self.doc(d).coref_entities for x in e.mentions]
        return m[k % len(m)] if m else None

    def attached(self):
        return [t for d in self.docs for t in d.trees]

    def anynode(self, t, k):
        nodes = list(self.trees[self.tree_i(t)].descendants_and_empty)
        return nodes[k % len(nodes)] if nodes else None

    def doc_of_tree(self, t):
        tree = self.trees[self.tree_i(t)]
        return next((d for d in self.docs if any(x is tree for x in d.trees)), None)

    def node_run(self, t, k, ln, gap=0):
        """A set of nodes of one tree: a run of nodes, possibly with a gap."""
        nodes = list(self.trees[self.tree_i(t)].descendants_and_empty)
        if not nodes:
            return []
        a = k % len(nodes)
        run = nodes[a:a + 1 + ln]
        if gap and len(run) > 2:
            del run[1 + gap % (len(run) - 2)]
        return run

    # --- bundles and zones -------------------------------------------------------------------------------
    def op_newbundle(self, d):
        doc = self.doc(d)
        if len(doc.bundles) > 8:
            return 'skip'
        doc.create_bundle()
        return 'done'

    def op_newtree(self, d, b, z, words=0):
        bundle = self.bundle(d, b)
        zone = ZONES[z % len(ZONES)]
        if bundle is None or bundle.has_tree(zone):
            return 'skip'
        tree = bundle.create_tree(zone)
        self.trees.append(tree)
        self.models.append(None)
        for _ in range(words):
            self.register(tree.create_child(form=self.fresh()))
        return 'done'

    def op_addtree(self, d, b, z):
        bundle = self.bundle(d, b)
        zone = ZONES[z % len(ZONES)]
        if bundle is None or bundle.has_tree(zone):
            return 'skip'
        root = self.Root(zone=zone if z % 3 or zone else None)
        self.register(root.create_child(form=self.fresh()))
        bundle.add_tree(root)
        self.trees.append(root)
        self.models.append(None)
        return 'done'

    def op_zone(self, t, z):
        trees = self.attached()
        if not trees:
            return 'skip'
        tree = trees[t % len(trees)]
        zone = ZONES[z % len(ZONES)]
        if tree.bundle.has_tree(zone) and tree.zone != zone:
            return 'skip'
        if tree.zone == zone:
            return 'skip'
        tree.zone = zone
        return 'done'

    def op_sentid(self, t, z):
        trees = self.attached()
        if not trees:
            return 'skip'
        tree = trees[t % len(trees)]
        self.counter += 1
        new = f'x{self.counter}'
        if z % 3 == 0:
            zone = ZONES[z % len(ZONES)]
            if zone and not tree.bundle.has_tree(zone):
                tree.sent_id = f'{new}/{zone}'
                return 'done'
        if z % 3 == 1 and tree.zone:
            tree.sent_id = f'{new}/{tree.zone}'
            return 'done'
        if tree.zone or len(tree.bundle.trees) > 1:
            return 'skip'
        tree.sent_id = new
        return 'done'

    def op_bundleid(self, d, b):
        bundle = self.bundle(d, b)
        if bundle is None:
            return 'skip'
        self.counter += 1
        bundle.bundle_id = f'b{self.counter}'
        return 'done'

    def op_rmbundle(self, d, b):
        bundle = self.bundle(d, b)
        if bundle is None or len(self.doc(d).bundles) < 2:
            return 'skip'
        bundle.remove()
        return 'done'

    def op_rmtree(self, t):
        trees = self.attached()
        if len(trees) < 2:
            return 'skip'
        tree = trees[t % len(trees)]
        if len(tree.bundle.trees) < 2:
            return 'skip'
        tree.remove()
        return 'done'

    # --- attribute maps ----------------------------------------------------------------------------------
    def op_map(self, t, k, which, what, j):
        n = self.anynode(t, k)
        if n is None:
            return 'skip'
        obj = [n.feats, n.misc][which % 2]
        key = ['Case', 'Aa', 'b', 'Zz'][j % 4]
        what = what % 6
        if what == 0:
            obj[key] = f'v{j % 3}'
        elif what == 1:
            obj[key] = ''
        elif what == 2:
            del obj[key]
        elif what == 3:
            setattr(n, ['feats', 'misc'][which % 2], f'{key}=q|B=1')
        elif what == 4:
            setattr(n, ['feats', 'misc'][which % 2], {key: 'w'})
        else:
            setattr(n, ['feats', 'misc'][which % 2], None)
        return 'done'

    # --- coreference -------------------------------------------------------------------------------------
    def op_entity(self, d, named):
        doc = self.doc(d)
        if len(doc.coref_entities) > 10:
            return 'skip'
        self.counter += 1
        doc.create_coref_entity(f'n{self.counter}' if named % 2 else None, ['person', None, 'place'][named % 3])
        return 'done'

    def op_mention(self, d, e, t, k, ln, gap, how):
        doc = self.doc(d)
        ent = self.entity(d, e)
        trees = list(doc.trees)
        trees = [x for x in trees if x.zone == trees[0].zone]
        if ent is None or not trees:
            return 'skip'
        tree = trees[t % len(trees)]
        ti = next(i for i, x in enumerate(self.trees) if x is tree)
        words = self.node_run(ti, k, ln, gap)
        if not words or not self.span_free(ent, words):
            return 'skip'
        head = words[(k + ln) % len(words)]
        how = how % 4
        if how == 3 and not self.span_free(ent, [head]):
            return 'skip'
        if how == 0:
            ent.create_mention(head=head, words=words)
        elif how == 1:
            ent.create_mention(words=words)
        elif how == 2:
            ent.create_mention(head=head, span=spanstr(words))
        else:
            ent.create_mention(head=head)
        return 'done'

    def span_free(self, ent, words, but=None):
        """What the file format can hold within one entity: neither same-span nor crossing mentions, nor two mentions with
        gaps inside of each other."""
        allnodes = list(words[0].root.descendants_and_empty)
        pos = {id(n): i for i, n in enumerate(allnodes)}
        new = sorted({pos[id(w)] for w in words})
        for m in ent.mentions:
            if m is but or m.words[0].root is not words[0].root:
                continue
            old = sorted({pos[id(w)] for w in m.words})
            if old[-1] < new[0] or new[-1] < old[0]:
                continue
            gaps = [x[-1] - x[0] + 1 != len(x) for x in (old, new)]
            if not any(gaps):
                a, b = set(old), set(new)
                if a < b or b < a:
                    continue
            elif not all(gaps):
                gapped, whole = (old, new) if gaps[0] else (new, old)
                if gapped[0] < whole[0] and whole[-1] < gapped[-1] and not set(gapped) & set(whole):
                    continue
            return False
        return True

    def op_words(self, d, m, k, ln, gap, how):
        mention = self.mention(d, m)
        if mention is None:
            return 'skip'
        tree = mention.head.root
        nodes = list(tree.descendants_and_empty)
        at = next((i for i, n in enumerate(nodes) if n is mention.head), None)
        if at is None:
            return 'skip'
        a = max(0, at - k % 3)
        words = nodes[a:max(at + 1, a + 1 + ln)]
        if gap and len(words) > 2:
            i = 1 + gap % (len(words) - 2)
            if words[i] is not mention.head:
                del words[i]
        if not self.span_free(mention.entity, words, mention):
            return 'skip'
        if how % 3 == 0:
            mention.words = words
        elif how % 3 == 1:
            mention.words = list(reversed(words)) + words[:1]
        else:
            mention.span = spanstr(words)
        return 'done'

    def op_head(self, d, m, k):
        mention = self.mention(d, m)
        if mention is None:
            return 'skip'
        words = list(mention.words)
        mention.head = words[k % len(words)]
        return 'done'

    def op_moveto(self, d, m, e):
        mention, ent = self.mention(d, m), self.entity(d, e)
        if mention is None or ent is None or not self.span_free(ent, mention.words, mention):
            return 'skip'
        if any(bl.target is ent for bl in mention.bridging):
            return 'skip'
        mention.entity = ent
        return 'done'

    def op_rmmention(self, d, m):
        mention = self.mention(d, m)
        if mention is None:
            return 'skip'
        mention.remove()
        return 'done'

    def op_eid(self, d, e):
        ent = self.entity(d, e)
        if ent is None:
            return 'skip'
        self.counter += 1
        ent.eid = f'r{self.counter}'
        return 'done'

    def op_etype(self, d, e, v):
        ent = self.entity(d, e)
        if ent is None:
            return 'skip'
        ent.etype = ['person', 'place', 'abstract'][v % 3]
        return 'done'

    def op_other(self, d, m, v, what):
        mention = self.mention(d, m)
        if mention is None:
            return 'skip'
        what = what % 4
        if what == 0:
            mention.other['k%d' % (v % 3)] = 'v%d' % (v % 2)
        elif what == 1:
            mention.other['k%d' % (v % 3)] = ''
        elif what == 2:
            mention.other = f'k{v % 3}:z,y:1'
        else:
            mention.other = {'A': 'b'}
        return 'done'

    def op_bridge(self, d, m, e, how):
        mention, ent = self.mention(d, m), self.entity(d, e)
        if mention is None or ent is None or ent is mention.entity:
            return 'skip'
        rel = ['part', 'subset', '', 'x:y'][how % 4]
        if how % 5 == 4 and len(mention.bridging):
            del mention.bridging[how % len(mention.bridging)]
        elif any(bl.target is ent for bl in mention.bridging):
            return 'skip'
        else:
            mention.bridging.append((ent, rel))
        return 'done'

    def op_split(self, d, e, f, how):
        a, b = self.entity(d, e), self.entity(d, f)
        if a is None or a is b:
            return 'skip'
        if how % 4 == 3 and a.split_ante:
            del a.split_ante[how % len(a.split_ante)]
        elif not any(x is b for x in a.split_ante):
            a.split_ante.append(b)
        else:
            return 'skip'
        return 'done'

    # --- observation -------------------------------------------------------------------------------------
    broken = False

    def snapshot(self, coref=True):
        out = []
        for doc in self.docs:
            v = view.doc_view(doc)
            if coref:
                v['coref'] = view.coref_view(doc)
                v['eids'] = sorted(doc.eid_to_entity)
                v['word_mentions'] = [[n.address(), sorted(m.entity.eid + ':' + m.span for m in n.coref_mentions)]
                                      for n in doc.nodes_and_empty if n.coref_mentions]
            out.append(v)
        for i, t in enumerate(self.trees):
            out.append([i, [self.name(n) for n in t.descendants], [self.name(n) for n in t.empty_nodes],
                        [[self.name(c) for c in n.children] for n in [t] + list(t.descendants)],
                        [[t2.form, [self.name(w) for w in t2.words]] for t2 in t.multiword_tokens],
                        [[x.form, x.multiword_token.form] for x in t.descendants if x.multiword_token]])
        return out

    def stored(self):
        return [d.to_conllu_string() for d in self.docs]

    # --- operations that must be refused -----------------------------------------------------------------
    def op_bad(self, kind, a, b, c):
        cases = BAD
        name = cases[kind % len(cases)]
        self.extra = None        # what else (besides the documents) may be touched by the refused operation
        fn = getattr(self, 'bad_' + name)(a, b, c)
        if fn is None:
            return 'skip'
        must = True
        if isinstance(fn, tuple):
            fn, must = fn
        old = self.extra() if self.extra is not None else None
        try:
            fn()
        except Exception as e:   # pylint: disable=broad-except
            try:
                str(e)
            except Exception as e2:  # pylint: disable=broad-except
                raise core.Violation('refusal-message', f'{name}: the exception cannot be printed: {e2!r}', f'refusal-message/{name}')
            self.sim.fault(f'refused {name}')
            if self.extra is not None:
                now = self.extra()
                self.sim.check(now == old, 'no-trace', lambda: f'{name} was refused, but changed {old} -> {now}', f'no-trace/{name}')
            return 'refused'
        if must:
            raise core.Violation('must-refuse', f'{name} was not refused', f'must-refuse/{name}')
        return 'accepted'

    def _bundle_with_tree(self, a):
        bs = [b for d in self.docs for b in d.bundles if b.trees]
        return bs[a % len(bs)] if bs else None

    def bad_create_dup_zone(self, a, b, c):
        bundle = self._bundle_with_tree(a)
        return bundle and (lambda: bundle.create_tree(bundle.trees[b % len(bundle.trees)].zone))

    def bad_create_bad_zone(self, a, b, c):
        bundle = self._bundle_with_tree(a)
        return bundle and (lambda: bundle.create_tree(BADZONES[b % len(BADZONES)]))

    def bad_add_tree(self, a, b, c):
        bundle = self._bundle_with_tree(a)
        if not bundle:
            return None
        zone = bundle.trees[b % len(bundle.trees)].zone if c % 2 else BADZONES[b % len(BADZONES)]
        root = self.Root(zone=zone)
        root.create_child(form='x')
        if b & 16:
            root._sent_id = None
            root.sent_id = f'own{c}/{zone}' if zone not in BADZONES else f'own{c}'
        self.extra = lambda: [root.sent_id, root.zone, None if root.bundle is None else str(root.bundle), [n.form for n in root.descendants], root.text]
        return lambda: bundle.add_tree(root)

    def bad_tree_zone(self, a, b, c):
        bundle = self._bundle_with_tree(a)
        if not bundle:
            return None
        tree = bundle.trees[b % len(bundle.trees)]
        zone = BADZONES[c % len(BADZONES)]
        other = [t.zone for t in bundle.trees if t is not tree]
        if other and c % 2:
            zone = other[c % len(other)]

        def fn():
            tree.zone = zone
        return fn

    def bad_sent_id(self, a, b, c):
        bundle = self._bundle_with_tree(a)
        if not bundle:
            return None
        tree = bundle.trees[b % len(bundle.trees)]
        zone = BADZONES[c % len(BADZONES)]
        other = [t.zone for t in bundle.trees if t is not tree and t.zone]
        if other and c % 2:
            zone = other[c % len(other)]

        def fn():
            tree.sent_id = f'new{a}/{zone}'
        return fn

    def bad_get_tree(self, a, b, c):
        bundle = self._bundle_with_tree(a)
        return bundle and (lambda: bundle.get_tree('nonexistent'))

    def bad_feats(self, a, b, c):
        n = self.anynode(a, b)
        if n is None:
            return None
        value = [5, ['A=1'], 1.5, {1, 2}, object()][c % 5]

        def fn():
            if c & 8:
                n.misc = value
            else:
                n.feats = value
        return fn

    def bad_mwt_misc(self, a, b, c):
        words = list(self.trees[self.tree_i(a)].descendants)[:2]
        return words and (lambda: words[0].root.create_multiword_token(words, 'X', 5))

    def bad_mwt_empty(self, a, b, c):
        tree = self.trees[self.tree_i(a)]
        return (lambda: tree.create_multiword_token([], 'X')), bool(c & 0)

    def bad_child(self, a, b, c):
        n = self.pick_word(self.tree_i(a), b, root=True)
        return (lambda: n.create_child(nonsense=1)) if c % 2 else (lambda: n.create_child(form='x', feats=5))

    def bad_empty_child(self, a, b, c):
        n = self.pick_word(self.tree_i(a), b)
        return n and (lambda: n.create_empty_child('dep', nonsense=1))

    def bad_steal(self, a, b, c):
        t = [x for x in self.trees if list(x.descendants)]
        if len(t) < 2:
            return None
        x, y = t[a % len(t)], t[(a + 1) % len(t)]
        dst = self.trees[self.tree_i(b)]
        nodes = [list(x.descendants)[c % len(x.descendants)], list(y.descendants)[0]]
        return lambda: dst.steal_nodes(nodes)

    def bad_shift_to_empty(self, a, b, c):
        ti = self.tree_i(a)
        e = list(self.trees[ti].empty_nodes)
        n = self.pick_word(ti, b)
        if not e or n is None:
            return None
        fn = getattr(n, ['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'][c % 4])
        return (lambda: fn(e[c % len(e)], without_children=bool(c & 8))), False

    def bad_shift_empty(self, a, b, c):
        ti = self.tree_i(a)
        e = list(self.trees[ti].empty_nodes)
        n = self.pick_word(ti, b)
        if not e or n is None:
            return None
        x = e[c % len(e)]
        fn = [x.shift_after_node, x.shift_before_node, x.shift_after_subtree, x.shift_before_subtree, x.shift][c % 5]
        return (lambda: fn(n)), c % 5 == 4

    def bad_shift_root(self, a, b, c):
        n = self.pick_word(self.tree_i(a), b)
        return n and (lambda: n.root.shift(n))

    def bad_shift_inside(self, a, b, c):
        ti = self.tree_i(a)
        inner = [n for n in self.trees[ti].descendants if n.children]
        if not inner:
            return None
        n = inner[b % len(inner)]
        d = n.descendants[c % len(n.descendants)]
        fn = getattr(n, ['shift_after_node', 'shift_before_node', 'shift_after_subtree', 'shift_before_subtree'][c % 4])
        return lambda: fn(d)

    def bad_shift_before_root(self, a, b, c):
        n = self.pick_word(self.tree_i(a), b)
        return n and (lambda: (n.shift_before_node if c % 2 else n.shift_before_subtree)(n.root))

    def bad_cycle(self, a, b, c):
        ti = self.tree_i(a)
        inner = [n for n in self.trees[ti].descendants if n.children]
        if not inner:
            return None
        n = inner[b % len(inner)]
        d = n.descendants[c % len(n.descendants)]

        def fn():
            n.parent = d
        return fn

    def bad_parent(self, a, b, c):
        ti = self.tree_i(a)
        n = self.pick_word(ti, b)
        if n is None:
            return None
        e = list(self.trees[ti].empty_nodes)
        others = [t for i, t in enumerate(self.trees) if i != ti]
        choice = c % 5
        if choice == 0:
            target = None
        elif choice == 1:
            target = n
        elif choice == 2 and e:
            target = e[b % len(e)]
        elif choice == 3 and e:
            n, target = e[b % len(e)], n
        elif others:
            o = others[c % len(others)]
            nodes = [o] + list(o.descendants)
            target = nodes[b % len(nodes)]
        else:
            return None

        def fn():
            n.parent = target
        return fn

    def bad_root_parent(self, a, b, c):
        n = self.pick_word(self.tree_i(a), b)
        if n is None:
            return None

        def fn():
            n.root.parent = n
        return fn

    def bad_empty_ord(self, a, b, c):
        e = list(self.trees[self.tree_i(a)].empty_nodes)
        if not e:
            return None
        x = e[b % len(e)]
        value = [3, None, 'abc', [1]][c % 4]

        def fn():
            x.ord = value
        return fn

    def bad_remove_twice(self, a, b, c):
        # the node was removed by an earlier operation of this world
        if not self.removed:
            return None
        x = self.removed[a % len(self.removed)]
        return (lambda: x.remove()), False

    def bad_deps(self, a, b, c):
        """Enhanced dependencies that refer to nothing: refused when they are looked at; the raw form is restored by the caller."""
        n = self.anynode(a, b)
        if n is None:
            return None
        old = n.raw_deps

        def fn():
            n.raw_deps = ['99:dep', '3.77:dep', 'x:dep', 'nodep'][c % 4]
            try:
                return [d['parent'] for d in n.deps]
            finally:
                n.raw_deps = old
        return fn

    def bad_dup_entity(self, a, b, c):
        e = self.entity(a, b)
        return e and (lambda: self.doc(a).create_coref_entity(e.eid))

    def bad_entity_name(self, a, b, c):
        return lambda: self.doc(a).create_coref_entity(['a b', 'a-b', 'x(', 'y)', 'p|q', 'e=1', 't\tq'][b % 7])

    def bad_broken_coref(self, a, b, c):
        """Coreference annotation that cannot be decoded (see break_coref)."""
        if not self.broken:
            return None
        doc = self.doc(a)
        if c % 3 == 0:
            nodes = list(doc.nodes_and_empty)
            if nodes:
                node = nodes[b % len(nodes)]
                return (lambda: node.coref_mentions if c % 2 else node.coref_entities), False
        if c % 3 == 1:
            from udapi.block.corefud.load import Load
            block = Load(strict=b % 4 > 0)
            return (lambda: block.apply_on_document(doc)), False
        return (lambda: getattr(doc, ('coref_entities', 'coref_mentions', 'eid_to_entity')[b % 3])), False

    def bad_eid(self, a, b, c):
        e = self.entity(a, b)
        if e is None:
            return None
        others = [x.eid for x in self.doc(a).coref_entities if x is not e]
        value = others[c % len(others)] if others and c % 2 else 'a b'

        def fn():
            e.eid = value
        return fn

    def bad_mention(self, a, b, c):
        e = self.entity(a, b)
        if e is None:
            return None
        trees = [t for t in self.doc(a).trees if len(t.descendants) > 1]
        if not trees:
            return None
        nodes = list(trees[b % len(trees)].descendants)
        i = c % (len(nodes) - 1)
        kind = c % 6
        if kind == 0:
            return lambda: e.create_mention(head=nodes[i], words=[nodes[i + 1]])
        if kind == 1:
            return lambda: e.create_mention(head=nodes[i], words=[nodes[i]], span=str(nodes[i].ord))
        if kind == 2:
            return lambda: e.create_mention()
        if kind == 3:
            return lambda: e.create_mention(head=nodes[i], span='1-x')
        if kind == 4:
            return lambda: e.create_mention(head=nodes[i], span=str(nodes[i + 1].ord))
        return lambda: e.create_mention(head=nodes[i], span='a')

    def bad_mention_edit(self, a, b, c):
        m = self.mention(a, b)
        if m is None:
            return None
        other = [n for n in m.head.root.descendants_and_empty if not any(n is w for w in m.words)]
        kind = c % 5
        if kind in (0, 1, 2) and not other:
            return None

        def fn():
            if kind == 0:
                m.head = other[0]
            elif kind == 1:
                m.words = other
            elif kind == 2:
                m.span = str(other[0].ord)
            elif kind == 3:
                m.span = '1-x'
            else:
                m.entity = None
        return fn

    def bad_bridging(self, a, b, c):
        m = self.mention(a, b)
        if m is None:
            return None
        if c % 3 == 2:
            from udapi.core.coref import BridgingLinks
            return lambda: BridgingLinks(m, 5)
        if c % 3 == 1 and len(m.bridging):
            def fn():
                m.bridging[0] = (m.entity, 'x')
            return fn
        return lambda: m.bridging.append((m.entity, 'part'))

    def bad_filename(self, a, b, c):
        return lambda: self.Document('name.bad')

    def bad_other(self, a, b, c):
        m = self.mention(a, b)
        if m is None:
            return None

        def fn():
            m.other = 5
        return fn


def break_coref(rng, text, lenient=False):
    """Adds coreference annotation which opens and closes mentions at random and is therefore (nearly always) refused as a whole,
    or (lenient) which a lenient reader can make sense of by deleting some mentions."""
    lines = text.split('\n')
    rows = [i for i, l in enumerate(lines) if l and l[0] != '#' and '-' not in l.split('\t')[0]]
    if not rows:
        return text
    kind = 5 if lenient else rng.randrange(6)
    opened = []
    across = rng.random() < (0.8 if lenient else 0.2)
    for i in rows[:-1]:
        parts = []
        if not across and i + 1 not in rows:        # last word of a sentence: close everything
            parts, opened = [e + ')' for e in reversed(opened)], []
            if parts:
                add_misc(lines, i, ['Entity=' + ''.join(parts)])
            continue
        while opened and rng.random() < 0.5:
            parts.append(opened.pop() + ')')
        while rng.random() < 0.45 and len(parts) < 3:
            eid, head = f'e{rng.randrange(4)}', rng.choice('1112')
            if rng.random() < 0.4:
                parts.append(f'({eid}-p-1)')
            elif eid not in opened:
                opened.append(eid)
                parts.append(f'({eid}-p-{head}')
        if lenient and rng.random() < 0.15:
            parts.append(rng.choice(['(e6[1/2]-p-1)', '(e6[2/2]-p-1)', '(e7]-p-1)', '(e5-q-x)']))
        misc = ['Entity=' + ''.join(parts)] if parts else []
        if kind == 1 and rng.random() < 0.4:
            misc.append(f'SplitAnte=e{rng.randrange(4)}<e9')
        if kind == 2 and rng.random() < 0.4:
            misc.append(f'Bridge=e8<e{rng.randrange(4)}:part')
        if not lenient and rng.random() < 0.1:
            misc.append(rng.choice(['Split=Yes', 'Split=e0<e1', 'Split=e0<e1,e2<e1']))
        if misc:
            add_misc(lines, i, misc)
    if kind not in (1, 2) and not lenient:
        add_misc(lines, rows[-1], ['Entity=' + ['e9)', '(e5-p-7)', '(e5-p-x)', '(e1-p-1)e7)'][rng.randrange(4)]])
    if kind != 3:
        lines.insert(0, '# global.Entity = ' + ('etype-head' if kind == 4 else 'eid-etype-head-other'))
        lines.insert(0, '# newdoc id = broken')
    return '\n'.join(lines)


def add_misc(lines, i, misc):
    cols = lines[i].split('\t')
    cols[9] = '|'.join(misc + ([] if cols[9] == '_' else [cols[9]]))
    lines[i] = '\t'.join(cols)


BAD = [x[4:] for x in dir(DocWorld) if x.startswith('bad_')]


def spanstr(nodes):
    """Ranges of ords written so that they hold exactly these nodes."""
    allnodes = list(nodes[0].root.descendants_and_empty)
    keep = {id(n) for n in nodes}
    out, run = [], []
    for n in allnodes + [None]:
        if n is not None and id(n) in keep:
            run.append(n)
        elif run:
            out.append(f'{run[0].ord}-{run[-1].ord}' if len(run) > 1 else str(run[0].ord))
            run = []
    return ','.join(out)


COREF_W = {'entity': 1.5, 'mention': 4, 'words': 1.5, 'head': 0.7, 'moveto': 0.7, 'rmmention': 0.7, 'eid': 0.4, 'etype': 0.4, 'other': 0.8,
           'bridge': 1, 'split': 0.8}
ZONE_W = {'newbundle': 0.6, 'newtree': 1, 'addtree': 0.5, 'zone': 0.7, 'sentid': 0.7, 'bundleid': 0.5, 'rmbundle': 0.4, 'rmtree': 0.4}


def coref_seed(rng):
    """Operations that give the documents some coreference to start with."""
    ops = [gen_op(rng, {'entity': 1}) for _ in range(rng.randint(1, 5))]
    ops += [gen_op(rng, {'mention': 1}) for _ in range(rng.randint(1, 10))]
    ops += [gen_op(rng, {'bridge': 1, 'split': 2, 'other': 1}) for _ in range(rng.randint(0, 4))]
    return ops


def gen_op(rng, weights):
    b = lambda n=1 << 16: rng.randrange(n)
    kind = rng.choices(list(weights), list(weights.values()))[0]
    if kind == 'newbundle':
        return [kind, b(4)]
    if kind == 'newtree':
        return [kind, b(4), b(9), b(6), b(4)]
    if kind == 'addtree':
        return [kind, b(4), b(9), b(6)]
    if kind in ('zone', 'sentid'):
        return [kind, b(20), b(36)]
    if kind in ('bundleid', 'rmbundle'):
        return [kind, b(4), b(9)]
    if kind == 'rmtree':
        return [kind, b(20)]
    if kind == 'map':
        return [kind, b(6), b(), b(2), b(6), b(12)]
    if kind == 'entity':
        return [kind, b(4), b(6)]
    if kind == 'mention':
        return [kind, b(4), b(), b(6), b(), rng.choice([0, 0, 1, 1, 2, 3, 5]), rng.choice([0, 0, 0, 1, 2]), b(4)]
    if kind == 'words':
        return [kind, b(4), b(), b(), rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 0, 1, 2]), b(3)]
    if kind in ('head', 'moveto'):
        return [kind, b(4), b(), b()]
    if kind in ('rmmention', 'eid'):
        return [kind, b(4), b()]
    if kind == 'etype':
        return [kind, b(4), b(), b(3)]
    if kind in ('other',):
        return [kind, b(4), b(), b(6), b(4)]
    if kind in ('bridge', 'split'):
        return [kind, b(4), b(), b(), b(20)]
    if kind == 'bad':
        return [kind, b(len(BAD) * 7), b(), b(), b()]
    return gen_edit(rng, {kind: 1})
