"""Reads through the public interface, each with a result that can be compared between runs (nodes by their stable names)."""
import contextlib
import io

from dst.core import Violation

COREF_MISC = ('Entity', 'SplitAnte', 'Bridge')


def norm(w, x, depth=0):
    """Result of a read as plain data."""
    from udapi.core.node import Node
    from udapi.core.mwt import MWT
    from udapi.core.bundle import Bundle
    from udapi.core.document import Document
    from udapi.core import coref
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, Node):
        return w.name(x)
    if isinstance(x, MWT):
        return ['mwt', x.form, [w.name(n) for n in x.words]]
    if isinstance(x, Bundle):
        return ['bundle', x.bundle_id]
    if isinstance(x, Document):
        return ['document', next((i for i, d in enumerate(w.docs) if d is x), None)]
    if isinstance(x, coref.CorefMention):
        return ['mention', x.entity.eid if x.entity else None, x.span]
    if isinstance(x, coref.CorefEntity):
        return ['entity', x.eid]
    if isinstance(x, coref.BridgingLink):
        return ['bridging', x.relation, x.target.eid]
    if depth < 6:
        if isinstance(x, dict):
            return sorted([str(k), norm(w, v, depth + 1)] for k, v in x.items())
        if isinstance(x, (set, frozenset)):
            return sorted((norm(w, v, depth + 1) for v in x), key=repr)
        if hasattr(x, '__iter__'):
            return [norm(w, v, depth + 1) for v in x]
    return type(x).__name__


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


def common(nodes, k, j):
    from udapi.core.node import find_minimal_common_treelet
    words = [n for n in nodes if not n.is_empty()]
    if len(words) >= 2:
        a, b = words[k % len(words)], words[j % len(words)]
        if a is not b:
            top, added = find_minimal_common_treelet(a, b)
            return top, sorted(added)
    return None


def calls(lst, j):
    """All call options of a list of nodes, then the list itself again: a list that was handed out does not change."""
    before = list(lst)
    out = [lst(add_self=True), lst(preceding_only=True), lst(following_only=True), lst(add_self=True, preceding_only=True),
           lst(add_self=True, following_only=True), list(lst), len(lst)]
    if len(before) != len(lst) or any(x is not y for x, y in zip(before, lst)):
        raise Violation('list-changed', f'calling a list of nodes changed it from {before} to {list(lst)}')
    return out


ATTRS = ['form', 'p_upos', 'c_form', 'l_form', 'r_form', 'dir', 'edge', 'children', 'siblings', 'depth', 'feats_split', 'feats[Case]', 'p_lemma', 'c_upos', 'deprel']


# name -> (needs, function); needs: n any word or empty node, w a word, t the tree; '*' marks results that contain MISC
READS = {
    'deps': ('n', lambda n, j: [[d['parent'], d['deprel']] for d in n.deps]),
    'raw_deps': ('n', lambda n, j: n.raw_deps),
    'feats-str': ('n', lambda n, j: str(n.feats)),
    'feats-missing': ('n', lambda n, j: n.feats['Nope']),
    'feats-dict': ('n', lambda n, j: dict(n.feats)),
    'feats-len': ('n', lambda n, j: len(n.feats)),
    'feats-in': ('n', lambda n, j: 'Case' in n.feats),
    'feats-plural': ('n', lambda n, j: [n.feats.is_plural(), n.feats.is_singular()]),
    'feats-copy': ('n', lambda n, j: [dict(n.feats.copy()), str(n.feats.copy())]),
    'feats-eq*': ('n', lambda n, j: [n.feats == {}, n.feats == '_', n.feats != n.misc]),
    'misc-missing': ('n', lambda n, j: n.misc['Nope']),
    'misc-get': ('n', lambda n, j: n.misc['Gloss']),
    'misc-in': ('n', lambda n, j: 'SpaceAfter' in n.misc),
    'misc-str*': ('n', lambda n, j: str(n.misc)),
    'misc-dict*': ('n', lambda n, j: dict(n.misc)),
    'misc-list*': ('n', lambda n, j: sorted(n.misc)),
    'misc-len*': ('n', lambda n, j: len(n.misc)),
    'misc-copy*': ('n', lambda n, j: dict(n.misc.copy())),
    'space': ('n', lambda n, j: [n.no_space_after, n.gloss]),
    'str*': ('n', lambda n, j: str(n)),
    'address': ('n', lambda n, j: n.address()),
    'relations': ('n', lambda n, j: [n.parent, n.root, n.children, n.is_root(), n.is_empty(), n.is_leaf(), n.words, n.multiword_token]),
    'udeprel': ('w', lambda n, j: [n.udeprel, n.sdeprel]),
    'descendants': ('w', lambda n, j: calls(n.descendants, j)),
    'children': ('w', lambda n, j: calls(n.children, j)),
    'siblings': ('w', lambda n, j: calls(n.siblings, j)),
    'unordered': ('w', lambda n, j: sorted(n.unordered_descendants())),
    'neighbours': ('w', lambda n, j: [n.prev_node, n.next_node]),
    'nonprojective': ('w', lambda n, j: [n.is_nonprojective(), n.is_nonprojective_gap()]),
    'attrs': ('w', lambda n, j: n.get_attrs(ATTRS, undefs='-')),
    'attrs-raw': ('w', lambda n, j: n.get_attrs(['form', 'ord', 'parent', 'upos', 'depth'], stringify=False)),
    'attrs-misc*': ('w', lambda n, j: n.get_attrs(['misc_split', 'misc[X]', 'p_misc[Gloss]'])),
    'text-node': ('w', lambda n, j: [n.compute_text(), n.compute_text(use_mwt=False)]),
    'precedes': ('w', lambda n, j: [n.precedes(x) for x in n.root.descendants]),
    'is-descendant': ('w', lambda n, j: [n.is_descendant_of(x) for x in n.root.descendants]),
    'draw-node*': ('w', lambda n, j: printed(lambda: n.draw(color=bool(j & 1)))),
    'sent-id': ('t', lambda t, j: [t.sent_id, t.address(), t.zone, t.text, t.comment, t.newpar, dict(t.json)]),
    'marks*': ('t', lambda t, j: [t.newdoc, sorted(t.bundle.document.meta) if t.bundle and t.bundle.document else None]),
    'tree-descendants': ('t', lambda t, j: calls(t.descendants, j)),
    'tree-children': ('t', lambda t, j: calls(t.children, j)),
    'tree-empty': ('t', lambda t, j: [t.empty_nodes, t.descendants_and_empty]),
    'tree-text': ('t', lambda t, j: [t.compute_text(), t.get_sentence(), t.get_sentence('empty'), t.get_sentence('warn_empty')]),
    'tokens': ('t', lambda t, j: t.token_descendants),
    'mwts': ('t', lambda t, j: [[m.ord_range, m.form, m.no_space_after, m.address(), m.words] for m in t.multiword_tokens]),
    'mwts-misc': ('t', lambda t, j: [[str(m.misc), m.misc['X'], len(m.misc)] for m in t.multiword_tokens]),
    'tree-misc': ('t', lambda t, j: [str(t.feats), str(t.misc), t.is_nonprojective() if hasattr(t, 'is_nonprojective') else None]),
    'sorted': ('t', lambda t, j: sorted(t.descendants_and_empty)),
    'draw-tree*': ('t', lambda t, j: printed(lambda: t.draw(color=bool(j & 1), attributes='form,upos,deprel,ord'))),
    'bundle': ('t', lambda t, j: t.bundle and [str(t.bundle), t.bundle.address(), t.bundle.number, list(t.bundle), t.bundle.get_tree(t.zone), t.bundle.has_tree('xx')]),
    'bundle-nodes': ('t', lambda t, j: t.bundle and list(t.bundle.nodes)),
    'draw-bundle*': ('t', lambda t, j: t.bundle and printed(lambda: t.bundle.draw(color=False))),
    'common': ('t', lambda t, j: common(list(t.descendants_and_empty), j, j // 7)),
    'doc-lists': ('d', lambda d, j: [list(d.trees), list(d.nodes), list(d.nodes_and_empty), len(d), list(d), d[0], bool(d)]),
    'doc-str*': ('d', lambda d, j: str(d)),
    'draw-doc*': ('d', lambda d, j: printed(d.draw)),
    'doc-store*': ('d', lambda d, j: d.to_conllu_string()),
    'coref-node': ('n', lambda n, j: in_doc(n) and [n.coref_mentions, n.coref_entities]),
    'coref-entities': ('d', lambda d, j: [d.coref_entities, d.coref_mentions, sorted(d.eid_to_entity)]),
    'coref-eids': ('d', lambda d, j: [sorted(d.eid_to_entity), len(d.eid_to_entity)]),
    'coref-mentions': ('d', lambda d, j: [[e.eid, e.etype, str(e), e.mentions, e.split_ante] for e in d.coref_entities]),
    'coref-mention': ('d', lambda d, j: [[m.words, m.head, m.span, str(m.other), dict(m.other), m.other['nope'], str(m), m.entity] for m in d.coref_mentions]),
    'coref-bridging': ('d', lambda d, j: [[list(m.bridging), str(m.bridging), len(m.bridging), m.bridging(), m.bridging('part'), m.bridging.targets]
                                          for m in d.coref_mentions]),
    'coref-all-bridging': ('d', lambda d, j: [sorted(m.head.address() for m in e.all_bridging()) if False else len(list(e.all_bridging())) for e in d.coref_entities]),
    'coref-grp': ('d', lambda d, j: [e.eid for e in d.coref_entities]),
    'coref-sort': ('d', lambda d, j: [sorted(d.coref_mentions), sorted(d.coref_entities)]),
}
for _name, _scenario in {
        'write.Conllu': {}, 'write.Html': {}, 'write.Sdparse': {}, 'write.Sentences': {}, 'write.SentencesHtml': {}, 'write.TextModeTrees': {'layout': 'align'},
        'write.TextModeTreesHtml': {}, 'write.Tikz': {}, 'write.Treex': {}, 'write.Vislcg': {}, 'write.CorefHtml': {}, 'util.Wc': {}, 'corefud.Stats': {},
        'corefud.PrintEntities': {}, 'corefud.CountGaps': {}, 'corefud.MiscStats': {},
        'util.See': {'node': 'node.parent.is_root()', 'stats': 'dir,edge,depth,children,siblings,p_upos,p_lemma,c_upos,form,lemma,upos,deprel,feats_split'}}.items():
    def _run(d, j, name=_name, kw=_scenario):
        from udapi.core.run import create_block
        def go():
            create_block(name, **kw).run(d)
        return printed(go)
    READS[f'block-{_name}*'] = ('d', _run)
READS['block-write.OldCorefUD*'] = ('d', lambda d, j: READS['block-write.Conllu*'][1](d, j))

NAMES = sorted(READS)


def in_doc(n):
    b = n.root.bundle
    return b is not None and b.document is not None and any(x is b for x in b.document.bundles)


def read(world, t, k, what, j):
    """One read; returns [name, result, contains MISC]."""
    name = NAMES[what % len(NAMES)]
    needs, fn = READS[name]
    tree = world.trees[t % len(world.trees)]
    if needs == 'd':
        obj = world.docs[t % len(world.docs)]
        if not obj.bundles or not any(list(b.trees) for b in obj.bundles):
            return name, 'nothing to read'
    elif needs == 't':
        obj = tree
    else:
        nodes = list(tree.descendants_and_empty if needs == 'n' else tree.descendants)
        if not nodes:
            return name, 'nothing to read'
        obj = nodes[k % len(nodes)]
    if name.startswith('block-'):
        # some exports refuse words without some attributes; a failed read is a read as well
        try:
            return name, norm(world, fn(obj, j))
        except Exception as e:   # pylint: disable=broad-except
            world.sim.count('read-failed:' + name)
            return name, 'failed: ' + type(e).__name__
    return name, norm(world, fn(obj, j))
