"""What can be observed of a document through the public interface, as plain data."""


def ordstr(o):
    return str(o)


def tree_view(tree, refs=None):
    """All observable content of a tree.  `refs(node)` names nodes; default: id inside its own tree."""
    def name(n):
        if refs is not None:
            return refs(n)
        if n is None:
            return None
        return f"{'' if n.root is tree else '!' + str(n.root.sent_id) + '#'}{n.ord}"

    def row(n):
        return {
            'ord': ordstr(n.ord), 'form': n.form, 'lemma': n.lemma, 'upos': n.upos, 'xpos': n.xpos, 'deprel': n.deprel,
            'feats': str(n.feats), 'misc': str(n.misc), 'parent': name(n.parent),
            'children': [name(c) for c in n.children] if not n.is_empty() else [],
            'deps': [[name(d['parent']), d['deprel']] for d in n.deps]}
    return {
        'zone': tree.zone, 'sent_id': tree.sent_id, 'text': tree.text, 'comment': tree.comment, 'newdoc': tree.newdoc,
        'newpar': tree.newpar, 'json': dict(tree.json),
        'children': [name(c) for c in tree.children],
        'nodes': [row(n) for n in tree.descendants],
        'empty': [row(n) for n in tree.empty_nodes],
        'mwts': [[m.form, str(m.misc), sorted(name(w) for w in m.words)] for m in tree.multiword_tokens]}


def doc_view(doc, coref=False):
    out = {'meta': {k: v for k, v in sorted(doc.meta.items()) if v is not None}, 'json': dict(doc.json),
           'bundles': [{'id': b.bundle_id, 'number': b.number, 'trees': [tree_view(t) for t in b.trees]} for b in doc.bundles]}
    if coref:
        out['coref'] = coref_view(doc)
    return out


def mention_view(m):
    return {'words': [w.address() for w in m.words], 'head': m.head.address(), 'span': m.span, 'other': str(m.other),
            'bridging': [[bl.relation, bl.target.eid] for bl in m.bridging]}


def coref_view(doc):
    return [{'eid': e.eid, 'etype': e.etype, 'mentions': [mention_view(m) for m in e.mentions],
             'split_ante': sorted(x.eid for x in e.split_ante)}
            for e in sorted(doc.coref_entities, key=lambda e: e.eid)]
