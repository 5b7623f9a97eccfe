"""P05: attribute maps behave like one dictionary whatever view is used, under interleaved writers and readers."""
from dst import docworld, gen as G, world

RUNS = {'quick': 8000, 'thorough': 200000}
LISTS = ('ops',)
STATE_RULE = 'one state = (kind of map, model content, whether the string was assigned verbatim, last operation), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.dualdict', 'udapi.core.feats', 'udapi.core.coref.OtherDualDict', 'node, mwt and mention properties', 'write.Conllu'],
              'stub': []}
ASSUMPTIONS = ['assigned strings are well-formed (no name twice, no empty value, no empty item)',
               'setdefault() and get() with a default are not used (a missing name always reads as an empty string)']
PROBES = ('write-after-read-of-other-view', 'self-assigned', 'emptied')
NAMES = ['Case', 'aa', 'Zz', 'Gender', 'gender', 'B', 'Number', 'SpaceAfter', 'Gloss', 'X[psor]']
VALUES = ['1', 'Nom', 'No', 'a=b', 'Plur', 'v:w', 'č']
VIEWS = ('str', 'get', 'len', 'in', 'iter', 'items', 'eq', 'eqstr', 'dict', 'bool', 'get2')


def gen(rng):
    doc = G.document(rng, 1, (2, 4), empties=0.9, mwts=0.9, names=G.Names('a'), sorted_misc=True)
    b = lambda n=1 << 16: rng.randrange(n)
    clients = []
    for _ in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.randint(2, 16)):
            kind = rng.choices(['set', 'flag', 'none', 'del', 'string', 'dict', 'map', 'null', 'clear', 'pop', 'popitem', 'update', 'copy', 'new',
                                'attr', 'read', 'store', 'dictnull'],
                               [5, 1, 2, 2, 3, 2, 2, 1, 0.6, 1, 0.4, 1, 1, 1, 1, 6, 0.7, 0.6])[0]
            ops.append([kind, b(), b(), b(), b()])
        clients.append(ops)
    ops = []
    while any(clients):
        ops.append(rng.choice([c for c in clients if c]).pop(0))
    return {'doc': doc, 'ops': ops}


class Model:
    def __init__(self, d=None, verbatim=None):
        self.d, self.verbatim = dict(d or {}), verbatim

    def text(self, sep, eq, empty):
        if self.verbatim is not None:
            return self.verbatim
        items = sorted(self.d.items(), key=lambda x: x[0].lower())
        return sep.join(k if v is True else f'{k}{eq}{v}' for k, v in items) or empty


class Slot:
    """One attribute map; `owner`/`attr` if it is a property of something."""

    def __init__(self, name, kind, owner=None, attr=None, obj=None):
        self.name, self.kind, self.owner, self.attr, self.obj = name, kind, owner, attr, obj
        self.sep, self.eq, self.empty = (',', ':', '') if kind == 'other' else ('|', '=', '_')
        self.model = Model()
        self.lastview = None

    def get(self):
        return self.obj if self.obj is not None else getattr(self.owner, self.attr)

    def assign(self, value):
        if self.obj is not None:
            self.obj.set_mapping(value)
        else:
            setattr(self.owner, self.attr, value)


def ambiguous(d):
    """Two names that differ in case only: their alphabetical order is not specified."""
    low = [k.lower() for k in d]
    return len(set(low)) != len(low)


def execute(plan, sim):
    from udapi.core.document import Document
    from udapi.core.dualdict import DualDict
    from udapi.core.feats import Feats
    from udapi.core.coref import OtherDualDict
    doc = Document()
    doc.from_conllu_string(plan['doc'])
    tree = doc.bundles[0].trees[0]
    words = tree.descendants
    doc2 = Document()              # storing adds Entity=... to MISC of words in mentions, thus mentions live in another document
    doc2.from_conllu_string(plan['doc'])
    ent = doc2.create_coref_entity()
    words2 = doc2.bundles[0].trees[0].descendants
    slots = []
    for i, n in enumerate(list(words[:2]) + list(tree.empty_nodes[:1])):
        slots += [Slot(f'n{i}.feats', 'feats', n, 'feats'), Slot(f'n{i}.misc', 'misc', n, 'misc')]
    for i, m in enumerate(tree.multiword_tokens[:1]):
        slots.append(Slot(f'mwt{i}.misc', 'misc', m, 'misc'))
    for i in range(2):
        slots.append(Slot(f'mention{i}.other', 'other', ent.create_mention(words=[words2[i]]), 'other'))
    slots += [Slot('free', 'misc', obj=DualDict()), Slot('freefeats', 'feats', obj=Feats()), Slot('freeother', 'other', obj=OtherDualDict())]
    # initial content of loaded maps, from the text itself (nothing is read yet: lazily decoded)
    cols = {}
    for line in plan['doc'].split('\n'):
        f = line.split('\t')
        if len(f) == 10:
            cols[f[0]] = f
    for s in slots:
        if s.owner is not None and s.kind != 'other':
            key = s.owner.ord_range if s.name.startswith('mwt') else str(s.owner.ord)
            text = cols[key][5 if s.kind == 'feats' else 9]
            s.model = Model(parse(text, '|', '='), text)

    def verify(s, what):
        obj, m = s.get(), s.model
        sim.check(dict(obj) == m.d, 'dictionary-view', lambda: f'{s.name} after {what}: {dict(obj)}, expected {m.d}')
        if m.verbatim is None and ambiguous(m.d):
            got = sorted(str(obj).split(s.sep))
            sim.check(got == sorted(m.text(s.sep, s.eq, s.empty).split(s.sep)), 'string-view', lambda: f'{s.name} after {what}: {str(obj)!r}, content {m.d}')
        else:
            sim.check(str(obj) == m.text(s.sep, s.eq, s.empty), 'string-view',
                      lambda: f'{s.name} after {what}: {str(obj)!r}, expected {m.text(s.sep, s.eq, s.empty)!r}')
        sim.check(len(obj) == len(m.d) and bool(obj) == bool(m.d), 'length', lambda: f'{s.name} after {what}: length {len(obj)}, content {m.d}')

    def changed(s):
        s.model.verbatim = None
        if not s.model.d:
            sim.probe('emptied')

    for op in plan['ops']:
        kind, a, b, c, d = op
        s = slots[a % len(slots)]
        m = s.model
        key, value = NAMES[b % len(NAMES)], VALUES[c % len(VALUES)]
        if s.kind == 'other':
            key, value = key.replace('[', '').replace(']', ''), value + ['', ',x', ',x,,y', '%2C,'][(c >> 6) % 4]
        stored = value.replace(',', '%2C') if s.kind == 'other' else value
        if kind not in ('read', 'store') and s.lastview:
            sim.probe('write-after-read-of-other-view')
        if kind == 'set':
            s.get()[key] = value
            m.d[key] = stored
            changed(s)
        elif kind == 'flag':
            s.get()[key] = True
            m.d[key] = True
            changed(s)
        elif kind in ('none', 'del', 'pop'):
            had = key in m.d
            old = m.d.pop(key, '')
            obj = s.get()
            if kind == 'pop':
                got = obj.pop(key)
                sim.check(got == old, 'pop', lambda: f'{s.name}.pop({key}) gives {got!r}, expected {old!r}')
            elif kind == 'del':
                del obj[key]
            else:
                obj[key] = [None, ''][d % 2]
            if had:
                changed(s)
        elif kind == 'popitem':
            if not m.d:
                continue
            k, v = s.get().popitem()
            sim.check(m.d.get(k) == v, 'popitem', lambda: f'{s.name}.popitem() gives {k}={v}, content {m.d}')
            del m.d[k]
            changed(s)
        elif kind == 'clear':
            s.get().clear()
            s.model = Model({}, s.empty)
        elif kind == 'string':
            names = [NAMES[(b >> i) % len(NAMES)] for i in range(c % 4)]
            if s.kind == 'other':
                names = [n.replace('[', '').replace(']', '') for n in names]
            vals = {n: (True if (d >> i) % 5 == 0 else VALUES[(d >> i) % len(VALUES)]) for i, n in enumerate(names)}
            text = s.sep.join(n if v is True else f'{n}{s.eq}{v}' for n, v in vals.items())
            s.assign(text)
            s.model = Model(vals, text or s.empty)
        elif kind == 'null':
            s.assign([None, '', s.empty][d % 3])
            s.model = Model({}, s.empty)
        elif kind in ('dict', 'dictnull'):
            new = {k: VALUES[(b >> i) % len(VALUES)] for i, k in enumerate(NAMES[:9][(c % 9):(c % 9) + 3])}
            if s.kind == 'other' and d & 2:
                new = {k: v + [',x,y', ''][(d >> 2) % 2] for k, v in new.items()}
            if d & 16:
                new['Flag'] = True
            given = dict(new)
            if s.kind == 'other':
                new = {k: v.replace(',', '%2C') if v is not True else v for k, v in new.items()}
            if kind == 'dictnull':
                given['Nothing'] = [None, ''][d % 2]
            s.assign(given)
            given['Later'] = 'x'           # the origin changes afterwards
            s.model = Model(new)
        elif kind == 'update':
            s.get().update({'Case': 'U', key: value})
            m.d.update({'Case': 'U', key: stored})
            if key == 'Case':
                m.d['Case'] = stored
            changed(s)
        elif kind == 'map':
            o = slots[d % len(slots)]
            same = (o.kind == 'other') == (s.kind == 'other')
            if not same:
                continue
            src = o.get()
            s.assign(src)
            if o is s:
                sim.probe('self-assigned')
            s.model = Model(o.model.d)
        elif kind in ('copy', 'new'):
            obj = s.get()
            new = obj.copy() if kind == 'copy' else (OtherDualDict if s.kind == 'other' else [DualDict, Feats][d % 2])(obj)
            t = Slot(f'{s.name}.{kind}', s.kind, obj=new)
            t.model = Model(m.d, m.verbatim if kind == 'copy' else None)
            if len(slots) < 24:
                slots.append(t)
            verify(t, kind)
        elif kind == 'attr':
            if s.kind != 'misc' or s.owner is None or s.name.startswith('mwt'):
                continue
            if d % 2:
                s.owner.gloss = value
                m.d['Gloss'] = value
                changed(s)
            got = [s.owner.no_space_after, s.owner.gloss]
            sim.check(got == [m.d.get('SpaceAfter') == 'No', m.d.get('Gloss', '')], 'shortcuts', lambda: f'{s.name}: {got}, content {m.d}')
        elif kind == 'store':
            text = doc.to_conllu_string()
            for t in slots:
                if t.owner is None or t.kind == 'other' or (t.model.verbatim is None and ambiguous(t.model.d)):
                    continue
                want = t.model.text(t.sep, t.eq, t.empty)
                key2 = t.owner.ord_range if t.name.startswith('mwt') else str(t.owner.ord)
                row = next(f for f in (x.split('\t') for x in text.split('\n')) if f[0] == key2)
                got = row[5 if t.kind == 'feats' else 9]
                sim.check(got == want, 'stored', lambda: f'{t.name} is stored as {got!r}, expected {want!r}')
        else:
            view = VIEWS[b % len(VIEWS)]
            obj = s.get()
            s.lastview = view
            want = m.text(s.sep, s.eq, s.empty)
            clear = m.verbatim is not None or not ambiguous(m.d)
            got, exp = {
                'str': lambda: (str(obj) if clear else want, want), 'get': lambda: (obj[key], m.d.get(key, '')), 'len': lambda: (len(obj), len(m.d)),
                'in': lambda: (key in obj, key in m.d), 'iter': lambda: (sorted(obj), sorted(m.d)), 'items': lambda: (dict(obj.items()), m.d),
                'eq': lambda: (obj == m.d, True), 'eqstr': lambda: (obj == want if clear and s.kind != 'other' else True, True),
                'dict': lambda: (dict(obj), m.d), 'bool': lambda: (bool(obj), bool(m.d)), 'get2': lambda: (obj.get(key), m.d.get(key, '')),
            }[view]()
            sim.check(got == exp, 'read-' + view, lambda: f'{s.name}: {view} of {key} gives {got!r}, expected {exp!r} (content {m.d}, string {want!r})')
            sim.log(view, s.name, repr(got))
            continue
        sim.nontrivial = True
        sim.log(op, sorted((k, str(v)) for k, v in s.model.d.items()))
        sim.state([s.kind, sorted((k, str(v)) for k, v in s.model.d.items()), s.model.verbatim, kind])
        # sometimes leave everything unread, so that staleness can build up
        if d % 4 == 0:
            verify(s, kind)
        if kind == 'map' and d % 8 == 0:
            verify(slots[d % len(slots)], 'being assigned from')
    for s in slots:
        verify(s, 'all operations')


def parse(text, sep, eq):
    if text in ('_', ''):
        return {}
    out = {}
    for x in text.split(sep):
        k, _, v = x.partition(eq)
        out[k] = v if eq in x else True
    return out
