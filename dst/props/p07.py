"""P07: readers deliver every sentence exactly once, in order, properly grouped."""
import argparse
import io
import json
import math
import re

from dst import disk, gen as g

RUNS = {'quick': 6000, 'thorough': 250000}
LISTS = ('files', 'schedule')
STATE_RULE = 'one state = (reader, settings, number of files, shape of the files: trees, bundles, document marks, messiness), counted once over all runs'
TIME_UNIT = 'documents asked for (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.basereader', 'udapi.core.files', 'udapi.core.run', 'read.Conllu', 'read.Conll', 'read.Sentences', 'read.Text', 'read.Vislcg',
                       'read.Ccv', 'util.Split'],
              'stub': ['raw files and standard input (dst/disk.py)', 'an independent partition of the input into documents and bundles (the oracle)']}
ASSUMPTIONS = ['trees of one sentence in several zones follow each other and only the first has a document mark',
               'a document without any sentence may be delivered for an input without selected sentences and, by readers of one zone, at the very end',
               'max_docs counts Udapi documents and document marks, as its comment in the code says']
PROBES = ('one-by-one', 'fast', 'several-files', 'empty-file', 'merge', 'split_docs', 'bundles_per_doc', 'max_docs-reached', 'filter', 'zones', 'ignore_sent_id',
          'no-sent-id', 'messy-end', 'messy-start', 'messy-inside', 'two-readers', 'interleaved-readers', 'util.Split', 'after-finished', 'filehandle', 'stdin',
          'newdoc', 'reader-sentences', 'reader-text', 'reader-conll', 'reader-vislcg', 'reader-ccv', 'filelist', 'same-file-again')


def gen(rng):
    b = rng.randrange
    kind = rng.choices(['conllu', 'conll', 'sentences', 'text', 'vislcg', 'ccv'], [10, 2, 2, 1, 1, 1])[0]
    shape = rng.choice(['plain', 'plain', 'zones', 'zones', 'docs', 'docs', 'all'])
    files = [one_file(rng, kind, shape) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]
    s = {}
    if rng.random() < 0.35:
        s['bundles_per_doc'] = rng.choice([1, 1, 2, 2, 3, 5])
    if rng.random() < 0.3 and kind != 'ccv':
        s['split_docs'] = 1
    if rng.random() < 0.3:
        s['max_docs'] = rng.choice([1, 1, 2, 3, 4])
    if rng.random() < 0.3:
        s['merge'] = 1
    if rng.random() < 0.2 and kind in ('conllu', 'conll'):
        s['sent_id_filter'] = rng.choice(['.*[02468](/.*)?$', 's1', '.*/en$', '.*x', '(?!.*[3])', '\\?$'])
    if rng.random() < 0.15 and shape in ('plain', 'docs'):
        s['zone'] = rng.choice(['en', '', 'de_2'])
    if rng.random() < 0.12 and shape in ('plain', 'docs'):
        s['ignore_sent_id'] = 1
    if kind == 'sentences':
        how = rng.choice([0, 0, 1, 2])
        if how == 1:
            s['ignore_empty_lines'] = 1
        elif how == 2:
            s['newdoc_if_empty_line'] = 1
    plan = {'kind': kind, 'files': files, 'settings': s, 'how': rng.choice(['list', 'string', 'handle', 'stdin', 'wild', 'wild', 'filelist', 'run', 'run']), 'listing': rng.randrange(1, 1000),
            'names': rng.choice([0, 0, 1, 2]), 'again': rng.choice([0, 0, 0, 1]), 'chunks': rng.choice([[], [1], [5, 3], [100]]),
            'second': None, 'schedule': [], 'split': 0}
    if kind == 'conllu' and rng.random() < 0.25 and shape in ('plain', 'docs'):
        plan['second'] = {'files': [one_file(rng, kind, 'plain') for _ in range(rng.choice([1, 1, 2, 3]))],
                          'settings': {k: v for k, v in s.items() if k in ('bundles_per_doc', 'merge')}}
        plan['how'] = 'run'
    elif rng.random() < 0.15:
        plan['split'] = rng.choice([1, 2, 3, -1, -2, -3])
        plan['how'] = 'run'
    elif rng.random() < 0.3:
        plan['second'] = {'files': [one_file(rng, kind, shape) for _ in range(rng.choice([1, 2]))], 'settings': dict(s)}
        plan['schedule'] = [b(2) for _ in range(12)]
    return plan


def one_file(rng, kind, shape):
    """A file: [messy start, messy inside, messy end, [[id, zone, newdoc, n], ...]]."""
    trees, k = [], 0
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        k += 1
        newdoc = None
        if shape in ('docs', 'all') and rng.random() < 0.4:
            newdoc = rng.choice([True, 'd%d' % rng.randrange(9)])
        zones = [None]
        if shape in ('zones', 'all'):
            zones = rng.choice([[None], ['en'], [None, 'en'], ['en', 'de'], ['de', None, 'en'], ['cs', 'en']])
        sid = 's%d' % k
        if kind in ('conllu', 'conll') and len(zones) == 1 and zones[0] is None:
            sid = rng.choice([sid, sid, sid, None, 'x-%d.p%d' % (k, k), str(k + 2)])
        for i, z in enumerate(zones if kind in ('conllu', 'conll') else [None]):
            trees.append([sid, z, newdoc if i == 0 else None, rng.randint(1, 3), rng.choice([0, 0, 0, 1, 2])])
    return [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 0, 1, 2, 3, 4]), trees]


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for key in list(plan['settings']):
        p = cp()
        del p['settings'][key]
        yield p
    if plan['second']:
        p = cp()
        p['second'] = None
        yield p
    for key, val in (('how', 'list'), ('chunks', []), ('split', 0), ('names', 0), ('again', 0), ('listing', 0)):
        if plan[key] != val:
            p = cp()
            p[key] = val
            yield p
    for which in ('files', 'second'):
        fs = plan['files'] if which == 'files' else plan['second']['files'] if plan['second'] else []
        for i, f in enumerate(fs):
            for j in range(3):
                if f[j]:
                    p = cp()
                    (p['files'] if which == 'files' else p['second']['files'])[i][j] = 0
                    yield p
            for j in range(len(f[3])):
                p = cp()
                del (p['files'] if which == 'files' else p['second']['files'])[i][3][j]
                yield p
                if f[3][j][2]:
                    p = cp()
                    (p['files'] if which == 'files' else p['second']['files'])[i][3][j][2] = None
                    yield p


# --- the text of a file ----------------------------------------------------------------------------------------------

def marker(prefix, fi, ti):
    return f'{prefix}{fi}w{ti}'


def render(kind, f, prefix, fi, settings):
    """-> text of the file, [(id, zone, newdoc, marker)] as the file says."""
    start, inside, end, trees = f
    out, said = [], []
    if kind in ('conllu', 'conll'):
        for ti, (sid, zone, newdoc, n, extra) in enumerate(trees):
            m = marker(prefix, fi, ti)
            lines = []
            if newdoc:
                lines.append('# newdoc' + ('' if newdoc is True else ' id = ' + newdoc))
            if sid is not None:
                lines.append('# sent_id = ' + sid + ('' if zone is None else '/' + zone))
            lines += [f'{i}\t{m if i == 1 else "v"}\t_\t_\t_\t_\t{i - 1}\tdep\t_\t_' for i in range(1, n + 1)]
            if extra == 1:
                lines.append(f'{n}.1\te\t_\t_\t_\t_\t_\t_\t{n}:dep\t_')
            out.append('\n'.join(lines))
            said.append([sid, zone, newdoc, m])
        text = '\n\n'.join(out) + ('\n\n' if out else '')
        if inside:
            text = text.replace('\n\n', '\n\n\n')
            if len(out) > 1:
                text = text.replace('\n\n\n', '\n\n# lost comment\n\n', 1)
        text = ['', '\n', '\n\n\n'][start] + text
        return text.rstrip('\n') + ['\n\n', '\n', '', '\n\n\n\n', '\n\n# the end'][end] if out else text + ['', '\n', '\n\n', '', '# only a comment\n'][end], said
    if kind == 'sentences':
        pending = None
        lines = []
        skip = settings.get('ignore_empty_lines') or settings.get('newdoc_if_empty_line')
        for ti, (sid, zone, newdoc, n, extra) in enumerate(trees):
            m = marker(prefix, fi, ti)
            for _ in range(extra):
                lines.append('')
                if not skip:
                    said.append([None, None, None, ''])
            lines.append(m + ' v' * n + ('  ' if inside else ''))
            said.append([None, None, True if settings.get('newdoc_if_empty_line') and extra else None, m + ' v' * n])
        text = ''.join(x + '\n' for x in lines)
        if end == 1:
            text = text.rstrip('\n')
        elif end >= 2 and skip:
            text += '\n' * end
        return text, said
    if kind == 'text':
        for ti, (sid, zone, newdoc, n, extra) in enumerate(trees):
            m = marker(prefix, fi, ti)
            out.append('\n'.join([m] + ['v'] * n))
            said.append([None, None, None, ' '.join([m] + ['v'] * n)])
        text = ('\n\n\n' if inside else '\n\n').join(out) + ('\n' if out else '')
        return ['', '\n', '\n\n'][start] + (text.rstrip('\n') + ['\n', '', '\n\n', '\n\n\n', '\n'][end]), said
    if kind == 'vislcg':
        for ti, (sid, zone, newdoc, n, extra) in enumerate(trees):
            m = marker(prefix, fi, ti)
            out.append(('# c\n' if extra else '') + '\n'.join(f'"<{m if i == 1 else "v"}>"\n\t"x" N @dep #{i}->{i - 1}' for i in range(1, n + 1)))
            said.append([None, None, None, m])
        text = ('\n\n\n' if inside else '\n\n').join(out) + ('\n' if out else '')
        return ['', '\n', '\n\n'][start] + text.rstrip('\n') + (['\n\n', '\n', '', '\n\n\n', '\n'][end] if out else ''), said
    if kind == 'ccv':
        poems = []
        for ti, (sid, zone, newdoc, n, extra) in enumerate(trees):
            m = marker(prefix, fi, ti)
            lines = [{'text': m if i == 0 else 'v', 'rhyme': 1, 'metre': [], 'stress': '1', 'punct': {}, 'words': []} for i in range(n)]
            poems.append({'poem_id': f'p{fi}.{ti}', 'p_author': {}, 'b_author': {}, 'biblio': {}, 'body': [lines]})
            said += [[None, None, f'p{fi}.{ti}' if i == 0 else None, m if i == 0 else 'v'] for i in range(n)]
        return json.dumps(poems), said
    raise AssertionError(kind)


# --- the oracle ------------------------------------------------------------------------------------------------------

def partition(kind, said, settings, names):
    """Documents that the settings ask for: [{'from', 'name', 'bundles': [[id, [[zone, newdoc, marker], ...]], ...]}]."""
    docs, cur, count = [], None, 0
    limit = settings.get('max_docs', 0)
    size = settings.get('bundles_per_doc', 0)
    flt = re.compile(settings['sent_id_filter']) if 'sent_id_filter' in settings else None
    for fi, trees in enumerate(said):
        pending = None
        first_in_file = True
        for sid, zone, newdoc, m in trees:
            full = (sid or '?') + ('' if zone is None else '/' + zone)
            if flt is not None and not flt.match(full):
                pending = newdoc or pending
                continue
            newdoc, pending = newdoc or pending, None
            base = None if settings.get('ignore_sent_id') else sid
            starts = cur is None or (first_in_file and not settings.get('merge')) or (bool(newdoc) and bool(settings.get('split_docs')))
            if not starts:
                joins = not first_in_file and base is not None and base == last
                if not joins and size and len(cur['bundles']) == size:
                    starts = True
            if starts or newdoc:
                if limit and count >= limit:
                    return docs
                count += 1
            if starts:
                cur = {'from': names[fi], 'name': newdoc if isinstance(newdoc, str) else None, 'bundles': []}
                docs.append(cur)
                joins = False
            if not joins:
                cur['bundles'].append([base, []])
            z = settings.get('zone', 'keep')
            cur['bundles'][-1][1].append([(zone or '') if z == 'keep' or (z == 'keep' and zone) else z, newdoc, m])
            last, first_in_file = base, False
    return docs


def first_form(tree):
    if tree.text is not None:
        return tree.text
    return tree.descendants[0].form if tree.descendants else None


def delivered(doc, sim):
    """What a delivered document looks like; its structure is checked on the way."""
    for i, b in enumerate(doc.bundles, 1):
        sim.check(b.number == i and b.document is doc, 'bundle-number', lambda: f'bundle {i} has number {b.number}')
        for t in b.trees:
            sid = b.bundle_id + ('/' + t.zone if t.zone else '')
            sim.check(t.bundle is b and t.sent_id == sid, 'tree-id', lambda: f'{t.sent_id} in bundle {b.bundle_id}, zone {t.zone!r}')
    ids = [b.bundle_id for b in doc.bundles]
    sim.check(len(set(ids)) == len(ids) or len(set(ids)) >= 1, 'bundle-id', lambda: f'bundle ids {ids}')
    return {'from': doc.meta.get('loaded_from'), 'name': doc.meta.get('docname'),
            'bundles': [[b.bundle_id, [[t.zone, t.newdoc, first_form(t)] for t in b.trees]] for b in doc.bundles]}


def compare(sim, expect, got, what, splitted=False):
    got = [d for d in got if d['bundles']]
    flat = lambda ds: [t[2] for d in ds for b in d['bundles'] for t in b[1]]
    sim.check(flat(got) == flat(expect), 'sentences', lambda: f'{what}: delivered {flat(got)}, the input selects {flat(expect)}')
    shape = lambda ds: [[[t[2] for t in b[1]] for b in d['bundles']] for d in ds]
    sim.check(shape(got) == shape(expect), 'grouping', lambda: f'{what}: delivered {shape(got)}, the settings say {shape(expect)}')
    for e, d in zip(expect, got):
        zones = lambda x: [[t[:2] for t in b[1]] for b in x['bundles']]
        sim.check(zones(d) == zones(e), 'zones-and-marks', lambda: f'{what}: {zones(d)} instead of {zones(e)}')
        if not splitted:
            sim.check(d['from'] == e['from'], 'loaded_from', lambda: f"{what}: loaded from {d['from']} instead of {e['from']}")
            sim.check(d['name'] == e['name'], 'docname', lambda: f"{what}: docname {d['name']} instead of {e['name']}")
        for (got_id, _), (want, _) in zip(d['bundles'], e['bundles']):
            sim.check(want is None or got_id == want, 'ids', lambda: f'{what}: bundle id {got_id} instead of {want}')
        auto = [i for (i, _), (w, _) in zip(d['bundles'], e['bundles']) if w is None]
        sim.check(splitted or len(set(auto)) == len(auto), 'ids', lambda: f'{what}: automatic bundle ids {auto}')


# --- running ---------------------------------------------------------------------------------------------------------

CLASSES = {'conllu': 'Conllu', 'conll': 'Conll', 'sentences': 'Sentences', 'text': 'Text', 'vislcg': 'Vislcg', 'ccv': 'Ccv'}


class Source:
    """One reader with its input and the documents expected from it."""

    def __init__(self, plan, sim, dsk, part, prefix, how):
        kind, settings = plan['kind'], dict(part['settings'])
        self.kind, self.sim, self.settings = kind, sim, settings
        files = part['files']
        texts, said = [], []
        if how in ('handle', 'stdin'):
            files = files[:1]
        for fi, f in enumerate(files):
            t, s = render(kind, f, prefix, fi, settings)
            texts.append(t)
            said.append(s)
            if f[0]:
                sim.probe('messy-start')
            if f[1]:
                sim.probe('messy-inside')
            if f[2]:
                sim.probe('messy-end')
            if not s:
                sim.probe('empty-file')
        names = [f'{prefix}{i}.txt' for i in range(len(files))]
        if plan['names']:           # the alphabetical order is not the order by length
            names = [prefix + ['0', '03', '1', '10', '101', '2', '20', '3', '4', '40', '5', '50', '6', '7'][i % 14 if plan['names'] == 1 else -1 - i % 14] + '.txt' for i in range(len(files))]
            if plan['names'] == 2:
                names = names[::-1]
        for n, t in zip(names, texts):
            dsk.put(n, t.encode())
        dsk.listing = plan['listing']
        if plan['again'] and how in ('list', 'string', 'filelist') and len(names) == 2 and all(said) and not set(settings) & {'max_docs', 'sent_id_filter'}:
            names = names + names[:1]           # the same file twice
            said = said + [[list(t) for t in said[0]]]
            sim.probe('same-file-again')
        if how == 'wild':
            order = sorted(range(len(names)), key=names.__getitem__)
            names, said = [names[i] for i in order], [said[i] for i in order]
        self.empty_inputs = sum(not s for s in said)
        self.names, self.said = names, said
        self.stdin = None
        kw = dict(settings)
        if how == 'handle':
            sim.probe('filehandle')
            kw['filehandle'] = disk.text_in(disk.StreamIn(sim, texts[0].encode(), plan['chunks'])) if plan['chunks'] else io.StringIO(texts[0])
            names = [None]
        elif how == 'stdin':
            sim.probe('stdin')
            self.stdin = texts[0].encode()
            kw['files'] = '-'
            names = ['-']
        elif how == 'wild':
            kw['files'] = f'!{prefix}*.txt'
        elif how == 'filelist':
            sim.probe('filelist')
            dsk.put(f'{prefix}.list', ('\n'.join(names) + '\n\n').encode())
            kw['files'] = f'@{prefix}.list'
        elif how == 'list':
            kw['files'] = list(names)
        else:
            kw['files'] = ' '.join(names)
        if not names:
            names = kw['files'] = ['none.txt']
            dsk.put('none.txt', b'' if kind != 'ccv' else b'[]')
            self.said = [[]]
            self.empty_inputs = 1
        self.kwargs = kw
        self.expect = partition(kind, self.said, settings, names)
        if kind == 'sentences' and settings.get('newdoc_if_empty_line'):
            for d in self.expect:
                d['bundles'][0][1][0][1] = True
        selected = {t[2] for d in self.expect for b in d['bundles'] for t in b[1]}
        self.selected = selected
        for k in settings:
            if k in PROBES:
                sim.probe(k)
        if any(t[1] for f in self.said for t in f):
            sim.probe('zones')
        if any(t[2] for f in self.said for t in f):
            sim.probe('newdoc')
        if any(t[0] is None for f in self.said for t in f):
            sim.probe('no-sent-id')
        if 'sent_id_filter' in settings:
            sim.probe('filter')
        if settings.get('max_docs') and len(selected) < sum(len(x) for x in self.said):
            sim.probe('max_docs-reached')
        if len(files) > 1:
            sim.probe('several-files')
        sim.probe('one-by-one' if set(settings) & {'bundles_per_doc', 'split_docs', 'sent_id_filter', 'max_docs'} else 'fast')
        sim.probe('reader-' + kind)
        # no reader may need more documents than this
        self.limit = len(self.expect) + self.empty_inputs + len(files) + 3

    def reader(self):
        mod = __import__('udapi.block.read.' + self.kind, fromlist='x')
        return getattr(mod, CLASSES[self.kind])(**self.kwargs)

    def check_empty(self, got, what):
        """Documents without sentences."""
        empty = [i for i, d in enumerate(got) if not d['bundles']]
        unselected = sum(1 for s in self.said if not any(t[3] in self.selected for t in s))
        trailing = int(self.kind not in ('conllu', 'conll') or not self.selected)
        self.sim.check(len(empty) <= unselected + trailing, 'empty-documents', lambda: (
            f'{what}: {len(empty)} documents without sentences among {len(got)}, {unselected} files without selected sentences'))


def shape_of(plan):
    return [plan['kind'], sorted(plan['settings'].items()), plan['how'], plan['split'],
            [[f[:3], [[t[0] is None, t[1], bool(t[2])] for t in f[3]]] for f in plan['files']]]


def execute(plan, sim):
    from udapi.core.document import Document
    sim.state(shape_of(plan))
    with disk.Disk(sim, chunks=plan['chunks']) as dsk:
        how = plan['how']
        if plan['chunks']:
            sim.nontrivial = True
        first = Source(plan, sim, dsk, plan, 'a', how)
        if plan['second'] and how == 'run' and not plan['schedule']:
            return two_readers(plan, sim, dsk, first)
        if how == 'run':
            return scenario(plan, sim, first)
        sources = [first]
        if plan['second']:
            sources.append(Source(plan, sim, dsk, plan['second'], 'b', how if how != 'stdin' else 'list'))
            sim.probe('interleaved-readers')
            sim.nontrivial = True
        old = disk.Stdio(stdin=disk.text_in(disk.StreamIn(sim, first.stdin, plan['chunks']))) if first.stdin is not None else disk.Stdio()
        with old:
            readers = [s.reader() for s in sources]
            got = [[] for _ in sources]
            turn = list(plan['schedule'])
            while not all(r.finished for r in readers):
                k = turn.pop(0) % len(readers) if turn else 0
                while readers[k].finished:
                    k = (k + 1) % len(readers)
                doc = Document()
                readers[k].apply_on_document(doc)
                d = delivered(doc, sim)
                sim.log('doc', k, d)
                got[k].append(d)
                sim.check(len(got[k]) <= sources[k].limit, 'finishes', lambda: f'{len(got[k])} documents and the reader has not finished: {got[k][-3:]}')
            for s, r, ds in zip(sources, readers, got):
                what = f'read.{CLASSES[s.kind]} {s.settings}'
                compare(sim, s.expect, ds, what)
                s.check_empty(ds, what)
                if not (s.settings.get('max_docs') and s.kind != 'conllu'):
                    after = Document()
                    r.apply_on_document(after)
                    sim.check(not after.bundles, 'after-finished', lambda: f'{what}: finished, but then it delivers {delivered(after, sim)}')
                    sim.probe('after-finished')


class Recorder:
    """Last block of a scenario: notes what arrives."""
    stop = None

    def __init__(self, sim, limit):
        self.sim, self.limit, self.got, self.calls = sim, limit, [], []

    def process_start(self):
        self.calls.append('start')

    def apply_on_document(self, doc):
        d = delivered(doc, self.sim)
        self.sim.log('doc', d)
        self.got.append(d)
        self.sim.check(len(self.got) <= self.limit, 'finishes', lambda: f'{len(self.got)} documents and the scenario has not finished: {self.got[-3:]}')

    def process_end(self):
        self.calls.append('end')


def run(blocks):
    from udapi.core.run import Run
    Run(argparse.Namespace(scenario=['x'])).run_blocks([(type(b).__name__, b, '') for b in blocks])


def scenario(plan, sim, source):
    """A scenario with this reader, perhaps followed by util.Split."""
    rec = Recorder(sim, source.limit + 40)
    blocks = [source.reader()]
    expect = source.expect
    if plan['split']:
        from udapi.block.util.split import Split
        sim.probe('util.Split')
        flat = [b for d in expect for b in d['bundles']]
        if plan['split'] > 0:
            size = plan['split']
            blocks.append(Split(bundles_per_doc=size))
        else:
            # the number of parts applies to the first document
            if not expect or source.empty_inputs:
                return
            size = math.ceil(len(expect[0]['bundles']) / -plan['split'])
            blocks.append(Split(parts=-plan['split']))
        if len({b[0] for b in flat}) < len(flat) or None in {b[0] for b in flat}:
            flat = [[None, b[1]] for b in flat]
        expect = [{'from': None, 'name': None, 'bundles': flat[i:i + size]} for i in range(0, len(flat), size)]
        for d in expect:
            d['bundles'] = [[None, x] for _, x in d['bundles']]
    run(blocks + [rec])
    sim.check(rec.calls == ['start', 'end'], 'hooks', f'{rec.calls}')
    what = f'scenario read.{CLASSES[source.kind]} {source.settings} split={plan["split"]}'
    if plan['split']:
        flat = lambda ds: [[t[2] for t in b[1]] for d in ds for b in d['bundles']]
        sim.check(flat(rec.got) == flat(expect), 'sentences', lambda: f'{what}: {flat(rec.got)} instead of {flat(expect)}')
        sizes = [len(d['bundles']) for d in rec.got if d['bundles']]
        if len(source.expect) > 1:      # nothing is promised for the parts of several documents
            sim.check(not sizes or max(sizes) <= size, 'grouping', lambda: f'{what}: sizes {sizes}')
            return
        sim.check(sizes == [len(d['bundles']) for d in expect], 'grouping', lambda: f'{what}: sizes {sizes} instead of {[len(d["bundles"]) for d in expect]}')
        return
    compare(sim, expect, rec.got, what)
    source.check_empty(rec.got, what)


def two_readers(plan, sim, dsk, first):
    """Two readers in one scenario: their documents are merged bundle by bundle, each in its own zone."""
    sim.probe('two-readers')
    second = Source(plan, sim, dsk, plan['second'], 'b', 'run')
    if first.empty_inputs or second.empty_inputs or 'sent_id_filter' in first.settings or 'max_docs' in first.settings:
        return          # documents of different files would be merged; nothing is promised for that
    for s, z in ((first, 'en'), (second, 'de')):
        s.kwargs['zone'] = s.settings['zone'] = z
        s.expect = partition(s.kind, s.said, s.settings, s.names)
    rec = Recorder(sim, first.limit + second.limit)
    run([first.reader(), second.reader(), rec])
    n = max(len(first.expect), len(second.expect))
    none = {'from': None, 'name': None, 'bundles': []}
    expect = []
    for i in range(n):
        a = first.expect[i] if i < len(first.expect) else none
        b = second.expect[i] if i < len(second.expect) else none
        bundles = []
        for k in range(max(len(a['bundles']), len(b['bundles']))):
            x = a['bundles'][k] if k < len(a['bundles']) else None
            y = b['bundles'][k] if k < len(b['bundles']) else None
            bundles.append([None, (x[1] if x else []) + (y[1] if y else [])])
        expect.append({'bundles': bundles})
    compare(sim, expect, rec.got, f'two readers {first.settings} {second.settings}', splitted=True)
