"""P06: CoNLL-U survives load and store, however the bytes are delivered."""
import argparse
import bz2
import gzip
import io
import json
import lzma
import sys

from dst import core, disk, gen as g, view
from dst.props.p03 import diff

RUNS = {'quick': 4000, 'thorough': 120000}
LISTS = ('deliveries', 'sents', 'edits')
STATE_RULE = 'one state = (reader, channel, loading mode, size class of the chunks, features present in the text), counted once over all runs'
TIME_UNIT = 'raw reads and writes (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.files', 'udapi.core.basereader', 'udapi.core.basewriter', 'all text readers of udapi.block.read', 'write.Conllu',
                       'udapi.core.document', 'udapi.core.run', "Python's buffering, decoding and decompression"],
              'stub': ['raw files, standard input and output (dst/disk.py)', 'an independent reader of CoNLL-U columns (the oracle)']}
ASSUMPTIONS = ['texts are valid CoNLL-U in the form the library documents for its own output (MISC sorted, JSON comments last); '
               'other valid and tolerated texts must reach that form after one load and store',
               'comment lines consist of more than the character #']
PROBES = ('gz', 'xz', 'bz2', 'stdin', 'handle', 'string', 'filename', 'list', 'wildcard', 'run', 'several-files', 'multi-member', 'bom', 'utf-16', 'crlf',
          'one-by-one', 'split-character', 'interrupted', 'empty-tree', 'zones', 'no-final-newline', 'reader-conll', 'reader-conllup', 'reader-vislcg',
          'reader-ccv', 'reader-conll2012', 'reader-sentences', 'reader-text', 'reader-oldcorefud', 'reader-addtext', 'reader-addsentences', 'edited', 'print_sent_id=0', 'print_text=0', 'print_empty_trees=0')
CHANNELS = ['filename', 'file', 'file', 'gz', 'xz', 'bz2', 'stdin', 'handle', 'diskhandle', 'string', 'stringio', 'list', 'wildcard', 'run', 'several']
MODES = [{}, {}, {'max_docs': 100000}, {'split_docs': 1}, {'bundles_per_doc': 100000}, {'sent_id_filter': '.*'}, {'merge': 1}, {'zone': 'keep'}]
CHUNKS = [[], [1], [2, 3], [7, 1, 64], [8191, 1], [100], [4096, 3], [1, 8192, 2, 5]]
ODD = ['\u2028', '\x85', '\u00a0', '\u3000', '\x0b', '\x0c', '\x1c', '\u2029', '\ufeff', '\u0301', '\U0001F600', '\u200d']


def odd_word(rng):
    w = g.word(rng, 0.3)
    if rng.random() < 0.3:
        w = w[:1] + rng.choice(ODD) + w[1:] + 'z'
    if rng.random() < 0.1:
        w = w + ' ' + g.word(rng)
    return w


ENDS = [' ', '\u00a0', '  ', '\t', ' \u3000', '\u2028']


def comments(rng, head):
    """Further comments around the standard ones; the library keeps their order."""
    extra = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        kind = rng.randrange(7)
        extra.append(['# ' + odd_word(rng) + ' = ' + odd_word(rng), '#' + g.word(rng, 0), '# text_en = ' + odd_word(rng), '# newdoc_x = 1', '#  two spaces',
                      '# sent_idx = 7' if rng.random() < 0.5 else '# newparx', '# # ' + g.word(rng)][kind])
    extra = [x + rng.choice(ENDS) if rng.random() < 0.15 else x for x in extra]
    head = [x + rng.choice([' ', '\u00a0']) if x.startswith(('# newdoc id', '# newpar id')) and rng.random() < 0.15 else x for x in head]
    out = head + extra
    if rng.random() < 0.5:
        rng.shuffle(out)
    if rng.random() < 0.15:
        for k in sorted(rng.sample(['a', 'b-1', 'zz', 'é'], rng.randint(1, 2))):
            out.append(f'# json_{k} = ' + json.dumps(rng.choice([1, 'x', {'b': [1, None], 'c': 'ř'}, ['a = b'], True, 'a|b\\n']), ensure_ascii=False, sort_keys=True))
    return out


def sentence(rng, i, conf):
    """Lines of one sentence."""
    if rng.random() < 0.06 and conf['kind'] == 'conllu' and not conf['zones']:
        empty = ['0.%d\te%d\t_\tPRON\t_\t_\t_\t_\t0:dep\t_' % (k, k) for k in range(1, rng.choice([1, 1, 1, 2, 4]))]
        return ['# sent_id = s%d' % i, '# text = ' + ('' if rng.random() < 0.3 else odd_word(rng))] + empty + ['1\t_\t_\t_\t_\t_\t0\t_\t_\tEmpty=Yes']
    n = rng.choice([1, 1, 2, 3, 4, 5, 7, 12])
    zone, first = '', True
    if conf['zones']:
        first = i % (3 if conf['zones'] == 1 else 2) == 0
        zone = ['', '/en', '/de'][i % 3] if conf['zones'] == 1 else ['/en', '/cs_x'][i % 2]
        i = i // (3 if conf['zones'] == 1 else 2)
    names = (lambda: odd_word(rng)) if conf['odd'] else None
    lines = g.tree(rng, n, sent_id='s%d%s' % (i, zone), rare=0.2, names=names, comments=False, empties=conf['empties'], mwts=conf['mwts'],
                   max_empty=rng.choice([2, 3, 12]), newdoc=rng.choice([None, None, None, True, 'd%d' % i]) if first else None, newpar=rng.choice([None, None, True, 'p 1']))
    head = [x for x in lines if x[0] == '#']
    rows = [x for x in lines if x[0] != '#']
    if conf['odd']:
        rows = [x for x in rows]
        head = [h if not h.startswith('# text = ') else '# text = ' + h[9:].strip() for h in head]
        rows = [x + rng.choice('\u00a0\u2028 ') if x[-1] not in '_o' and rng.random() < 0.2 else x for x in rows]
    if any(h.startswith('# newdoc') for h in head) and conf['entity']:
        head.insert(1, '# global.Entity = eid-etype-head-other')
    return comments(rng, head) + rows


def gen(rng):
    kind = rng.choices(['conllu', 'conll', 'conllup', 'vislcg', 'ccv', 'conll2012', 'sentences', 'text', 'oldcorefud', 'addtext', 'addsentences'],
                       [12, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1])[0]
    conf = {'kind': kind, 'zones': rng.choice([0, 0, 0, 1, 2]) if kind == 'conllu' else 0, 'odd': int(rng.random() < 0.4),
            'empties': 0 if kind in ('conllup',) else rng.choice([0, 0.3, 0.8]), 'mwts': rng.choice([0, 0.3, 0.8]), 'entity': int(rng.random() < 0.3),
            'docjson': int(kind == 'conllu' and rng.random() < 0.1)}
    if kind in ('conllu', 'conll', 'conllup', 'oldcorefud', 'addtext', 'addsentences'):
        if kind in ('addtext', 'addsentences', 'conll'):
            conf['odd'] = 0
        sents = [sentence(rng, i, conf) for i in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if kind == 'conllu' else rng.randint(1, 5))]
    else:
        sents = [[g.word(rng, 0.2) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 6))]
        if kind == 'sentences' and rng.random() < 0.3:
            sents = [['  ' + s[0]] + s[1:] if rng.random() < 0.3 else [*s[:-1], s[-1] + rng.choice(' \u00a0')] for s in sents]
        if conf['odd']:
            sents = [[w if rng.random() < 0.9 else w + rng.choice('\u2028\x85\u00a0\x0c') + 'z' for w in s] for s in sents]
    b = lambda n: rng.randrange(n)
    deliveries = [{'channel': rng.choice(CHANNELS), 'mode': b(len(MODES)), 'chunks': rng.choice(CHUNKS), 'enc': rng.choice([0, 0, 0, 1, 2]),
                   'split': rng.choice([0, 0, 1, 2, 5]), 'intr': rng.choice([-1, -1, 0, 3]), 'out': b(5), 'wchunks': rng.choice(CHUNKS)}
                  for _ in range(rng.randint(1, 4))]
    edits = []
    if kind == 'conllu' and rng.random() < 0.5:
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            what = rng.choice(['newdoc', 'newdoc', 'newpar', 'newpar', 'sent_id', 'text', 'text', 'comment', 'comment', 'json', 'docjson', 'swap', 'clear'])
            edits.append([b(10), what, {'newdoc': rng.choice([None, None, True, 'new d']), 'newpar': rng.choice([None, None, True, 'new p']), 'sent_id': 'x-%d' % b(50), 'comment': rng.choice(['a = b', 'sent_idx', 'text_en = x', 'newdocs']),
                                        'text': rng.choice([None, 'new text', 'x', 'a  b']), 'json': [rng.choice('ab'), rng.choice([1, {'x': [None]}])], 'docjson': [rng.choice('ab'), rng.choice([2, 'é'])], 'swap': b(10), 'clear': None}[what]])
    options = {k: 0 for k in ('print_sent_id', 'print_text', 'print_empty_trees') if rng.random() < 0.3}
    return {'conf': conf, 'sents': sents, 'deliveries': deliveries, 'messy': rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5]), 'edits': edits, 'options': options}


def simplify(plan):
    for i, d in enumerate(plan['deliveries']):
        for key, val in (('chunks', []), ('wchunks', []), ('enc', 0), ('split', 0), ('intr', -1), ('mode', 0), ('channel', 'file')):
            if d[key] != val:
                p = json.loads(json.dumps(plan))
                p['deliveries'][i][key] = val
                yield p
    for key in plan.get('options', {}):
        p = json.loads(json.dumps(plan))
        del p['options'][key]
        yield p
    for i, s in enumerate(plan['sents']):
        for j in range(len(s)):
            if s[j][:1] == '#' and not s[j].startswith('# sent_id'):
                p = json.loads(json.dumps(plan))
                del p['sents'][i][j]
                yield p


# --- texts -----------------------------------------------------------------------------------------------------------

def build(plan):
    """The text of the input and the keyword arguments of the reader."""
    kind, sents, conf = plan['conf']['kind'], plan['sents'], plan['conf']
    if kind in ('conllu', 'oldcorefud', 'addtext', 'addsentences'):
        text = ''.join('\n'.join(s) + '\n\n' for s in sents)
        if conf['docjson'] and sents:
            text = '# doc_json_a = {"x": [1, "é"]}\n' + text
        return text, {}
    if kind == 'conll':
        text = ''.join('\n'.join(s) + '\n\n' for s in sents)
        if not any(' ' in x for s in sents for x in s if x[0] != '#') and plan['messy'] % 2:
            return ''.join('\n'.join(x if x[0] == '#' else x.replace('\t', '  ') for x in s) + '\n\n' for s in sents), {
                'separator': 'doublespace' if plan['messy'] == 1 else 'space'}
        return text, {}
    if kind == 'conllup':
        return '# global.columns = ID FORM LEMMA UPOS XPOS FEATS HEAD DEPREL DEPS MISC\n' + ''.join('\n'.join(s) + '\n\n' for s in sents), {}
    if kind == 'vislcg':
        out = []
        for s in sents:
            out.append('# c\n' + ''.join(f'"<{w}>"\n\t"{w}" N Sg @dep #{i}->{i - 1}\n' for i, w in enumerate((x.split()[0] for x in s), 1)) + '\n')
        return ''.join(out), {}
    if kind == 'sentences':
        return ''.join(' '.join(s) + '\n' for s in sents), {}
    if kind == 'text':
        out = []
        for i, s in enumerate(sents):
            out.append('\n'.join(s) + '\n' + '\n' * (1 + i % 3))
        return ''.join(out), {}
    if kind == 'ccv':
        line = lambda s: {'text': ' '.join(s), 'rhyme': 1, 'metre': [], 'stress': '10', 'punct': {}, 'words': [
            {'token': w, 'lemma': w, 'morph': 'N', 'xsampa': 'x', 'phoebe': 'p'} for w in s]}
        poems = [{'poem_id': f'p{i}', 'p_author': {}, 'b_author': {}, 'biblio': {}, 'body': [[line(s), line(s[:1])], [line(s)]]} for i, s in enumerate(sents)]
        return json.dumps(poems, ensure_ascii=bool(plan['messy'] % 2)), {}
    if kind == 'conll2012':
        out = []
        for i, s in enumerate(sents):
            rows = []
            for j, w in enumerate(w.split()[0] for w in s):
                coref = ('(1)' if j == 0 else '_') if len(s) < 3 else ('(%d' % i if j == 0 else '%d)' % i if j == len(s) - 1 else '(5)' if j == 1 else '_')
                rows.append('\t'.join(['doc', '0', str(j), w] + ['_'] * 8 + [coref]))
            out.append(('#begin document (doc); part 0\n' if i == 0 else '') + '\n'.join(rows) + '\n\n')
        return ''.join(out) + '#end document\n', {}
    raise AssertionError(kind)


def messy(text, how):
    """Texts which are not in the form the library writes, but which it accepts."""
    if how == 1:
        return text.rstrip('\n') + ('\n' if len(text) % 2 else '')
    if how == 2:
        return text.replace('\n\n', '\n\n\n\n')
    if how == 3:
        return '\n' + text
    if how == 4:
        return '\n'.join(line for line in text.split('\n') if not line.startswith(('# text =', '# sent_id'))) if '/' not in text else text
    return text


def features(text):
    return [int(x in text) for x in ('\n1-2\t', '.1\t', '# newdoc', '# newpar', 'json_', 'Empty=Yes', '/en', '\u2028', 'global.Entity')]


# --- delivery --------------------------------------------------------------------------------------------------------

READERS = {'conllu': 'Conllu', 'conll': 'Conll', 'conllup': 'Conllup', 'vislcg': 'Vislcg', 'ccv': 'Ccv', 'conll2012': 'Conll2012', 'sentences': 'Sentences',
           'text': 'Text', 'oldcorefud': 'OldCorefUD'}


def reader_class(kind):
    mod = __import__('udapi.block.read.' + kind, fromlist='x')
    return getattr(mod, READERS[kind])


def doc_of(docs):
    """What the documents of a reader contain, as one sequence of bundles."""
    views = [view.doc_view(d) for d in docs]
    bundles = [dict(b, number=0) for v in views for b in v['bundles']]
    meta = dict(views[0]['meta']) if views else {}
    meta.pop('loaded_from', None)
    return {'bundles': bundles, 'docname': meta.get('docname'), 'json': views[0]['json'] if views else {}}


class Deliver:
    def __init__(self, plan, sim, dsk, text, kwargs):
        self.plan, self.sim, self.disk, self.text, self.kwargs = plan, sim, dsk, text, kwargs
        self.kind = plan['conf']['kind']
        self.n = 0

    def encode(self, d, text, name_based=True):
        data = text.encode('utf-8')
        enc = {}
        if d['enc'] == 1:
            data = b'\xef\xbb\xbf' + data
            self.sim.probe('bom')
        elif d['enc'] == 2 and name_based:
            enc = {'encoding': 'utf-16'}
            data = text.encode('utf-16')
            self.sim.probe('utf-16')
        return data, enc

    def pieces(self, d):
        """The sentences in one or several files, never splitting the zones of one sentence."""
        if d['channel'] != 'several' or self.kind not in ('conllu', 'oldcorefud', 'sentences') or self.plan['messy'] or not d['split']:
            return None
        conf = self.plan['conf']
        group = {0: 1, 1: 3, 2: 2}[conf['zones']]
        step = max(1, d['split']) * group
        s = self.plan['sents']
        if self.kind == 'sentences':
            parts = [''.join(' '.join(x) + '\n' for x in s[i:i + step]) for i in range(0, len(s), step)]
        else:
            if conf['docjson'] or any(x.startswith('# global.Entity') for y in s for x in y) or conf['entity']:
                return None
            parts = [''.join('\n'.join(x) + '\n\n' for x in s[i:i + step]) for i in range(0, len(s), step)]
        return parts if len(parts) > 1 else None

    def load(self, d):
        """Load through one channel; returns a list of documents (or None if this channel does not apply)."""
        from udapi.core.document import Document
        self.n += 1
        sim, dsk, text, kind = self.sim, self.disk, self.text, self.kind
        ch = d['channel']
        mode = dict(MODES[d['mode'] % len(MODES)])
        if kind == 'conll2012':
            mode = {}
        if kind == 'oldcorefud' and set(mode) & {'split_docs'}:
            mode = {}
        if ch == 'several':
            mode.pop('split_docs', None)
            mode['merge'] = 1
        if set(mode) & {'max_docs', 'split_docs', 'bundles_per_doc', 'sent_id_filter'}:
            sim.probe('one-by-one')
        dsk.chunks = d['chunks']
        if d['chunks'] and min(d['chunks']) < 4 and not text.isascii():
            sim.probe('split-character')
        data, enc = self.encode(d, text, ch not in ('filename', 'string', 'stringio', 'handle', 'diskhandle', 'run'))
        if ch in ('string', 'stringio', 'handle', 'diskhandle') and d['enc'] == 1:
            data = text.encode('utf-8')
        cls = reader_class(kind)
        kw = dict(self.kwargs, **mode, **enc)
        name = f'in{self.n}.conllu'
        if d['intr'] >= 0:
            dsk.faults = [{'kind': 'intr', 'nth': d['intr']}]
            sim.probe('interrupted')
        reader = None
        if ch == 'string' and kind == 'conllu':
            doc = Document()
            doc.from_conllu_string(text)
            sim.probe('string')
            return [doc]
        if ch in ('string', 'stringio'):
            reader = cls(filehandle=io.StringIO(text), **kw)
        elif ch == 'handle':
            reader = cls(filehandle=disk.text_in(disk.StreamIn(sim, data, d['chunks'])), **kw)
            sim.probe('handle')
        elif ch == 'diskhandle':
            dsk.put(name, data)
            reader = cls(filehandle=open(name, encoding='utf-8'), **kw)
        elif ch == 'stdin':
            with disk.Stdio(stdin=disk.text_in(disk.StreamIn(sim, data, d['chunks']))):
                sim.probe('stdin')
                return cls(**kw).read_documents()
        elif ch == 'run':
            if kind != 'conllu' or self.plan['messy']:
                return None
            return self.run(d, text, data)
        elif ch == 'filename' and kind == 'conllu':
            dsk.put(name, data)
            sim.probe('filename')
            return [Document(name)] if d['mode'] % 2 else [self.load_conllu(Document(), name)]
        elif ch in ('gz', 'xz', 'bz2'):
            mod = {'gz': gzip, 'xz': lzma, 'bz2': bz2}[ch]
            cut = len(data) * d['split'] // 7
            packed = mod.compress(data) if not d['split'] else mod.compress(data[:cut]) + mod.compress(data[cut:])
            if d['split']:
                sim.probe('multi-member')
            sim.probe(ch)
            dsk.put(name + '.' + ch, packed)
            reader = cls(files=[name + '.' + ch], **kw)
        elif ch == 'list':
            dsk.put('lists/' + name, data)
            dsk.put(f'lists/l{self.n}', f'{name}\n\n'.encode())
            sim.probe('list')
            reader = cls(files=f'@lists/l{self.n}', **kw)
        elif ch == 'wildcard':
            dsk.put(f'w{self.n}/a b.conllu', data)
            sim.probe('wildcard')
            reader = cls(files=f'!w{self.n}/*.conll?', **kw)
        elif ch == 'several':
            parts = self.pieces(d)
            if parts is None:
                return None
            for i, p in enumerate(parts):
                dsk.put(f's{self.n}_{i}.txt', self.encode(d, p)[0])
            sim.probe('several-files')
            reader = cls(files=','.join(f's{self.n}_{i}.txt' for i in range(len(parts))) if d['split'] % 2 else
                         [f's{self.n}_{i}.txt' for i in range(len(parts))], **kw)
        else:
            if self.plan['messy'] == 5 and kind in ('conllu', 'sentences', 'text', 'conll'):
                data = text.replace('\n', '\r\n').encode(enc.get('encoding', 'utf-8'))
                sim.probe('crlf')
            dsk.put(name, data)
            reader = cls(files=name, **kw)
        return reader.read_documents()

    @staticmethod
    def load_conllu(doc, name):
        doc.load_conllu(name)
        return doc

    def run(self, d, text, data):
        """A whole scenario from standard input to standard output."""
        from udapi.core.run import Run
        out = disk.StreamOut(self.sim, d['wchunks'])
        with disk.Stdio(disk.text_in(disk.StreamIn(self.sim, data, d['chunks'])), disk.text_out(out)):
            Run(argparse.Namespace(scenario=['read.Conllu', 'write.Conllu'])).execute()
            sys.stdout.flush()
        self.sim.probe('run')
        got = out.got.decode('utf-8')
        self.sim.check(got == text, 'load-store', lambda: 'udapy read.Conllu write.Conllu: ' + first_diff(text, got))
        return None

    def store(self, d, doc):
        """Store through one channel, return the text."""
        sim, dsk = self.sim, self.disk
        dsk.wchunks = d['wchunks']
        from udapi.block.write.conllu import Conllu
        if d['out'] == 0:
            return doc.to_conllu_string()
        if d['out'] == 1:
            doc.store_conllu('out.conllu')
        elif d['out'] == 2:
            raw = disk.StreamOut(sim, d['wchunks'])
            with disk.Stdio(stdout=disk.text_out(raw)):
                Conllu().run(doc)
                sys.stdout.flush()
            return raw.got.decode('utf-8')
        elif d['out'] == 3:
            Conllu(files='out.conllu').run(doc)
        else:
            Conllu(files='sub/out.conllu', encoding='utf-16').run(doc)
            return dsk.get('sub/out.conllu').decode('utf-16')
        return dsk.get('out.conllu').decode('utf-8')


def first_diff(a, b):
    la, lb = a.split('\n'), b.split('\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return f'line {i + 1}: {x!r} became {y!r}'
    return f'{len(la)} lines became {len(lb)}: ...{(la if len(la) > len(lb) else lb)[min(len(la), len(lb))]!r}'


def columns(text, doc, sim):
    """The columns of the text against the attributes of the loaded document."""
    trees = list(doc.trees)
    blocks = [b for b in text.split('\n\n') if b]
    sim.check(len(blocks) == len(trees), 'columns', lambda: f'{len(blocks)} sentences in the text, {len(trees)} loaded')
    none = lambda v: '_' if v is None else v
    for block, tree in zip(blocks, trees):
        rows = [r.split('\t') for r in block.split('\n') if r[:1] != '#']
        if rows[-1][9] == 'Empty=Yes':
            sim.check(not tree.descendants, 'columns', 'Empty=Yes tree has words')
            sim.probe('empty-tree')
            rows.pop()
        words = [r for r in rows if r[0].isdigit()]
        empties = [r for r in rows if '.' in r[0]]
        mwts = [r for r in rows if '-' in r[0]]
        got = [[str(n.ord), n.form, n.lemma, none(n.upos), none(n.xpos), str(n.feats), str(n.parent.ord), none(n.deprel), str(n.misc)] for n in tree.descendants]
        sim.check(got == [r[:8] + r[9:] for r in words], 'columns', lambda: f'words of {tree.sent_id}: {diff([r[:8] + r[9:] for r in words], got)}')
        got = [[str(n.ord), n.form, n.lemma, none(n.upos), none(n.xpos), str(n.feats), str(n.misc)] for n in tree.empty_nodes]
        sim.check(got == [r[:6] + r[9:] for r in empties], 'columns', lambda: f'empty nodes of {tree.sent_id}: {got}')
        got = [[m.ord_range, m.form, str(m.misc)] for m in tree.multiword_tokens]
        sim.check(got == [[r[0], r[1], r[9]] for r in mwts], 'columns', lambda: f'MWTs of {tree.sent_id}: {got}')
        for n, r in zip(list(tree.descendants) + list(tree.empty_nodes), words + empties):
            got = '|'.join(f"{d['parent'].ord}:{d['deprel']}" for d in n.deps) or '_'
            sim.check(got == r[8], 'columns', lambda: f'deps of {n}: {r[8]} became {got}')
        for line in block.split('\n'):
            if line.startswith('# text = '):
                sim.check(tree.text == line[9:], 'columns', lambda: f'text {line!r} became {tree.text!r}')
            elif line.startswith('# sent_id = '):
                sim.check(tree.sent_id == line[12:], 'columns', lambda: f'{line!r} became {tree.sent_id!r}')
            elif line.startswith('# newdoc'):
                if line == '# newdoc' or line.startswith('# newdoc id = '):
                    sim.check(tree.newdoc == (True if line == '# newdoc' else line[14:]), 'columns', lambda: f'{line!r} became {tree.newdoc!r}')


def execute(plan, sim):
    from udapi.core.document import Document
    kind = plan['conf']['kind']
    text, kwargs = build(plan)
    canonical = kind == 'conllu' and not plan['messy']
    if plan['messy'] and kind in ('conllu', 'conll', 'conllup', 'vislcg', 'text'):
        text = messy(text, plan['messy'])
        if plan['messy'] == 1:
            sim.probe('no-final-newline')
    elif plan['messy'] and kind == 'sentences' and plan['messy'] == 1:
        text = text.rstrip('\n')
    if plan['conf']['zones']:
        sim.probe('zones')
    sim.probe('reader-' + kind)
    with disk.Disk(sim) as dsk:
        if kind in ('addtext', 'addsentences'):
            return add_to_trees(plan, sim, dsk, text)
        dl = Deliver(plan, sim, dsk, text, kwargs)
        ref = reader_class(kind)(filehandle=io.StringIO(text), **kwargs).read_documents()
        sim.check(len(ref) == 1, 'one-document', f'{len(ref)} documents')
        ref_view = doc_of(ref)
        if kind == 'sentences':
            expect = [line.rstrip('\r\n ') for line in text.split('\n')]
            expect = expect if not text.endswith('\n') else expect[:-1]
            sim.check([t.text for t in ref[0].trees] == (expect if text else []), 'sentences', lambda: f'{[t.text for t in ref[0].trees]} from {text!r}')
        elif kind == 'text':
            expect = [' '.join(x.rstrip('\r\n ') for x in s) for s in plan['sents']]
            sim.check([t.text for t in ref[0].trees] == expect, 'sentences', lambda: f'{[t.text for t in ref[0].trees]} from {text!r}')
        elif kind in ('conll', 'conllup'):
            same = Document()
            same.from_conllu_string(messy(''.join('\n'.join(s) + '\n\n' for s in plan['sents']), plan['messy']))
            a, b = ref[0].to_conllu_string(), same.to_conllu_string()
            sim.check(a == b, 'same-as-read.Conllu', lambda: first_diff(b, a))
        if canonical:
            columns(text[text.index('\n') + 1:] if plan['conf']['docjson'] and plan['sents'] else text, ref[0], sim)
        stored = ref[0].to_conllu_string()
        if canonical:
            sim.check(stored == text, 'load-store', lambda: first_diff(text, stored))
        else:
            again = Document()
            again.from_conllu_string(stored)
            if kind in ('conllu', 'conll', 'conllup'):
                twice = again.to_conllu_string()
                sim.check(twice == stored, 'store-load-store', lambda: first_diff(stored, twice))
            sim.check(len(list(again.trees)) == len(list(ref[0].trees)), 'store-load-store', 'number of trees')
        for d in plan['deliveries']:
            sim.log('deliver', d)
            docs = dl.load(d)
            dsk.faults = []
            chunk = 0 if not d['chunks'] else 1 if min(d['chunks']) < 4 else 2
            sim.state([kind, d['channel'], d['mode'], chunk, d['enc'], features(text)])
            if docs is None:
                continue
            if d['chunks']:
                sim.nontrivial = True
            got = doc_of(docs)
            if plan['messy'] == 4 or kind not in ('conllu',):
                pass
            sim.log('loaded', core.h64(got))
            if len(docs) > 1:      # split_docs: automatic ids start again in each document
                strip = lambda v: [[dict(t, sent_id=None) for t in b['trees']] for b in v['bundles']]
                if plan['messy'] == 4 or kind not in ('conllu', 'conll', 'conllup'):
                    sim.check(strip(got) == strip(ref_view), 'delivery', lambda: f'{d}: {diff(strip(ref_view), strip(got))}')
                    continue
            sim.check(got == ref_view, 'delivery', lambda: f'{d}: {diff(ref_view, got)}')
            if len(docs) == 1 and d is plan['deliveries'][-1] and kind == 'conllu' and (plan['edits'] or plan['options']):
                edited(plan, sim, docs[0], d)
            elif len(docs) == 1:
                out = dl.store(d, docs[0])
                sim.check(out == stored, 'store-channel', lambda: f"{d['out']}: {first_diff(stored, out)}")


SPECIAL = ('newdoc', 'newpar', 'sent_id', 'text', 'global.Entity')


def special(line):
    """Which of the standard comments a line is, and its value."""
    body = line[2:] if line[:2] == '# ' else ''
    for key in ('newdoc', 'newpar'):
        if body == key or body.startswith(key + ' id = '):
            return key, True if body == key else body[len(key) + 6:]
    for key in ('sent_id', 'text', 'global.Entity'):
        if body == key + ' =' or body.startswith(key + ' = '):
            return key, body[len(key) + 3:]
    return None, None


def blocks_of(text):
    """CoNLL-U text -> [(standard comments, JSON comments, other comments, rows)]"""
    out = []
    for block in text.split('\n\n')[:-1]:
        std, js, other, rows = [], {}, [], []
        for line in block.split('\n'):
            if line[:1] != '#':
                rows.append(line)
            elif special(line)[0]:
                std.append(special(line))
            elif line.startswith('# json_'):
                key, _, value = line[7:].partition(' = ')
                js[key] = json.loads(value)
            elif not line.startswith('# doc_json_'):
                other.append(line.rstrip())          # (Root.add_comment drops whitespace at the end of the comments before it)
        out.append((std, js, other, rows))
    return out


def edited(plan, sim, doc, d):
    """Edit the metadata of the sentences and store; the expectation is computed from the text, not from the document."""
    from udapi.block.write.conllu import Conllu
    from udapi.core.document import Document
    before = doc.to_conllu_string()
    model = [[dict(b[0]), b[1], b[2], b[3]] for b in blocks_of(before)]
    trees = list(doc.trees)
    sim.check(len(model) == len(trees), 'edited', f'{len(model)} sentences stored of {len(trees)}')
    docjson, computed = {}, {}
    for line in before.split('\n'):
        if line.startswith('# doc_json_'):
            key, _, value = line[11:].partition(' = ')
            docjson[key] = json.loads(value)
    for num, what, value in plan['edits']:
        if not trees:
            break
        i = num % len(trees)
        tree, m = trees[i], model[i]
        sim.log('edit', i, what, value)
        if what in ('newdoc', 'newpar', 'text'):
            setattr(tree, what, value)
            m[0][what] = value
            if what == 'text' and value is None:
                m[0][what] = tree.compute_text()
            elif value is None:
                del m[0][what]
        elif what == 'sent_id':
            if plan['conf']['zones'] or any(t.sent_id == value for t in trees):
                continue
            tree.sent_id = value
            m[0][what] = value
        elif what == 'comment':
            tree.add_comment(value)
            m[2].append('# ' + value)
        elif what == 'clear':
            tree.comment = ''
            m[2] = []
        elif what == 'json':
            tree.json[value[0]] = value[1]
            m[1][value[0]] = value[1]
        elif what == 'docjson':
            doc.json[value[0]] = value[1]
            docjson[value[0]] = value[1]
        else:
            j = value % len(trees)
            tree.comment, trees[j].comment = trees[j].comment, tree.comment
            m[2], model[j][2] = model[j][2], m[2]
    raw = disk.StreamOut(sim, d['wchunks'])
    with disk.Stdio(stdout=disk.text_out(raw)):
        Conllu(**plan['options']).run(doc)
        sys.stdout.flush()
    out = raw.got.decode('utf-8')
    sim.probe('edited')
    for key in plan['options']:
        sim.probe(key + '=0')
    if not plan['options'].get('print_sent_id', 1):
        for m in model:
            for key in ('newdoc', 'newpar', 'sent_id'):
                m[0].pop(key, None)
    if not plan['options'].get('print_text', 1):
        for m in model:
            m[0].pop('text', None)
    if not plan['options'].get('print_empty_trees', 1):
        model = [m for m in model if not (len(m[3]) == 1 and m[3][0].endswith('\tEmpty=Yes'))]
    got = blocks_of(out)
    context = f"edits {plan['edits']}, options {plan['options']}: "
    sim.check([m[3] for m in model] == [b[3] for b in got], 'edited', lambda: context + diff([m[3] for m in model], [b[3] for b in got]))
    for m, (std, js, other, rows) in zip(model, got):
        sim.check(len({k for k, _ in std}) == len(std), 'edited', lambda: f'{context}a standard comment twice: {std}')
        # (whether the declaration of entities is repeated is decided by the document, see P16)
        std = {k: v for k, v in std if k != 'global.Entity'}
        want = {k: v for k, v in m[0].items() if k != 'global.Entity'}
        sim.check(std == want, 'edited', lambda: f'{context}standard comments {std}, expected {want}')
        sim.check(js == m[1], 'edited', lambda: f'{context}JSON comments {js}, expected {m[1]}')
        sim.check(other == m[2], 'edited', lambda: f'{context}comments {other}, expected {m[2]}')
    now = {}
    for line in out.split('\n'):
        if line.startswith('# doc_json_'):
            key, _, value = line[11:].partition(' = ')
            now[key] = json.loads(value)
    sim.check(now == docjson or not trees, 'edited', lambda: f'{context}document JSON {now}, expected {docjson}')
    if not plan['options']:
        again = Document()
        again.from_conllu_string(out)
        twice = again.to_conllu_string()
        sim.check(twice == out, 'edited-load-store', lambda: context + first_diff(out, twice))


def add_to_trees(plan, sim, dsk, text):
    """read.AddText and read.AddSentences: the added text must not depend on its delivery."""
    from udapi.core.document import Document
    kind = plan['conf']['kind']
    import udapi.block.read.addtext
    import udapi.block.read.addsentences
    cls = udapi.block.read.addtext.AddText if kind == 'addtext' else udapi.block.read.addsentences.AddSentences
    sep = ['\n', '\n\n', ' ', '\n\n\n', '\n'][plan['messy'] % 5]
    base = Document()
    base.from_conllu_string(text)
    texts = [t.compute_text() for t in base.trees]
    if kind == 'addtext':
        added = sep.join(texts) + ['', '\n', '\n\n'][len(texts) % 3]
    else:
        added = '\n'.join(texts) + ('\n' if len(texts) % 2 else '')
    if not text:
        return
    results = []
    for i, d in enumerate([None] + plan['deliveries']):
        doc = Document()
        doc.from_conllu_string(text)
        for t in doc.trees:
            t.text = None
        data = added.encode()
        if d is None:
            kw = {'filehandle': io.StringIO(added)}
        else:
            dsk.chunks = d['chunks']
            sim.log('deliver', d)
            if d['chunks']:
                sim.nontrivial = True
            ch = d['channel']
            if ch in ('handle', 'string', 'stringio'):
                kw = {'filehandle': disk.text_in(disk.StreamIn(sim, data, d['chunks']))}
            elif ch in ('gz', 'xz', 'bz2'):
                dsk.put(f'a{i}.{ch}', {'gz': gzip, 'xz': lzma, 'bz2': bz2}[ch].compress(data))
                kw = {'files': f'a{i}.{ch}'}
            else:
                dsk.put(f'a{i}.txt', data)
                kw = {'files': f'a{i}.txt'}
            sim.state([kind, ch, len(d['chunks']), plan['messy'] % 5])
        reader = cls(**kw)
        reader.apply_on_document(doc)
        sim.check(reader.finished, 'delivery', f'{cls.__name__} has not finished')
        results.append(doc.to_conllu_string())
        if kind == 'addsentences':
            sim.check([t.text for t in doc.trees] == texts, 'sentences', lambda: f'{[t.text for t in doc.trees]} instead of {texts}')
        sim.check(results[-1] == results[0], 'delivery', lambda: f'{d}: {first_diff(results[0], results[-1])}')
