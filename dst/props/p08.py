"""P08: broken input never passes silently."""
import argparse
import bz2
import gc
import gzip
import io
import json
import lzma
import sys

from dst import core, disk, gen as g
from dst.props import p06
from dst.props.p03 import diff

RUNS = {'quick': 6000, 'thorough': 200000}
LISTS = ('loads',)
STATE_RULE = 'one state = (reader, channel, settings, how it was called, kind of fault, size class of its position, outcome), counted once over all runs'
TIME_UNIT = 'raw reads (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.files', 'udapi.core.basereader', 'udapi.core.run', 'all text readers of udapi.block.read', 'udapi.core.document',
                       "Python's buffering, decoding and decompression"],
              'stub': ['raw files, standard input and open handles (dst/disk.py)', 'damage done to files by the simulated world']}
ASSUMPTIONS = ['a compressed file cut to nothing at all or exactly between two members is a shorter valid file; a damaged byte that does not change '
               'what decompression yields is no failure',
               'a reader that needs only a part of the input (max_docs, read.AddSentences) need not reach the damage or the checksum behind that part; documents delivered one by one before the checksum of their file was reached are judged by the exception at its end',
               'only the first failure of a reader is judged, not what it yields when it is called again']
PROBES = ('missing', 'open-error', 'read-error', 'stream-error', 'truncated-gz', 'truncated-xz', 'truncated-bz2', 'corrupted-gz', 'corrupted-xz', 'corrupted-bz2',
          'bad-bytes', 'cut-character', 'head-out-of-range', 'head-negative', 'head-self', 'head-cycle', 'head-not-a-number', 'missing-columns', 'broken-json', 'bad-list',
          'second-file', 'one-by-one', 'documents-before-failure', 'load-after-failure', 'run', 'too-few-lines', 'refused')
MODES = [{}, {}, {}, {'max_docs': 100000}, {'split_docs': 1}, {'bundles_per_doc': 2}, {'sent_id_filter': '.*'}, {'merge': 1}, {'bundles_per_doc': 1, 'merge': 1},
         {'max_docs': 1}, {'max_docs': 2, 'split_docs': 1}]
APIS = ['docs', 'docs', 'run', 'document', 'load_conllu']
IO = ['missing', 'open', 'read', 'read', 'truncate', 'truncate', 'corrupt', 'badbytes', 'badbytes', 'cutchar', 'badlist']
CHANNELS = ['file', 'file', 'gz', 'gz', 'xz', 'bz2', 'stdin', 'handle', 'list', 'wildcard']
KINDS = ['conllu'] * 8 + ['conll', 'conll', 'conllup', 'vislcg', 'ccv', 'conll2012', 'sentences', 'text', 'oldcorefud', 'addtext', 'addsentences']


def gen(rng):
    loads = []
    for i in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(KINDS)
        conf = {'kind': kind, 'zones': rng.choice([0, 0, 0, 1]) if kind == 'conllu' else 0, 'odd': int(kind == 'conllu' and rng.random() < 0.3),
                'empties': 0 if kind == 'conllup' else rng.choice([0, 0.3]), 'mwts': rng.choice([0, 0.3]), 'entity': 0, 'docjson': 0}
        files = []
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            if kind in ('conllu', 'conll', 'conllup', 'oldcorefud', 'addtext', 'addsentences'):
                files.append([p06.sentence(rng, j, conf) for j in range(rng.choice([1, 2, 3, 6]))])
            else:
                files.append([[g.word(rng, 0.2) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 5))])
            if rng.random() < 0.04:
                files[-1] = (files[-1] * 60)[:80]         # longer than the buffers
                if kind in ('conllu', 'conll', 'conllup', 'oldcorefud', 'addtext', 'addsentences'):
                    files[-1] = [[('# sent_id = r%d' % j) if x.startswith('# sent_id') else x for x in s] for j, s in enumerate(files[-1])]
        fault = None
        if i == 0 or rng.random() < 0.4:
            struct = kind not in ('sentences', 'text', 'addtext') and rng.random() < 0.45
            fault = {'kind': 'struct' if struct else rng.choice(IO), 'file': rng.randrange(8), 'at': rng.random(), 'how': rng.randrange(12),
                     'errno': rng.choice(['EIO', 'ESTALE', 'EACCES', 'EISDIR', 'EMFILE', 'ENOMEM'])}
        loads.append({'conf': conf, 'files': files, 'channel': rng.choice(CHANNELS), 'mode': rng.randrange(len(MODES)), 'api': rng.choice(APIS),
                      'chunks': rng.choice(p06.CHUNKS), 'strict': rng.randrange(2), 'enc': rng.choice([0, 0, 0, 2]), 'members': rng.choice([0, 0, 0, 3]), 'fault': fault})
    return {'loads': loads}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for i, load in enumerate(plan['loads']):
        for key, val in (('chunks', []), ('enc', 0), ('members', 0), ('mode', 0), ('channel', 'file'), ('api', 'docs'), ('strict', 0)):
            if load[key] != val:
                p = cp()
                p['loads'][i][key] = val
                yield p
        for j in range(len(load['files'])):
            if len(load['files']) > 1:
                p = cp()
                del p['loads'][i]['files'][j]
                yield p
            for k in range(min(len(load['files'][j]), 12)):
                p = cp()
                del p['loads'][i]['files'][j][k]
                yield p


# --- structural damage ----------------------------------------------------------------------------------------------

def damage(load, text, fault, sim):
    """Damage the text of one file so that it cannot be loaded.  None if there is nothing to damage."""
    kind, how = load['conf']['kind'], fault['how']
    pick = lambda seq: seq[int(fault['at'] * len(seq)) % len(seq)]
    if kind in ('conllu', 'conll', 'conllup', 'oldcorefud'):
        blocks = [b.split('\n') for b in text.split('\n\n') if b]
        rows = [(i, j) for i, b in enumerate(blocks) for j, r in enumerate(b) if r[:1].isdigit() and r.split('\t')[0].isdigit() and not r.endswith('Empty=Yes')]
        if not rows:
            return None
        i, j = pick(rows)
        r = blocks[i][j].split('\t')
        words = [x for x in blocks[i] if x.split('\t')[0].isdigit()]
        if how in (0, 1):
            r[6] = str(len(words) + (1 if how else 7))
            sim.probe('head-out-of-range')
        elif how in (2, 3):
            r[6] = '-1' if how == 2 else str(-len(words))
            sim.probe('head-negative')
        elif how == 4:
            r[6] = r[0]
            sim.probe('head-self')
        elif how in (5, 6, 7):
            other = pick([k for k, x in enumerate(blocks[i]) if x.split('\t')[0].isdigit()])
            chain, node = [], blocks[i][other].split('\t')
            heads = {x.split('\t')[0]: x.split('\t')[6] for x in words}
            cur = pick(sorted(heads))
            while cur != '0' and cur not in chain:
                chain.append(cur)
                cur = heads[cur]
            if len(chain) < 2:
                return None
            del node
            j = next(k for k, x in enumerate(blocks[i]) if x.split('\t')[0] == chain[-1])
            r = blocks[i][j].split('\t')
            r[6] = chain[how % len(chain[:-1])]
            sim.probe('head-cycle')
        elif how in (8, 9):
            r[6] = 'x' if how == 8 else '1.5'
            sim.probe('head-not-a-number')
        else:
            if not load['strict']:
                return None
            r = r[:-1] if how == 10 else r[:max(1, int(fault['at'] * 9))]
            sim.probe('missing-columns')
        blocks[i][j] = '\t'.join(r)
        return '\n\n'.join('\n'.join(b) for b in blocks) + '\n\n'
    if kind == 'vislcg':
        lines = text.split('\n')
        rows = [i for i, x in enumerate(lines) if x[:1] == '\t' and '->' in x]
        i = pick(rows)
        left, right = lines[i].rsplit('->', 1)
        own = left.rsplit('#', 1)[1]
        if how % 4 == 3:
            sim.probe('head-not-a-number')
            lines[i] = left + '->x'
        else:
            sim.probe(('head-out-of-range', 'head-negative', 'head-self')[how % 4])
            lines[i] = left + '->' + ('77', '-1', own)[how % 4]
        return '\n'.join(lines)
    if kind == 'ccv':
        sim.probe('broken-json')
        cut = 1 + int(fault['at'] * (len(text) - 2))
        return text[:cut]
    if kind == 'conll2012':
        if not load['strict']:
            return None
        sim.probe('missing-columns')
        lines = text.split('\n')
        i = pick([i for i, x in enumerate(lines) if '\t' in x])
        lines[i] = lines[i].rsplit('\t', 1)[0]
        return '\n'.join(lines)
    if kind == 'addsentences':
        lines = text.split('\n')
        if len(lines) < 2:
            return None
        sim.probe('too-few-lines')
        return '\n'.join(lines[:-2]) + ('\n' if len(lines) > 2 else '')
    return None


# --- one load ----------------------------------------------------------------------------------------------------------

class Load:
    def __init__(self, sim, dsk, load, n):
        self.sim, self.dsk, self.load, self.n = sim, dsk, load, n
        self.kind = load['conf']['kind']
        self.mode = dict(MODES[load['mode']])
        self.texts, self.kwargs = [], {}
        if self.kind in ('conll2012',):
            self.mode = {k: v for k, v in self.mode.items() if k == 'merge'}
        if self.kind == 'oldcorefud':
            self.mode = {}
        if self.kind in ('addtext', 'addsentences'):
            self.mode = {}
        for i, f in enumerate(load['files']):
            text, kw = p06.build({'conf': load['conf'], 'sents': f, 'messy': 0})
            self.texts.append(text)
            self.kwargs.update(kw)
        if load['strict'] and self.kind in ('conllu', 'conll', 'conllup', 'conll2012', 'oldcorefud'):
            self.kwargs['strict'] = 1
        self.channel = load['channel']
        if self.channel in ('stdin', 'handle') or self.kind == 'conll2012':
            self.texts = self.texts[:1]
        self.base = None
        if self.kind in ('addtext', 'addsentences'):
            self.base = self.texts = self.texts[:1]
            doc = self.base_doc()
            self.texts = ['\n'.join(t.compute_text() for t in doc.trees) + '\n']
        self.must_fail = False
        self.first_only = None      # text of the first members only, if a later member of a bz2 or xz file is damaged

    def base_doc(self):
        from udapi.core.document import Document
        doc = Document()
        doc.from_conllu_string(self.base[0])
        if hasattr(self, 'channel'):
            for t in doc.trees:
                t.text = None
        return doc

    def cls(self):
        if self.kind in ('addtext', 'addsentences'):
            mod = __import__('udapi.block.read.' + self.kind, fromlist='x')
            return mod.AddText if self.kind == 'addtext' else mod.AddSentences
        return p06.reader_class(self.kind)

    def reference(self):
        """The documents of the undamaged input, delivered from complete plain files."""
        names = []
        for i, t in enumerate(self.texts):
            names.append(f'ref{self.n}_{i}.txt')
            self.dsk.put(names[-1], t.encode())
        docs = []
        self.deliver(self.cls()(files=names, **self.kwargs, **self.mode), docs, False)
        return docs

    def deliver(self, reader, docs, faulty=True):
        """Collect what the reader delivers, as it is delivered."""
        from udapi.core.document import Document
        if self.base is not None:
            doc = self.base_doc()
            reader.apply_on_document(doc)
            docs.append(self.look(doc))
            return
        api = self.load['api'] if faulty else 'docs'
        if api == 'run':
            from udapi.core.run import Run
            from udapi.core.block import Block
            me = self

            class Recorder(Block):
                def process_document(self, document):
                    docs.append(me.look(document))
            self.sim.probe('run')
            Run(argparse.Namespace(scenario=['x'])).run_blocks([('read', reader, ''), ('rec', Recorder(), '')])
            return
        while not reader.finished:
            doc = Document()
            reader.apply_on_document(doc)
            docs.append(self.look(doc))

    @staticmethod
    def look(doc):
        from dst import view
        v = view.doc_view(doc)
        v['meta'].pop('loaded_from', None)
        return v

    def prepare(self):
        """Write the files, damaged or not; returns the names."""
        load, fault, dsk, sim = self.load, self.load['fault'], self.dsk, self.sim
        names, self.data = [], []
        target = None if fault is None else fault['file'] % len(self.texts)
        enc = 'utf-8'
        if load['enc'] == 2 and self.channel not in ('handle',):
            enc = 'utf-16'
            self.kwargs['encoding'] = enc
        ext = self.channel if self.channel in ('gz', 'xz', 'bz2') else 'conllu'
        pack = {'gz': gzip, 'xz': lzma, 'bz2': bz2}.get(ext)
        for i, text in enumerate(self.texts):
            name = f'in{self.n}_{i}.{ext}'
            here = i == target
            kind = fault['kind'] if here else None
            if here and i:
                sim.probe('second-file')
            if kind == 'struct':
                broken = damage(load, text, fault, sim)
                if broken is not None and broken != text:
                    text, self.must_fail = broken, True
                    sim.fault('damaged-text')
            data = text.encode(enc)
            if kind == 'badbytes':
                pos = int(fault['at'] * (len(data) + 1))
                if enc == 'utf-16':
                    pos = 2 + (pos - 2) // 2 * 2 if pos >= 2 else 2
                    data = data[:pos] + (b'\x00\xdc' if sys.byteorder == 'little' else b'\xdc\x00') + data[pos:]
                else:
                    data = data[:pos] + [b'\xff', b'\x80', b'\xc0\xaf', b'\xed\xa0\x80'][fault['how'] % 4 if pos and data[pos - 1] < 128 else 0] + data[pos:]
                self.must_fail = True
                sim.fault('invalid-bytes')
                sim.probe('bad-bytes')
            elif kind == 'cutchar':
                data = data + b'\xc5' if enc == 'utf-8' else data[:-1]
                if enc == 'utf-8' or text:
                    self.must_fail = True
                    sim.fault('cut-character')
                    sim.probe('cut-character')
            if pack:
                parts = [data] if not load['members'] else [data[:len(data) * load['members'] // 7], data[len(data) * load['members'] // 7:]]
                packed = [pack.compress(p) for p in parts]
                data = b''.join(packed)
                if kind == 'truncate':
                    cut = 1 + int(fault['at'] * (len(data) - 1))
                    if cut != len(packed[0]) and cut < len(data):
                        data = data[:cut]
                        self.must_fail = True
                        sim.fault('truncated/' + ext)
                        sim.probe('truncated-' + ext)
                elif kind == 'corrupt':
                    pos = int(fault['at'] * len(data))
                    data = data[:pos] + bytes([data[pos] ^ (1 << fault['how'] % 8)]) + data[pos + 1:]
                    sim.fault('corrupted/' + ext)
                    sim.probe('corrupted-' + ext)
                    if ext != 'gz' and len(packed) > 1 and pos >= len(packed[0]):
                        self.first_only = (i, parts[0], enc)
            if kind == 'missing' and self.channel not in ('stdin', 'handle', 'wildcard'):
                sim.fault('missing-file')
                sim.probe('missing')
                self.must_fail = True
            else:
                dsk.put(('w%d/' % self.n if self.channel == 'wildcard' else 'lists/' if self.channel == 'list' else '') + name, data)
            path = ('w%d/' % self.n if self.channel == 'wildcard' else 'lists/' if self.channel == 'list' else '') + name
            if kind == 'open':
                dsk.faults.append({'kind': 'open', 'path': path, 'errno': fault['errno']})
            elif kind == 'read':
                dsk.faults.append({'kind': 'read', 'path': path, 'at': int(fault['at'] * (len(data) + 1)), 'errno': fault['errno']})
            names.append(name)
            self.data.append(data)
        if fault and fault['kind'] == 'badlist' and self.channel in ('list', 'wildcard'):
            self.must_fail = True
            sim.fault('bad-file-list')
            sim.probe('bad-list')
            self.listing = ['missing', 'read', 'bytes'][fault['how'] % 3]
        else:
            self.listing = None
        return names

    def open(self, names):
        """Construct the reader."""
        load, dsk, sim, fault = self.load, self.dsk, self.sim, self.load['fault']
        kw = dict(self.kwargs, **self.mode)
        cls = self.cls()
        at = None
        if fault and fault['kind'] == 'read':
            at = int(fault['at'] * (len(self.data[0]) + 1))
        if self.channel == 'handle':
            raw = disk.StreamIn(sim, self.data[0], load['chunks'], at, fault['errno'] if at is not None else 'EIO')
            if at is not None:
                sim.probe('stream-error')
            return cls(filehandle=disk.text_in(raw), **kw)
        if self.channel == 'stdin':
            return cls(**kw)
        if self.channel == 'list':
            text = ''.join(n + '\n' for n in names).encode()
            path = f'lists/l{self.n}'
            if self.listing == 'bytes':
                text = text[:3] + b'\xff' + text[3:]
            if self.listing == 'read':
                dsk.faults.append({'kind': 'read', 'path': path, 'at': len(text) // 2, 'errno': 'EIO'})
            if self.listing != 'missing':
                dsk.put(path, text)
            return cls(files='@' + path, **kw)
        if self.channel == 'wildcard':
            return cls(files=f'!w{self.n}/*.nothing' if self.listing else f'!w{self.n}/*', **kw)
        return cls(files=names if load['strict'] else ' '.join(names), **kw)

    def run(self):
        """-> (documents delivered, exception or None)"""
        from udapi.core.document import Document
        load, sim, dsk, fault = self.load, self.sim, self.dsk, self.load['fault']
        docs = []
        names = self.prepare()
        dsk.chunks = load['chunks']
        if set(self.mode) & {'max_docs', 'split_docs', 'bundles_per_doc', 'sent_id_filter'}:
            sim.probe('one-by-one')
        stdin = None
        if self.channel == 'stdin':
            at = int(fault['at'] * (len(self.data[0]) + 1)) if fault and fault['kind'] == 'read' else None
            stdin = disk.text_in(disk.StreamIn(sim, self.data[0], load['chunks'], at, fault['errno'] if at is not None else 'EIO'))
        with disk.Stdio(stdin=stdin):
            before = (sys.stdout, gc.isenabled())
            try:
                if load['api'] in ('document', 'load_conllu') and self.kind == 'conllu' and self.channel == 'file' and len(names) == 1 and not self.mode \
                        and 'encoding' not in self.kwargs:
                    doc = Document(names[0], **self.kwargs) if load['api'] == 'document' else Document()
                    if load['api'] == 'load_conllu':
                        doc.load_conllu(names[0], **self.kwargs)
                    docs.append(self.look(doc))
                else:
                    self.deliver(self.open(names), docs)
                error = None
            except Exception as e:      # pylint: disable=broad-except
                error = f'{type(e).__name__}: {str(e)[:80]}'
            after = (sys.stdout, gc.isenabled())
        sim.check(before == after, 'process-usable', f'standard output or gc changed: {[before[1], after[1]]} {error}')
        return docs, error


def execute(plan, sim):
    gc.enable()
    failed = False
    with disk.Disk(sim) as dsk:
        for n, load in enumerate(plan['loads']):
            one = Load(sim, dsk, load, n)
            dsk.faults, dsk.chunks, dsk.delivered, dsk.opens = [], [], [], {}
            reference = one.reference()
            docs, error = one.run()
            dsk.faults = []
            fault = load['fault']
            what = fault['kind'] if fault else None
            sim.log('load', n, one.kind, one.channel, what, len(docs), error)
            for f in dsk.delivered:
                sim.probe({'open': 'open-error', 'read': 'read-error'}[f['kind']])
            pos = 0 if not fault else 1 if fault['at'] < 0.05 else 3 if fault['at'] > 0.95 else 2
            sim.state([one.kind, one.channel, load['mode'], load['api'], what, pos, fault['how'] if what == 'struct' else 0, error is None, len(docs) > 0])
            context = f'{one.kind} {one.channel} {one.mode} fault {fault}'
            if error is None:
                limited = 'max_docs' in one.mode or (one.kind == 'addsentences' and what != 'struct')       # reads no more than it needs
                if limited and what == 'corrupt':
                    sim.count('checksum-not-reached')
                    continue
                if docs != reference and one.first_only and known_stream(one, docs):
                    sim.check(False, 'broken-passed', f'{context}: damaged later member of the compressed file ignored', 'broken-passed/later-stream-ignored')
                sim.check(docs == reference, 'broken-passed' if fault else 'good-input', lambda: f'{context}: {diff(reference, docs)}')
                sim.check(not one.must_fail or limited, 'broken-passed', lambda: f'{context}: loaded {len(docs)} documents without an exception')
            else:
                sim.probe('refused')
                injected = one.must_fail or dsk.delivered or any(k.startswith(('fault:corrupted', 'fault:stream-read')) for k in sim.counts)
                sim.check(injected, 'good-input', lambda: f'{context}: {error}')
                if docs:
                    sim.probe('documents-before-failure')
                sim.check(docs == reference[:len(docs)] or what == 'corrupt', 'documents-before-failure', lambda: f'{context}: {diff(reference[:len(docs)], docs)}')
            if failed and error is None and not fault:
                sim.probe('load-after-failure')
            failed = failed or error is not None


def known_stream(one, docs):
    """Do the documents contain just the first member of the damaged file?"""
    i, part, enc = one.first_only
    texts = list(one.texts)
    try:
        texts[i] = part.decode(enc)
    except UnicodeDecodeError:
        texts[i] = part.decode(enc, 'ignore')
    one.texts = texts
    try:
        return one.reference() == docs
    except Exception:       # pylint: disable=broad-except
        return True
