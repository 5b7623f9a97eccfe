"""P09: what a writer reports as stored is stored completely, in the right place."""
import argparse
import contextlib
import io
import json
import os
import re
import sys

from dst import core, disk, gen as g

RUNS = {'quick': 4000, 'thorough': 250000}
LISTS = ('steps', 'docs')
STATE_RULE = 'one state = (writer class, kind of output, how it was called, fault and its position class, outcome, outputs written so far), counted once over all runs'
TIME_UNIT = 'disk operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.basewriter', 'udapi.core.files', 'udapi.core.run', 'writers of udapi.block.write', 'eval.*', 'Document.store_conllu', 'node.draw',
                       "Python's buffering and encoding"],
              'stub': ['raw files and directories, standard output, open handles (dst/disk.py)']}
ASSUMPTIONS = ['the reference text of a document is what the same writer prints into a string; for write.Conllu it is also the text the document was loaded from',
               'two documents are not sent to one and the same file by different steps unless the second one is meant to replace the first one',
               'a file whose storing failed or was cut by a crash may have any content']
PROBES = ('stdout', 'file', 'list', 'dash-in-list', 'docname', 'no-docname', 'overwrite', 'path', 'no-loaded-from', 'handle', 'diskhandle', 'store_conllu', 'draw', 'eval',
          'scenario', 'failed', 'crash', 'too-few-names', 'next-after-failure', 'two-writers', 'encoding', 'unencodable', 'empty-document', 'replaced', 'broken-pipe',
          'close-failed', 'disk-full', 'subdirectory', 'stdin-loaded', 'stale-file')
CLASSES = ['conllu', 'conllu', 'conllu', 'conllu', 'sentences', 'textmodetrees', 'treex', 'vislcg', 'sdparse', 'sentenceshtml', 'textmodetreeshtml', 'html', 'tikz']
NAMES = {'conllu': 'Conllu', 'sentences': 'Sentences', 'textmodetrees': 'TextModeTrees', 'treex': 'Treex', 'vislcg': 'Vislcg', 'sdparse': 'Sdparse',
         'sentenceshtml': 'SentencesHtml', 'textmodetreeshtml': 'TextModeTreesHtml', 'html': 'Html', 'tikz': 'Tikz'}
PATHS = ['out', 'out/deep/', 'out/*.txt', '*.bak', 'out/*', '*/fixed.conllu']
KINDS = ['stdout', 'stdout', 'list', 'list', 'list', 'docname', 'overwrite', 'path', 'path', 'handle', 'diskhandle']
ERRNOS = ['EIO', 'ENOSPC', 'EDQUOT', 'EROFS', 'EACCES']


def gen(rng):
    docs = []
    for i in range(rng.choice([1, 2, 3, 4])):
        n = rng.choice([0, 1, 1, 2, 4])
        text = g.document(rng, n, sizes=(1, rng.choice([3, 8])), rare=rng.choice([0, 0.2]))
        if rng.random() < 0.07 and n:
            big = text
            text = ''.join(big.replace('# sent_id = s', '# sent_id = r%ds' % k) for k in range(40))
        docs.append({'text': text, 'docname': rng.choice([None, f'dn{i}.conllu', f'sub{i}/dn.conllu', f'x/y{i}.txt']),
                     'from': rng.choice([None, f'src/in{i}.conllu', f'in{i}.conllu', f'in{i}.conllu', '-'])})
    writers = []
    for w in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(KINDS)
        cls = rng.choice(CLASSES)
        names = [rng.choice([f'o{w}_{i}.txt', f'o{w}_{i}.txt', f'dir{w}/o{i}.txt', '-']) for i in range(rng.randint(1, 5))]
        writers.append({'cls': cls, 'kind': kind, 'names': names, 'string': rng.randrange(2), 'path': rng.choice(PATHS),
                        'encoding': rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'latin-1', 'ascii']), 'newline': rng.choice(['\n', '\n', '\r\n', ''])})
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        how = rng.choice(['apply', 'apply', 'apply', 'run', 'store_conllu', 'draw', 'eval', 'scenario'])
        fault = None
        if rng.random() < 0.45:
            fault = {'kind': rng.choice(['open', 'write', 'write', 'write', 'close', 'space', 'mkdir', 'intr', 'crash', 'crash']), 'at': rng.random(),
                     'errno': rng.choice(ERRNOS), 'nth': rng.randrange(1, 9), 'torn': rng.randrange(0, 300)}
        steps.append({'how': how, 'writer': rng.randrange(6), 'doc': rng.randrange(6), 'name': rng.choice([f'st{rng.randrange(3)}.conllu', 'st0.conllu', 'new/dir/st.conllu']),
                      'fault': fault})
    return {'docs': docs, 'writers': writers, 'steps': steps, 'stale': rng.choices([0, 1, 30, 20000], [8, 1, 2, 1], k=4), 'wchunks': rng.choice([[], [], [1], [10, 3], [4096], [100]]),
            'stdout_fail': rng.choice([None] * 8 + [0, 1, 60, 300, 2000]), 'stdout_errno': rng.choice(['EPIPE', 'ENOSPC', 'EIO'])}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for key, val in (('wchunks', []), ('stale', [0]), ('stdout_fail', None)):
        if plan[key] != val:
            p = cp()
            p[key] = val
            yield p
    if len(plan['writers']) > 1:
        for i in range(len(plan['writers'])):
            p = cp()
            del p['writers'][i]
            yield p
    for i, w in enumerate(plan['writers']):
        for key, val in (('cls', 'conllu'), ('encoding', 'utf-8'), ('newline', '\n'), ('kind', 'stdout')):
            if w[key] != val:
                p = cp()
                p['writers'][i][key] = val
                yield p
    for i, s in enumerate(plan['steps']):
        if s['fault']:
            p = cp()
            p['steps'][i]['fault'] = None
            yield p
        if s['how'] != 'apply':
            p = cp()
            p['steps'][i]['how'] = 'apply'
            yield p
    for i, d in enumerate(plan['docs']):
        if d['text']:
            p = cp()
            p['docs'][i]['text'] = ''.join(x + '\n\n' for x in d['text'].split('\n\n')[:-2])
            yield p


class World:
    def __init__(self, plan, sim, dsk):
        from udapi.core.document import Document
        self.plan, self.sim, self.dsk = plan, sim, dsk
        self.docs = []
        for i, d in enumerate(plan['docs']):
            doc = Document()
            doc.from_conllu_string(d['text'])
            if d['docname'] is not None:
                doc.meta['docname'] = d['docname']
            else:
                doc.meta.pop('docname', None)
            doc.meta['loaded_from'] = d['from']
            self.docs.append(doc)
            if d['from'] not in (None, '-'):
                dsk.put(d['from'], d['text'].encode())
        dsk.put('other.conllu', b'precious\n')
        dsk.put('out/other.txt', b'precious\n')
        dsk.put('src/other.bak', b'precious\n')
        self.raw = disk.StreamOut(sim, plan['wchunks'], plan['stdout_fail'], plan['stdout_errno'])
        self.stdout = disk.text_out(self.raw)
        self.stdout_text = ''         # all that has been reported as printed
        self.stdout_ok = True
        self.handles = {}
        self.writers = []
        for w in plan['writers']:
            self.writers.append(self.writer(w))
        self.calls = [0] * len(self.writers)
        self.failed = False
        self.stores = 0
        self.files = dsk.files()

    def cls(self, name):
        return getattr(__import__('udapi.block.write.' + name, fromlist='x'), NAMES[name])

    def writer(self, w):
        kw = {'encoding': w['encoding'], 'newline': w['newline']}
        cls = self.cls(w['cls'])
        kind, n = w['kind'], len(self.writers)
        if kind == 'list':
            kw['files'] = ','.join(w['names']) if w['string'] else list(w['names'])
        elif kind == 'docname':
            kw['docname_as_file'] = 1
        elif kind == 'overwrite':
            kw['overwrite'] = 1
        elif kind == 'path':
            kw['path'] = w['path']
        elif kind == 'handle':
            raw = disk.StreamOut(self.sim, self.plan['wchunks'])
            self.handles[n] = [disk.text_out(raw), raw, '']
            kw['filehandle'] = self.handles[n][0]
        elif kind == 'diskhandle':
            self.handles[n] = [open(f'handle{n}.txt', 'w', encoding='utf-8'), None, '']
            kw['filehandle'] = self.handles[n][0]
        return cls(**kw)

    def text(self, cls, doc):
        """What the writer prints for the document."""
        out = io.StringIO()
        self.cls(cls)(filehandle=out).apply_on_document(doc)
        return out.getvalue()

    def target(self, n, doc):
        """Where the model says the document goes: ('file', path), ('stdout',), ('handle', n) or ('error',)."""
        w = self.plan['writers'][n]
        kind = w['kind']
        if kind == 'stdout':
            return ('stdout',)
        if kind in ('handle', 'diskhandle'):
            return ('handle', n)
        if kind == 'list':
            i = self.calls[n]
            if w['string'] and w['names'] == ['-']:     # the default: all documents
                return ('stdout',)
            if i >= len(w['names']):
                self.sim.probe('too-few-names')
                return ('error',)
            if w['names'][i] == '-':
                self.sim.probe('dash-in-list')
                return ('stdout',)
            return ('file', w['names'][i])
        if kind == 'docname':
            name = doc.meta.get('docname')
            self.sim.probe('docname' if name else 'no-docname')
            return ('file', name) if name else ('stdout',)
        src = doc.meta.get('loaded_from')
        if src is None or src == '-':
            self.sim.probe('no-loaded-from' if src is None else 'stdin-loaded')
            return ('stdout',)
        if kind == 'overwrite':
            return ('file', src)
        folder, name = os.path.split(src)
        stem, ext = os.path.splitext(name)
        return ('file', {'out': 'out/' + name, 'out/deep/': 'out/deep/' + name, 'out/*.txt': f'out/{stem}.txt', '*.bak': os.path.join(folder, stem + '.bak'),
                         'out/*': 'out/' + name, '*/fixed.conllu': os.path.join(folder, 'fixed.conllu')}[w['path']])

    # --- one store ------------------------------------------------------------------------------------------------
    def arm(self, fault, target):
        dsk = self.dsk
        dsk.faults, dsk.space, dsk.delivered, dsk.ops = [], None, [], 0
        if fault is None:
            return
        path = target[1] if target[0] == 'file' else '*'
        size = 400
        k = fault['kind']
        if k == 'open':
            dsk.faults = [{'kind': 'open', 'path': path, 'nth': dsk.opens.get(path, 0) + 1, 'errno': fault['errno']}]
        elif k == 'write':
            dsk.faults = [{'kind': 'write', 'path': path, 'at': int(fault['at'] ** 2 * 3 * size), 'errno': fault['errno']}]
        elif k == 'close':
            dsk.faults = [{'kind': 'close', 'path': path, 'errno': fault['errno']}]
        elif k == 'space':
            dsk.space = int(fault['at'] ** 2 * 3 * size)
            dsk.faults = [{'kind': 'space', 'bytes': dsk.space}]
        elif k == 'mkdir':
            dsk.faults = [{'kind': 'mkdir', 'path': '*', 'errno': fault['errno']}]
        elif k == 'intr':
            dsk.faults = [{'kind': 'intr', 'nth': fault['nth'] - 1}]
        elif k == 'crash':
            dsk.faults = [{'kind': 'crash', 'nth': fault['nth'], 'torn': fault['torn']}]

    def store(self, what, target, text, action, fault, encoding='utf-8', newline='\n'):
        """Run an action which stores `text` into `target` and check what it has done.  Returns False after a failure."""
        sim, dsk = self.sim, self.dsk
        expected = text.replace('\n', newline) if newline not in ('', '\n') else text
        try:
            data = expected.encode(encoding) if target[0] == 'file' and text else text.encode()
        except UnicodeEncodeError:
            data = None
            sim.probe('unencodable')
        stale = self.plan['stale'][self.stores % len(self.plan['stale'])]
        self.stores += 1
        if stale and target[0] == 'file' and target[1] not in self.files:      # an older file of another program
            dsk.put(target[1], b'older content\n' * stale)
            self.files = dsk.files()
            sim.probe('stale-file')
        self.arm(fault, target)
        sim.log('store', what, target, len(text), fault)
        before = sys.stdout
        error = None
        try:
            action()
        except disk.Crash:
            sim.probe('crash')
            self.after_crash(target)
            raise
        except Exception as e:      # pylint: disable=broad-except
            error = f'{type(e).__name__}: {str(e)[:80]}'
        finally:
            dsk.faults, dsk.space = [], None
        sim.check(sys.stdout is before, 'standard-output', f'{what}: sys.stdout is not restored ({error})')
        sim.log('stored', error)
        context = f'{what} to {target} ({fault})'
        position = 0 if not fault else int(fault['at'] * 3)
        sim.state([what, target[0], fault['kind'] if fault else None, position, error is None, len(self.plan['docs'])])
        now = dsk.files()
        others = {p for p in set(self.files) | set(now) if self.files.get(p) != now.get(p)} - ({target[1]} if target[0] == 'file' else set()) - \
            {f'handle{n}.txt' for n in self.handles if target == ('handle', n)}
        sim.check(not others, 'other-files', lambda: f'{context}: {sorted(others)} changed')
        if error is None:
            sim.check(target[0] != 'error', 'no-place', lambda: f'{context}: stored although there was no name left')
            sim.check(data is not None, 'unencodable', lambda: f'{context}: stored in {encoding}')
            if target[0] == 'file':
                got = now.get(target[1])
                if target[1] in self.files:
                    sim.probe('replaced')
                if '/' in target[1]:
                    sim.probe('subdirectory')
                sim.check(got == data, 'stored', lambda: f'{context}: reported as stored but the file is {describe(got, data)}')
            elif target[0] == 'stdout':
                sim.probe('stdout')
                self.stdout_text += text
                got = bytes(self.raw.got)
                if self.stdout_ok:
                    sim.check(got == self.stdout_text.encode(), 'stored', lambda: f'{context}: standard output got {describe(got, self.stdout_text.encode())}')
                else:
                    sim.check(not text, 'stored', lambda: f'{context}: reported as stored after standard output failed')
            else:
                handle, raw, old = self.handles[target[1]]
                sim.probe('diskhandle' if raw is None else 'handle')
                sim.check(not handle.closed, 'handle', lambda: f"{context}: the user's handle was closed")
                self.handles[target[1]][2] = old + text
                got = bytes(raw.got) if raw is not None else now.get(f'handle{target[1]}.txt')
                want = (old + text).encode()
                sim.check(got == want, 'stored', lambda: f'{context}: handle got {describe(got, want)}')
            if self.failed:
                sim.probe('next-after-failure')
        else:
            self.failed = True
            sim.probe('failed')
            stream_failed = target[0] == 'stdout' and self.raw.failed
            if stream_failed:
                self.stdout_ok = False
                if self.plan['stdout_errno'] == 'EPIPE':
                    sim.probe('broken-pipe')
            for f in dsk.delivered:
                if f['kind'] in ('close', 'space'):
                    sim.probe({'close': 'close-failed', 'space': 'disk-full'}[f['kind']])
            justified = target[0] == 'error' or data is None or stream_failed or any(f['kind'] != 'intr' for f in dsk.delivered) or \
                (target[0] == 'handle' and self.handles[target[1]][2] is None)
            sim.check(justified, 'unjustified-failure', lambda: f'{context}: {error}')
            if target[0] == 'handle':
                # What is in the buffers of the handle is not known any more.
                self.drop(target[1])
        self.files = dsk.files()
        return error is None

    def drop(self, n):
        """Replace the writer of a broken handle by one to standard output."""
        self.plan['writers'][n] = dict(self.plan['writers'][n], kind='stdout')
        self.handles[n][2] = None
        with contextlib.suppress(Exception):
            self.handles[n][0].close()
        self.files = self.dsk.files()
        kw = {k: self.plan['writers'][n][k] for k in ('encoding', 'newline')}
        self.writers[n] = self.cls(self.plan['writers'][n]['cls'])(**kw)

    def after_crash(self, target):
        """Only what is on the disk survives; everything stored earlier must be complete there."""
        now = self.dsk.files()
        mine = {target[1]} if target[0] == 'file' else {f'handle{target[1]}.txt'} if target[0] == 'handle' else set()
        for path, data in self.files.items():
            if path not in mine:
                self.sim.check(now.get(path) == data, 'durable', lambda: f'{path} is {describe(now.get(path), data)} after a crash while storing to {target}')
        new = set(now) - set(self.files) - mine
        self.sim.check(not new, 'other-files', lambda: f'{sorted(new)} created by storing to {target}')


def describe(got, want):
    if got is None:
        return 'missing'
    if want is None:
        return f'{len(got)} bytes'
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return f'{len(got)} bytes instead of {len(want)}, different from byte {k}: {got[max(0, k - 10):k + 30]!r} instead of {want[max(0, k - 10):k + 30]!r}'


def execute(plan, sim):
    from udapi.core.run import Run
    from udapi.core.block import Block
    plan = json.loads(json.dumps(plan))
    with disk.Disk(sim, (), (), plan['wchunks']) as dsk:
        world = World(plan, sim, dsk)
        for i, d in enumerate(plan['docs']):
            got = world.docs[i].to_conllu_string()
            sim.check(got == d['text'], 'reference', lambda: f'to_conllu_string of the loaded document is {describe(got.encode(), d["text"].encode())}')
        if len(world.writers) > 1:
            sim.probe('two-writers')
        try:
            with disk.Stdio(stdout=world.stdout):
                for step in plan['steps']:
                    one(world, step, Run, Block)
        except disk.Crash:
            sim.check(sys.stdout is not world.stdout, 'standard-output', 'harness')
        for handle, _, _ in world.handles.values():
            with contextlib.suppress(Exception):
                handle.close()


def attempt(world, cls, doc):
    """The text of a document in some format, or None if that format cannot express it."""
    if cls == 'conllu':
        return world.text(cls, doc)
    try:
        return world.text(cls, doc)
    except (TypeError, AttributeError):
        return None


def one(world, step, Run, Block):
    sim, dsk, plan = world.sim, world.dsk, world.plan
    doc = world.docs[step['doc'] % len(world.docs)] if world.docs else None
    n = step['writer'] % len(world.writers)
    w = plan['writers'][n]
    how = step['how']
    if doc is None:
        return
    if not doc.bundles:
        sim.probe('empty-document')
    if how in ('apply', 'run'):
        text = attempt(world, w['cls'], doc)
        if text is None:
            return
        target = world.target(n, doc)
        for p in ('file', 'list', 'overwrite', 'path'):
            if w['kind'] == p or target[0] == p:
                sim.probe(p)
        if w['encoding'] != 'utf-8':
            sim.probe('encoding')
        block = world.writers[n]
        world.calls[n] += 1
        world.store(f"{w['cls']}.{how}", target, text, lambda: getattr(block, 'run' if how == 'run' else 'apply_on_document')(doc), step['fault'], w['encoding'], w['newline'])
    elif how == 'store_conllu':
        sim.probe('store_conllu')
        world.store(how, ('file', step['name']), world.text('conllu', doc), lambda: doc.store_conllu(step['name']), step['fault'])
    elif how == 'draw':
        nodes = [x for t in doc.trees for x in t.descendants(add_self=True)]
        if not nodes:
            return
        node = nodes[step['writer'] % len(nodes)]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            node.draw(color=False)
        sim.probe('draw')
        if step['writer'] % 2:
            world.store(how, ('file', step['name']), out.getvalue(), lambda: node.draw(color=False, files=step['name']), step['fault'])
        else:
            world.store(how, ('stdout',), out.getvalue(), lambda: node.draw(color=False), step['fault'])
    elif how == 'eval':
        evaluate(world, step)
    else:
        scenario(world, step, Run, Block)


def evaluate(world, step):
    """eval.* print one result for all documents at the end of the scenario."""
    import udapi.block.eval.parsing
    import udapi.block.eval.conll18
    import udapi.block.eval.f1
    from udapi.core.document import Document
    texts = [d['text'] for d in world.plan['docs'] if d['text']][:2]
    if not texts:
        return
    docs = []
    for t in texts:
        doc = Document()
        both = ''
        for sentence in t.split('\n\n')[:-1]:
            both += sentence + '\n\n' + re.sub(r'(?m)^(# sent_id = \S+)$', r'\1/gold', sentence, count=1) + '\n\n'
        doc.from_conllu_string(both)
        assert all(len(b.trees) == 2 for b in doc.bundles)
        docs.append(doc)
    cls = [udapi.block.eval.parsing.Parsing, udapi.block.eval.conll18.Conll18, udapi.block.eval.f1.F1][step['doc'] % 3]

    def run(**kw):
        block = cls(gold_zone='gold', zones='', **kw)
        block.process_start()
        for doc in docs:
            block.apply_on_document(doc)
        block.process_end()
    out = io.StringIO()
    run(filehandle=out)
    world.sim.probe('eval')
    if step['writer'] % 2:
        world.store('eval', ('file', step['name']), out.getvalue(), lambda: run(files=step['name']), step['fault'])
    else:
        world.store('eval', ('stdout',), out.getvalue(), run, step['fault'])


def scenario(world, step, Run, Block):
    """A whole scenario: every document goes through every writer; the state of the disk is checked after each of them."""
    sim, plan, dsk = world.sim, world.plan, world.dsk
    sources = [d for d in plan['docs'] if d['from'] not in (None, '-')]
    if not sources:
        return
    from udapi.block.read.conllu import Conllu as Reader
    names = []
    for i, d in enumerate(sources):
        folder = os.path.dirname(d['from'])
        names.append(os.path.join(folder, f'sc{i}.conllu'))
        dsk.put(names[-1], d['text'].encode())
    world.files = dsk.files()
    reader = Reader(files=names)
    count = len(world.writers)
    sim.probe('scenario')
    shared = {'left': step['writer'] if step['fault'] else -1, 'stop': False}

    class Check(Block):
        """Stands for a writer: applies it and checks its result at once."""
        def __init__(self, n):
            super().__init__()
            self.n = n

        def process_start(self):
            world.writers[self.n].process_start()

        def apply_on_document(self, document):
            w = plan['writers'][self.n]
            text = attempt(world, w['cls'], document)
            if text is None:
                return
            target = world.target(self.n, document)
            world.calls[self.n] += 1
            fault = step['fault'] if shared['left'] == 0 else None
            shared['left'] -= 1
            ok = world.store(f"{w['cls']}.scenario", target, text, lambda: world.writers[self.n].apply_on_document(document), fault, w['encoding'], w['newline'])
            if not ok:
                raise Stop()
    with contextlib.suppress(Stop):
        Run(argparse.Namespace(scenario=['x'])).run_blocks([('read', reader, '')] + [(f'w{i}', Check(i), '') for i in range(count)])
    world.files = dsk.files()


class Stop(Exception):
    pass
