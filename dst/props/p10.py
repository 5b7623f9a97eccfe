"""P10: loading, storing and running leave the process as they found it."""
import argparse
import ast
import bz2
import contextlib
import gc
import gzip
import importlib
import io
import json
import lzma
import os
import random
import signal
import sys

from dst import core, disk, gen as g

RUNS = {'quick': 4000, 'thorough': 200000}
LISTS = ('steps',)
STATE_RULE = 'one state = (operation, its block or input kind, fault and the call or byte class it struck, outcome, redirected or not, garbage collection on or off), counted once over all runs'
TIME_UNIT = 'operations (the system has no clock)'
COMPONENTS = {'real': ['udapi.core.basereader', 'udapi.core.basewriter', 'udapi.core.files', 'udapi.core.run', 'Document', 'all readers and writers of texts', 'printing blocks', 'eval.*'],
              'stub': ['files and standard streams (dst/disk.py)']}
ASSUMPTIONS = ['the program itself changes the state only between operations', 'a signal does not strike inside of the few lines that restore the standard output',
               'output printed after standard output itself has failed (closed pipe, full disk) is not expected to arrive']
PROBES = ('load-ok', 'load-failed', 'store-ok', 'store-failed', 'print-ok', 'print-failed', 'scenario-ok', 'scenario-failed', 'redirected', 'gc-off', 'reused', 'collected',
          'interrupt', 'stdin', 'stdout-failed', 'tty', 'force-color', 'recursion-limit', 'broken-input', 'imported')
WRITERS = ['write.Conllu', 'write.Conllu', 'write.Conllu', 'write.TextModeTrees', 'write.TextModeTrees color=1', 'write.TextModeTrees color=0 print_doc_meta=1',
           'write.TextModeTreesHtml', 'write.Html', 'write.Tikz', 'write.Treex', 'write.Vislcg', 'write.Sdparse', 'write.Sentences', 'write.SentencesHtml', 'write.OldCorefUD',
           'write.CorefHtml', 'write.CorefHtml show_trees=0', 'corefud.PrintMentions', 'corefud.PrintMentions almost_forest=1 print_other_forms=2 shuffle=1',
           'corefud.PrintMentions max_trees=1 color=1',
           'eval.Parsing gold_zone=en', 'eval.Conll18 gold_zone=en', 'eval.Conll17 gold_zone=en', 'eval.F1 gold_zone=en', 'demo.Complexity']
BLOCKS = ['util.Wc', 'corefud.PrintEntities', 'corefud.Stats', 'ud.MarkBugs', 'util.Normalize', 'corefud.MiscStats', 'ud.PrintFixed', 'util.Mark node=node.upos=="X"', 'util.See node=node.form',
          'util.Split bundles_per_doc=1', 'util.SplitSentence', 'transform.Proj', 'tokenize.Simple', 'zellig_harris.EnNouns', 'segment.Simple', 'util.Eval node=1/0',
          'util.Eval start=1/0', 'util.Eval end=1/0', 'util.Eval doc=raise(KeyboardInterrupt())', 'util.Eval node=undefined', 'util.Eval after_doc=1/0', 'corefud.Load', 'no.Such', 'util.Wc bad=1']
PRINTS = ['draw', 'draw-file', 'str', 'conllu', 'print_subtree', 'doc-draw', 'root-draw', 'draw-bad']
INPUTS = ['plain', 'plain', 'gz', 'xz', 'bz2', 'stdin', 'handle', 'string', 'document', 'text', 'txt', 'reader-twice', 'missing', 'lazy', 'old', 'nofile']
HARM = [None, None, None, 'cut', 'garbage', 'utf8', 'cycle', 'head', 'columns']


def gen(rng):
    docs = []
    for i in range(rng.choice([1, 2, 3])):
        zones = rng.random() < 0.6
        text = g.document(rng, rng.choice([1, 1, 2, 3]), sizes=(1, 6), rare=0.05)
        if zones:
            text = ''.join(p + '\n\n' + p.replace('\n# text', '/en\n# text', 1) + '\n\n' for p in text.split('\n\n')[:-1])
        docs.append({'text': text, 'entities': [[rng.randrange(20), rng.randrange(3)] for _ in range(rng.choice([0, 0, 1, 3]))], 'docname': rng.choice([None, f'd{i}.conllu'])})
    steps = []
    pool = [rng.randrange(1000) for _ in range(rng.choice([2, 4, 20]))]
    for _ in range(rng.choice([2, 4, 6, 10])):
        op = rng.choice(['load', 'load', 'store', 'store', 'store', 'print', 'scenario', 'scenario', 'collect', 'import'])
        fault = None
        if rng.random() < 0.5:
            kind = rng.choice(['open', 'write', 'write', 'close', 'read', 'space', 'mkdir', 'call', 'call', 'call', 'stdin'])
            fault = {'kind': kind, 'at': int(rng.random() ** 2 * 1200), 'nth': int(rng.random() ** 3 * rng.choice([30, 300, 3000])) + 1, 'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES']),
                     'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit', 'RuntimeError'])}
        steps.append({'op': op, 'doc': rng.randrange(4), 'what': rng.choice(pool), 'harm': rng.choice(HARM), 'out': rng.choice(['-', '-', 'out.txt', 'deep/out.txt', 'list', 'docname', 'handle',
                      'path', 'overwrite']), 'reuse': rng.random() < 0.5, 'fault': fault,
                      'ctx': rng.choice([None] * 4 + ['redirect', 'redirect', 'gc', 'cwd', 'env', 'limit', 'random', 'swap']), 'blocks': [rng.randrange(1000) for _ in range(rng.choice([0, 1, 2]))],
                      'at': rng.random()})
    return {'docs': docs, 'steps': steps, 'gc': rng.randrange(2), 'tty': rng.randrange(2), 'force': rng.choice([None, None, '1', '']), 'wchunks': rng.choice([[], [], [1], [7, 30]]),
            'stdout_fail': rng.choice([None] * 9 + [0, 50, 500, 5000]), 'stdout_errno': rng.choice(['EPIPE', 'ENOSPC'])}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for key, val in (('wchunks', []), ('stdout_fail', None), ('tty', 0), ('force', None), ('gc', 1)):
        if plan[key] != val:
            p = cp()
            p[key] = val
            yield p
    for i, s in enumerate(plan['steps']):
        for key, val in (('fault', None), ('ctx', None), ('harm', None), ('blocks', []), ('reuse', False), ('out', '-')):
            if s[key] != val:
                p = cp()
                p['steps'][i][key] = val
                yield p
    for i, d in enumerate(plan['docs']):
        if d['entities']:
            p = cp()
            p['docs'][i]['entities'] = []
            yield p
    if len(plan['docs']) > 1:
        p = cp()
        p['docs'].pop()
        yield p


_CLEANUP = {}


def cleanup_lines(path):
    """Lines of a source file that clean up: finally parts, except parts, __exit__, __del__ and close methods."""
    if path not in _CLEANUP:
        lines = set()
        with contextlib.suppress(OSError, SyntaxError), io.open_code(path) as f:
            for n in ast.walk(ast.parse(f.read())):
                part = []
                if isinstance(n, (ast.Try, ast.TryStar)):
                    part = n.finalbody + n.handlers
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ('__exit__', '__del__', 'close'):
                    part = [n]
                for s in part:
                    lines.update(range(s.lineno, s.end_lineno + 1))
        _CLEANUP[path] = lines
    return _CLEANUP[path]


def cleaning_up(frame):
    """Is this a call from code that cleans up?  (Python itself offers no way to protect such code from a signal.)"""
    while frame is not None:
        path = frame.f_code.co_filename
        if path.startswith(core.REPO) and frame.f_lineno in cleanup_lines(path):
            return True
        frame = frame.f_back
    return False


class Interrupt:
    """Raises an exception when the nth function of the library is entered (a signal, a failed allocation)."""
    TOOL = 4

    def __init__(self, sim, nth, exc):
        self.sim, self.left, self.exc, self.done = sim, nth, getattr(__builtins__ if not isinstance(__builtins__, dict) else None, exc, None) or __builtins__[exc], False
        self.raised = None
        self.over = False

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'dst-interrupt')

        def on_start(code, _):
            if not code.co_filename.startswith(core.REPO) or code.co_name in ('__repr__', '__str__', '__del__', '<lambda>', 'close') or code.co_filename.endswith('/tests'):
                return mon.DISABLE if not code.co_filename.startswith(core.REPO) else None
            self.left -= 1
            if self.left <= 0 and not self.done and not self.over:
                if cleaning_up(sys._getframe(1)):
                    return None
                self.done = True
                mon.set_events(self.TOOL, 0)
                self.raised = self.exc('planned')
                self.sim.fault('call/' + self.exc.__name__)
                self.sim.probe('interrupt')
                self.sim.log('interrupt', code.co_name)
                self.where = code.co_name
                raise self.raised
            return None
        mon.register_callback(self.TOOL, mon.events.PY_START, on_start)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.PY_START, None)
        mon.free_tool_id(self.TOOL)


def state():
    """Everything about the process that must not be changed."""
    out = {'stdout': sys.stdout, 'stdin': sys.stdin, 'stderr': sys.stderr, 'gc': gc.isenabled(), 'gc-threshold': gc.get_threshold(), 'cwd': os.getcwd(), 'environment': dict(os.environ),
           'recursion-limit': sys.getrecursionlimit(), 'random': random.getstate(), 'excepthook': sys.excepthook, 'sigint': signal.getsignal(signal.SIGINT),
           'sigpipe': signal.getsignal(signal.SIGPIPE), 'umask': umask(), 'open': open, 'displayhook': sys.displayhook, 'switchinterval': sys.getswitchinterval(),
           'stdout-open': not sys.stdout.closed, 'stdin-open': not sys.stdin.closed and not sys.stdin.buffer.closed, 'int-digits': sys.get_int_max_str_digits(),
           'trace': sys.gettrace(), 'gc-debug': gc.get_debug(), 'gc-frozen': gc.get_freeze_count(), 'dont-write': sys.dont_write_bytecode}
    return out


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


class World:
    def __init__(self, plan, sim, dsk):
        from udapi.core.document import Document
        self.plan, self.sim, self.dsk = plan, sim, dsk
        self.docs = []
        for i, d in enumerate(plan['docs']):
            doc = Document()
            doc.from_conllu_string(d['text'])
            doc.meta['docname'] = d['docname']
            doc.meta['loaded_from'] = f'in{i}.conllu'
            nodes = [x for t in doc.trees if not t.zone for x in t.descendants]
            if d['entities']:
                entity = doc.create_coref_entity('e1')
                for start, length in d['entities']:
                    head = nodes[start % len(nodes)]
                    entity.create_mention(head=head, words=[w for w in head.root.descendants if head.ord <= w.ord <= head.ord + length])
            self.docs.append(doc)
            dsk.put(f'in{i}.conllu', d['text'].encode())
        self.raw = disk.StreamOut(sim, plan['wchunks'], plan['stdout_fail'], plan['stdout_errno'], tty=bool(plan['tty']))
        self.stdout = disk.text_out(self.raw)
        self.stdin_raw = disk.StreamIn(sim, (plan['docs'][0]['text']).encode(), [50])
        self.stdin = disk.text_in(self.stdin_raw)
        self.markers = []
        self.kept = {}          # reused block instances
        self.handles = []
        self.swapped = None

    def harmed(self, text, how, at):
        data = text.encode()
        if how is None:
            return data
        self.sim.probe('broken-input')
        k = int(at * len(data))
        if how == 'cut':
            return data[:k]
        if how == 'garbage':
            return data[:k] + b'\x00\x01\tgarbage\n\t' + data[k:]
        if how == 'utf8':
            return data[:k] + b'\xff\xfe\xc3' + data[k:]
        lines = text.split('\n')
        rows = [i for i, x in enumerate(lines) if '\t' in x and x.split('\t')[0].isdigit()]
        if rows:
            i = rows[k % len(rows)]
            f = lines[i].split('\t')
            if how == 'columns':
                f = f[:5]
            else:
                f[6] = {'cycle': f[0], 'head': '77'}[how]
            lines[i] = '\t'.join(f)
        return '\n'.join(lines).encode()

    def load(self, step):
        from udapi.core.document import Document
        from udapi.block.read.conllu import Conllu
        sim, dsk = self.sim, self.dsk
        text = self.plan['docs'][step['doc'] % len(self.docs)]['text']
        data = self.harmed(text, step['harm'], step['at'])
        kind = INPUTS[step['what'] % len(INPUTS)]
        sim.log('load', kind, step['harm'])
        self.label = ['load', kind, step['harm']]
        name = {'gz': 'x.conllu.gz', 'xz': 'x.conllu.xz', 'bz2': 'x.conllu.bz2', 'txt': 'x.txt'}.get(kind, 'x.conllu')
        packed = {'gz': gzip.compress, 'xz': lzma.compress, 'bz2': bz2.compress}.get(kind, bytes)(data)
        if kind in ('gz', 'xz', 'bz2') and step['harm'] == 'cut':
            packed = packed[:int(step['at'] * len(packed))]
        dsk.put(name, packed)
        if kind == 'stdin':
            sim.probe('stdin')
            return lambda: Conllu(files='-').apply_on_document(Document())
        if kind == 'handle':
            h = io.TextIOWrapper(io.BytesIO(data), encoding='utf-8')
            return lambda: Conllu(filehandle=h).apply_on_document(Document())
        if kind == 'string':
            return lambda: Document().from_conllu_string(data.decode('utf-8', 'replace'))
        if kind == 'document':
            return lambda: Document(name)
        if kind == 'txt':
            return lambda: Document(name)
        if kind == 'nofile':
            return lambda: Document('x.unknown')
        if kind == 'text':
            m = ['read.sentences.Sentences', 'read.text.Text', 'read.vislcg.Vislcg', 'read.conll.Conll', 'read.ccv.Ccv', 'read.conll2012.Conll2012'][step['what'] % 6]
            cls = getattr(importlib.import_module('udapi.block.' + m.rsplit('.', 1)[0]), m.rsplit('.', 1)[1])
            return lambda: cls(files=name).apply_on_document(Document())
        if kind == 'reader-twice':
            reader = self.kept.setdefault('reader', None) if step['reuse'] else None
            if reader is None or reader.finished:
                reader = self.kept['reader'] = Conllu(files=[name, 'in0.conllu', 'in0.conllu'], split_docs=step['what'] % 2, bundles_per_doc=step['what'] // 2 % 2)
            else:
                sim.probe('reused')
            return lambda: reader.apply_on_document(Document())
        if kind == 'missing':
            return lambda: Document().load_conllu('missing/file.conllu')
        if kind == 'lazy':
            return lambda: Conllu(files=name, bundles_per_doc=1, sent_id_filter='s').apply_on_document(Document())
        if kind == 'old':
            cls = importlib.import_module('udapi.block.read.oldcorefud').OldCorefUD
            return lambda: cls(files=name).apply_on_document(Document())
        return lambda: Document().load_conllu(name)

    def store(self, step):
        from udapi.core.run import create_block
        doc = self.docs[step['doc'] % len(self.docs)]
        name, *args = WRITERS[step['what'] % len(WRITERS)].split()
        kw = dict(a.split('=', 1) for a in args)
        kw = {k: int(v) if v.isdigit() else v for k, v in kw.items()}
        out = step['out'] if name.split('.')[0] in ('write', 'eval') else '-'
        if out == 'list':
            kw['files'] = ['a.txt', 'b/c.txt', '-']
        elif out in ('docname', 'path', 'overwrite'):
            kw.update({'docname': {'docname_as_file': 1}, 'path': {'path': 'other/*.txt'}, 'overwrite': {'overwrite': 1}}[out])
        elif out == 'handle':
            h = io.StringIO()
            self.handles.append(h)
            kw['filehandle'] = h
        elif out != '-':
            kw['files'] = out
        self.label = ['store', name, out]
        self.sim.log('store', name, out)
        key = json.dumps([name, args, out])

        def action():
            block = self.kept.get(key) if step['reuse'] else None
            if block is None:
                block = self.kept[key] = create_block(name, **kw)
            else:
                self.sim.probe('reused')
            if step['what'] % 3:
                block.apply_on_document(doc)
            else:
                block.run(doc)
        return action

    def print(self, step):
        doc = self.docs[step['doc'] % len(self.docs)]
        kind = PRINTS[step['what'] % len(PRINTS)]
        self.label = ['print', kind]
        self.sim.log('print', kind)
        tree = doc.bundles[0].trees[0]
        node = tree.descendants[step['what'] % len(tree.descendants)]
        return {'draw': lambda: node.draw(), 'draw-file': lambda: node.draw(files='drawn.txt'), 'str': lambda: str(doc), 'conllu': doc.to_conllu_string,
                'print_subtree': lambda: tree.print_subtree(color=True) if hasattr(tree, 'print_subtree') else tree.draw(color=True), 'doc-draw': lambda: doc.draw(),
                'root-draw': lambda: tree.draw(color='auto', print_sent_id=True), 'draw-bad': lambda: node.draw(attributes='form,nonsense', no_such_option=1)}[kind]

    def scenario(self, step):
        from udapi.core.run import Run
        words = ['read.Conllu', 'files=in0.conllu,in%d.conllu' % (step['doc'] % len(self.docs))]
        for b in step['blocks']:
            words += BLOCKS[b % len(BLOCKS)].split(' ') if b % 3 else WRITERS[b % len(WRITERS)].split(' ')
        if step['what'] % 2:
            words += WRITERS[step['what'] // 2 % len(WRITERS)].split(' ')
            if step['out'] in ('out.txt', 'deep/out.txt', 'path', 'list') and words[-1].startswith('write.'):
                words += [{'path': 'path=scen', 'list': 'files=s1.txt,s2/t.txt'}.get(step['out'], 'files=' + step['out'])]
        self.label = ['scenario', [w for w in words if w[0].islower() and '=' not in w]]
        self.sim.log('scenario', words)
        return lambda: Run(argparse.Namespace(scenario=words)).execute()

    def importing(self, step):
        names = ['udapi.block.write.corefhtml', 'udapi.block.ud.complywithtext', 'udapi.block.eval.conll17', 'udapi.block.util.see', 'udapi.tool.udpipeonline',
                 'udapi.block.read.text', 'udapi.tool.morphodita', 'udapi.block.ud.de.fixgsd', 'udapi.block.tokenize.simple', 'udapi.core.resource', 'udapi.block.zellig_harris.queries']
        name = names[step['what'] % len(names)]
        self.label = ['import', name]
        self.sim.probe('imported')
        return lambda: importlib.import_module(name)

    def collect(self, step):
        self.label = ['collect']
        self.sim.probe('collected')

        def action():
            self.kept.clear()
            gc.collect()
        return action

    # --- one operation between two looks at the process ---------------------------------------------------------------
    def run(self, step):
        sim, dsk = self.sim, self.dsk
        action = {'load': self.load, 'store': self.store, 'print': self.print, 'scenario': self.scenario, 'import': self.importing, 'collect': self.collect}[step['op']](step)
        ctx = step['ctx']
        stack = contextlib.ExitStack()
        target = self.stdout
        if ctx == 'redirect':
            target = io.StringIO()
            sim.probe('redirected')
            stack.enter_context(contextlib.redirect_stdout(target))
        elif ctx == 'gc':
            (gc.disable if gc.isenabled() else gc.enable)()
        elif ctx == 'cwd':
            os.makedirs('elsewhere', exist_ok=True)
            os.chdir('elsewhere')
        elif ctx == 'env':
            os.environ['FORCE_COLOR'] = 'x' if step['what'] % 2 else '0'
            sim.probe('force-color')
        elif ctx == 'limit':
            sys.setrecursionlimit(3000 + step['what'])
            sim.probe('recursion-limit')
        elif ctx == 'random':
            random.seed(step['what'])
        elif ctx == 'swap':
            # The program replaces its standard output for good.
            self.stdout = target = io.TextIOWrapper(io.BufferedWriter(disk.StreamOut(sim, [])), encoding='utf-8')
            self.raw = target.buffer.raw
            self.markers = []
            self.swapped = (self.swapped or []) + [sys.stdout]
            sys.stdout = target
        if not gc.isenabled():
            sim.probe('gc-off')
        fault, inter, stdin_fail = step['fault'], contextlib.nullcontext(), None
        dsk.faults, dsk.space, dsk.delivered = [], None, []
        if fault:
            k = fault['kind']
            if k == 'call':
                inter = Interrupt(sim, fault['nth'], fault['exc'])
            elif k == 'space':
                dsk.space = fault['at']
                dsk.faults = [{'kind': 'space'}]
            elif k == 'stdin':
                self.stdin_raw.fail_at = fault['at']
            else:
                dsk.faults = [{'kind': k, 'path': '*', 'at': fault['at'], 'errno': fault['errno'], 'nth': 1}]
        before = state()
        error = None
        try:
            with inter:
                action()
        except (core.Hang, core.StepBudget, core.Violation):
            raise
        except BaseException as e:          # pylint: disable=broad-except
            error = f'{type(e).__name__}: {str(e)[:100]}'
            del e
        after = state()
        dsk.faults, dsk.space = [], None
        self.stdin_raw.fail_at = None
        op = {'load': 'load', 'store': 'store', 'print': 'print', 'scenario': 'scenario'}.get(step['op'])
        if op:
            sim.probe(op + ('-failed' if error else '-ok'))
        sim.log('outcome', error.split(':')[0] if error else None, os.environ.get('DST_SHOW') and error)
        context = lambda: f'{self.label} (fault {fault}, {getattr(inter, "where", None)}; context {ctx}; outcome {error})'
        for key, value in before.items():
            sim.check(after[key] is value or (after[key] == value and key not in ('stdout', 'stdin', 'stderr', 'open')), key, lambda: f'{context()}: {key} was {brief(value)} and is {brief(after[key])}')
        sim.state([self.label, fault and (fault['kind'], getattr(inter, 'where', fault['at'] // 200)), error and error.split(':')[0], ctx, gc.isenabled()])
        # Output printed afterwards must reach the program's own output.
        marker = f'<<marker {len(self.markers)}>>'
        try:
            print(marker)
            sys.stdout.flush()
            ok = True
        except OSError:
            ok = False
            sim.probe('stdout-failed')
        if target is self.stdout:
            if ok:
                self.markers.append(marker)
                got = bytes(self.raw.got).decode('utf-8', 'replace')
                pos = 0
                for m in self.markers:
                    k = got.find(m, pos)
                    sim.check(k >= 0 or self.raw.failed, 'printed', lambda: f'{context()}: {m} printed afterwards has not arrived')
                    pos = max(pos, k)
            else:
                sim.check(self.raw.failed, 'printed', lambda: f'{context()}: printing afterwards fails')
        else:
            sim.check(ok and marker in target.getvalue(), 'printed', lambda: f'{context()}: {marker} printed afterwards has not arrived in the redirected output')
        stack.close()
        if ctx == 'cwd':
            os.chdir(dsk.root)


def brief(x):
    if isinstance(x, dict):
        return {k: x[k] for k in sorted(x) if 'COLOR' in k or len(x) < 5}
    return repr(x)[:120]


def execute(plan, sim):
    plan = json.loads(json.dumps(plan))
    with disk.Disk(sim, (), (), plan['wchunks']) as dsk:
        world = World(plan, sim, dsk)
        if plan['force'] is not None:
            os.environ['FORCE_COLOR'] = plan['force']
        else:
            os.environ.pop('FORCE_COLOR', None)
        if plan['tty']:
            sim.probe('tty')
        (gc.enable if plan['gc'] else gc.disable)()
        try:
            with disk.Stdio(stdin=world.stdin, stdout=world.stdout):
                for step in plan['steps']:
                    world.run(step)
        finally:
            gc.enable()
