"""P12: the command line reports failure by exit status and success by full output."""
import argparse
import atexit
import builtins
import contextlib
import gc
import io
import json
import logging
import os
import runpy
import signal
import sys

from dst import core, disk, gen as g
from dst.props.p10 import Interrupt, WRITERS

RUNS = {'quick': 3000, 'thorough': 150000}
LISTS = ('blocks', 'options', 'files')
STATE_RULE = 'one state = (options, blocks of the scenario, kind of input, fault and the class of its position, how the reference run ended, exit status), counted once over all runs'
TIME_UNIT = 'disk and stream operations (the system has no clock)'
COMPONENTS = {'real': ['bin/udapy (run as __main__)', 'argparse', 'logging', 'udapi.core.run', 'readers, writers and other blocks'],
              'stub': ['standard streams, files (dst/disk.py)', 'the end of the interpreter: sys.excepthook, flushing, atexit hooks and os._exit in the order of CPython 3.12']}
ASSUMPTIONS = ['the interpreter ends as CPython 3.12 does: standard streams are flushed (ignoring errors) after the main module, then an unhandled exception is reported, then the atexit '
               'hooks run, then the standard streams are flushed once more (a failure gives status 120)',
               'what the same scenario does in-process without faults is the reference', 'a block that leaves its own files open is not part of the claim']
PROBES = ('ok', 'failed', 'broken-pipe', 'stdout-error', 'file-error', 'read-error', 'interrupt', 'system-exit', 'bad-scenario', 'gc-option', 'save-option', 'extra-option', 'tree-option',
          'html-option', 'default-reader', 'usage', 'pending-output', 'files-output', 'quiet', 'verbose', 'bad-input', 'stdin-error')
OPTIONS = ['-q', '-v', '-s', '-s', '-T', '-H', '-A', '-C', '-M', '-N', '--gc', '--gc', '-X', '-X']
BLOCKS = ['util.Wc', 'util.Wc', 'util.Normalize', 'util.Mark node=node.upos=="X" print_stats=1', 'util.See node=node.form', 'corefud.Stats', 'ud.MarkBugs', 'transform.Proj', 'util.SplitSentence',
          'util.Eval end=print("done")', 'util.Eval start=print("go")', 'util.Eval node=print($.form)', 'util.Eval node=print($.form)', 'util.Eval tree=print($.text*50)', 'util.Eval node=1/0', 'util.Eval end=1/0',
          'util.Eval end=print("x")or(1/0)', 'util.Eval doc=raise(SystemExit(0))', 'util.Eval end=raise(SystemExit(3))', 'util.Eval doc=raise(SystemExit("stop"))', 'util.Eval end=raise(SystemExit())',
          'util.Eval doc=raise(KeyboardInterrupt())', 'util.Eval end=raise(MemoryError())', 'util.Eval node=undefined', 'util.Eval start=1/0', 'no.Such', 'util.Wc nonsense=1',
          'util.Eval end=print("z"*20000)', 'util.Filter keep_subtree=node.upos=="NOUN"', 'corefud.PrintMentions', 'corefud.PrintEntities', 'util.Eval doc=raise(BrokenPipeError())',
          'util.Eval doc=raise(ConnectionResetError())', 'util.Eval node=raise(TimeoutError())', 'util.Eval end=raise(ConnectionRefusedError())',
          'util.Eval end=sys.exit(2)', 'util.Eval end=print("q")or(sys.exit(256))', 'util.Eval end=print("q",file=sys.stderr)', 'write.Sentences', 'write.Conllu files=w.conllu',
          'write.Conllu files=deep/w.conllu', 'write.Sentences path=p', 'write.TextModeTrees files=w.txt', 'write.Conllu docname_as_file=1', 'write.Conllu overwrite=1', 'eval.Parsing gold_zone=en']
SPECIAL = [['--help'], ['-h'], ['--nonsense'], ['-X'], []]


def gen(rng):
    files = []
    for i in range(rng.choice([1, 1, 2])):
        text = g.document(rng, rng.choice([0, 1, 1, 2, 3, 12]), sizes=(1, rng.choice([4, 10])), rare=0.05)
        files.append(text)
    options = [rng.choice(OPTIONS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.03:
        options = rng.choice(SPECIAL)
    blocks = [rng.choice(BLOCKS) if rng.random() < 0.75 else rng.choice(WRITERS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.65:
        # A scenario that can succeed.
        if len(options) and options not in SPECIAL:
            last = rng.choice(['-s', '-T', '-H', None])
            options = [o for o in options if o in ('-q', '-v', '--gc')] + [last] * (last is not None)
            options += rng.sample(['-A', '-C', '-M', '-N'], rng.choice([0, 1, 2])) * (last in ('-T', '-H'))
            rng.shuffle(options)
        blocks = [b for b in blocks if '1/0' not in b and 'raise' not in b and 'exit' not in b and b not in ('no.Such', 'util.Wc nonsense=1', 'util.Eval node=undefined')]
    fault = None
    if rng.random() < 0.55:
        size = rng.choice([40, 200, 800, 3000, 20000])
        fault = {'kind': rng.choice(['stdout', 'stdout', 'stdout', 'stdout', 'open', 'write', 'write', 'close', 'read', 'space', 'mkdir', 'stdin', 'call', 'call']), 'at': int(rng.random() * size) if rng.random() < 0.85 else 0,
                 'errno': rng.choice(['EPIPE', 'EPIPE', 'ENOSPC', 'EIO']), 'nth': int(rng.random() ** 3 * rng.choice([20, 300, 3000])) + 1, 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'RuntimeError'])}
        if fault['kind'] not in ('stdout',) and fault['errno'] == 'EPIPE':
            fault['errno'] = 'EACCES'
    return {'files': files, 'reader': rng.choice(['default', 'default', 'stdin', 'files', 'files', 'files', 'sentences', 'missing']), 'options': options, 'blocks': blocks, 'fault': fault,
            'extra': rng.choice(['write.Conllu', 'write.Sentences', 'util.Wc', 'attributes=form', 'util.Wc tsv=1']), 'extra2': rng.choice(['util.Wc', 'print_sent_id=0', 'zones=en', 'write.Sentences', 'util.Eval end=print(5)']), 'wchunks': rng.choice([[], [], [1], [100, 7], [4096]]),
            'rchunks': rng.choice([[], [1], [64]]), 'harm': rng.choice([None] * 15 + ['head', 'utf8', 'cut']), 'bundles_per_doc': rng.choice([0, 0, 1])}


def simplify(plan):
    cp = lambda: json.loads(json.dumps(plan))
    for key, val in (('wchunks', []), ('rchunks', []), ('harm', None), ('fault', None), ('bundles_per_doc', 0), ('reader', 'files')):
        if plan[key] != val:
            p = cp()
            p[key] = val
            yield p
    for i, f in enumerate(plan['files']):
        parts = f.split('\n\n')[:-1]
        if len(parts) > 1:
            for j in range(len(parts)):
                p = cp()
                p['files'][i] = ''.join(x + '\n\n' for k, x in enumerate(parts) if k != j)
                yield p


class Exited(BaseException):
    """os._exit was called: nothing that is still in a buffer gets out."""

    def __init__(self, code):
        super().__init__(code)
        self.code = code


class Process:
    """One simulated process that runs bin/udapy."""

    def __init__(self, sim, argv, stdin, stdout, stderr):
        self.sim, self.argv, self.stdin, self.stdout, self.stderr = sim, argv, stdin, stdout, stderr
        self.hooks = []
        self.stop = lambda: None        # called when the main module has ended

    def exit(self, code):
        raise Exited(code)

    def flush(self):
        for s in (sys.stderr, sys.stdout):
            with contextlib.suppress(Exception):
                s.flush()

    def run(self):
        """Returns the exit status as the shell sees it."""
        old = {'_exit': os._exit, 'dup2': os.dup2, 'register': atexit.register, 'unregister': atexit.unregister, 'signal': signal.signal, 'argv': sys.argv, 'hook': sys.excepthook,
               'in': sys.stdin, 'out': sys.stdout, 'err': sys.stderr, 'in_': sys.__stdin__, 'out_': sys.__stdout__, 'err_': sys.__stderr__, 'gc': gc.isenabled()}
        root = logging.getLogger()
        handlers = root.handlers[:]
        root.handlers[:] = []
        logging.disable(logging.NOTSET)
        raw = self.stdout.buffer.raw
        raw.fd = 90001
        sigpipe = [signal.SIG_IGN]

        def dup2(fd, fd2, inheritable=True):
            if fd2 == raw.fd:
                raw.null = True
                return fd2
            raise AssertionError('os.dup2 of another file')

        def set_signal(num, handler):
            if num == signal.SIGPIPE:
                before, sigpipe[0] = sigpipe[0], handler
                return before
            return signal.getsignal(num)

        def on_pipe():
            if sigpipe[0] == signal.SIG_DFL:
                raise Exited(141)
        raw.on_pipe = on_pipe
        sys.argv = ['udapy'] + self.argv
        sys.excepthook = sys.__excepthook__
        sys.stdin, sys.stdout, sys.stderr = self.stdin, self.stdout, self.stderr
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = self.stdin, self.stdout, self.stderr
        os._exit, os.dup2, signal.signal = self.exit, dup2, set_signal
        atexit.register = lambda f, *a, **k: self.hooks.append((f, a, k)) or f
        atexit.unregister = lambda f: self.hooks.__setitem__(slice(None), [h for h in self.hooks if h[0] is not f])
        try:
            return self.main() & 0xff
        except Exited as e:
            return e.code & 0xff
        finally:
            os._exit, os.dup2, signal.signal = old['_exit'], old['dup2'], old['signal']
            atexit.register, atexit.unregister = old['register'], old['unregister']
            sys.argv, sys.excepthook = old['argv'], old['hook']
            sys.stdin, sys.stdout, sys.stderr = old['in'], old['out'], old['err']
            sys.__stdin__, sys.__stdout__, sys.__stderr__ = old['in_'], old['out_'], old['err_']
            (gc.enable if old['gc'] else gc.disable)()
            root.handlers[:] = handlers
            logging.disable(logging.CRITICAL)
            self.got = bytes(raw.got)           # what has left the process
            raw.null = True

    def main(self):
        code = 0
        try:
            try:
                runpy.run_path(os.path.join(core.REPO, 'bin', 'udapy'), run_name='__main__')
            finally:
                self.stop()
                if not isinstance(sys.exc_info()[1], Exited):
                    self.flush()
        except (Exited, core.Hang, core.StepBudget, core.Violation):
            raise
        except SystemExit as e:
            if isinstance(e.code, int):
                code = e.code
            elif e.code is not None:
                print(e.code, file=sys.stderr)
                code = 1
            self.flush()
        except BaseException as e:      # pylint: disable=broad-except
            code = 130 if isinstance(e, KeyboardInterrupt) else 1
            try:
                sys.excepthook(type(e), e, e.__traceback__)
            except Exited:
                raise
            except Exception:           # pylint: disable=broad-except
                sys.__excepthook__(type(e), e, e.__traceback__)
        while self.hooks:
            f, a, k = self.hooks.pop()
            try:
                f(*a, **k)
            except Exited:
                raise
            except Exception as e:      # pylint: disable=broad-except
                print('Exception ignored in atexit callback', e, file=sys.stderr)
        if sys.stdout is not None and not sys.stdout.closed:
            try:
                sys.stdout.flush()
            except Exception as e:      # pylint: disable=broad-except
                print(f'Exception ignored in: {sys.stdout!r}\n{type(e).__name__}: {e}', file=sys.stderr)
                code = 120
        with contextlib.suppress(Exception):
            sys.stderr.flush()
        return code


def expand(plan):
    """Command-line arguments and the scenario they stand for (the documented meaning of the options)."""
    options, argv = plan['options'], []
    words, n_extra = [], 0
    for b in plan['blocks']:
        words += b.split(' ')
    reader = {'default': [], 'stdin': ['read.Conllu', 'files=-'], 'files': ['read.Conllu', 'files=' + ','.join(f'in{i}.conllu' for i in range(len(plan['files'])))],
              'sentences': ['read.Sentences'], 'missing': ['read.Conllu', 'files=in0.conllu,missing.conllu']}[plan['reader']]
    if reader and reader[0] == 'read.Conllu' and plan['bundles_per_doc']:
        reader.append(f"bundles_per_doc={plan['bundles_per_doc']}")
    scenario = reader + words
    tail = list(scenario)
    for o in options:
        argv.append(o)
        if o == '-X':
            argv.append(plan['extra'] if not n_extra else plan.get('extra2', plan['extra']))
            n_extra += 1
    argv += scenario
    if '-s' in options:
        tail += ['write.Conllu']
    if '-T' in options:
        tail += ['write.TextModeTrees', 'color=1']
    if '-H' in options:
        tail += ['write.TextModeTreesHtml', 'color=1']
    if '-A' in options:
        tail += ['attributes=form,lemma,upos,xpos,feats,deprel,misc']
    if '-C' in options:
        tail += ['print_comments=1']
    if '-M' in options:
        tail += ['marked_only=1']
    if '-N' in options:
        tail += ['color=0']
    tail += ([plan['extra']] + [plan.get('extra2', plan['extra'])] * len(options))[:options.count('-X')]
    return argv, tail


def inputs(plan, dsk):
    for name in list(dsk.files()):
        os.remove(os.path.join(dsk.root, name))
    for top, names, _ in list(os.walk(dsk.root, topdown=False)):
        for name in names:
            os.rmdir(os.path.join(top, name))
    datas = []
    for i, text in enumerate(plan['files']):
        data = text.encode()
        if plan['harm'] and i == len(plan['files']) - 1 and data:
            if plan['harm'] == 'head':
                data = data.replace(b'\t0\troot', b'\t99\troot')
            elif plan['harm'] == 'utf8':
                data = data[:len(data) // 2] + b'\xff\xff' + data[len(data) // 2:]
            else:
                data = data[:len(data) // 2]
        dsk.put(f'in{i}.conllu', data)
        datas.append(data)
    return datas


def streams(plan, sim, data):
    stdin_raw = disk.StreamIn(sim, data, plan['rchunks'])
    return stdin_raw, disk.text_in(stdin_raw)


def execute(plan, sim):
    from udapi.core.run import Run
    plan = json.loads(json.dumps(plan))
    argv, scenario = expand(plan)
    special = plan['options'] in [s for s in SPECIAL if s]
    fault = plan['fault']
    builtins.sys = sys          # (util.Eval code calls sys.exit)
    with disk.Disk(sim, (), (), plan['wchunks']) as dsk:
        # The reference: the same scenario in-process and without faults.
        datas = inputs(plan, dsk)
        _, stdin = streams(plan, sim, datas[0] if datas else b'')
        ref_out, ref_err, ref_error = io.StringIO(), io.StringIO(), None
        if not special:
            old = sys.stdin, sys.stderr
            sys.stdin, sys.stderr = stdin, ref_err
            try:
                with contextlib.redirect_stdout(ref_out):
                    Run(argparse.Namespace(scenario=scenario)).execute()
            except (core.Hang, core.StepBudget):
                raise
            except BaseException as e:       # pylint: disable=broad-except
                ref_error = e
            finally:
                sys.stdin, sys.stderr = old
        ref_files = dsk.files()
        ref_text = ref_out.getvalue().encode('utf-8', 'surrogatepass')
        sim.log('reference', type(ref_error).__name__, len(ref_text))
        # The simulated process.
        datas = inputs(plan, dsk)
        stdin_raw, stdin = streams(plan, sim, datas[0] if datas else b'')
        raw = disk.StreamOut(sim, plan['wchunks'])
        err_raw = disk.StreamOut(sim, [])
        inter = contextlib.nullcontext()
        dsk.faults, dsk.space, dsk.delivered, dsk.opens = [], None, [], {}
        if fault:
            k = fault['kind']
            if k == 'stdout':
                raw.fail_at, raw.errno = fault['at'], fault['errno']
            elif k == 'stdin':
                stdin_raw.fail_at = fault['at'] % 3000
            elif k == 'call':
                inter = Interrupt(sim, fault['nth'], fault['exc'])
            elif k == 'space':
                dsk.space = fault['at'] % 3000
                dsk.faults = [{'kind': 'space'}]
            else:
                dsk.faults = [{'kind': k, 'path': '*', 'at': fault['at'] % 3000, 'errno': fault['errno'], 'nth': 1}]
        proc = Process(sim, argv, stdin, disk.text_out(raw), disk.text_out(err_raw))
        if isinstance(inter, Interrupt):
            proc.stop = lambda: setattr(inter, 'over', True)
        with inter:
            status = proc.run()
        dsk.faults, dsk.space = [], None
        err = bytes(err_raw.got).decode('utf-8', 'replace')
        judge(plan, sim, argv, status, proc.got, err, dsk, ref_text, ref_files, ref_error, raw, stdin_raw, getattr(inter, 'done', False), special, scenario)


def judge(plan, sim, argv, status, got, err, dsk, ref_text, ref_files, ref_error, raw, stdin_raw, interrupted, special, scenario):
    fault, options = plan['fault'], plan['options']
    sim.log('exit', status, len(got))
    for o, p in (('--gc', 'gc-option'), ('-s', 'save-option'), ('-X', 'extra-option'), ('-T', 'tree-option'), ('-H', 'html-option'), ('-q', 'quiet'), ('-v', 'verbose')):
        if o in options:
            sim.probe(p)
    if plan['reader'] in ('default', 'sentences'):
        sim.probe('default-reader')
    if plan['harm']:
        sim.probe('bad-input')
    context = lambda: f'udapy {" ".join(argv)} (fault {fault}): status {status}, {len(got)} of {len(ref_text)} bytes of output, reference run {ref_error!r}, stderr ends {err[-200:]!r}'
    sim.state([sorted(set(options)), plan['blocks'], plan['reader'], fault and [fault['kind'], fault['at'] // 500, fault['errno']], type(ref_error).__name__, status])
    if special:
        sim.probe('usage')
        if options in (['--help'], ['-h']):
            sim.check(status == 0 or raw.failed or interrupted, 'usage', context)
        elif options == ['--nonsense']:
            # (an unknown option is an error of argparse)
            sim.check(status != 0 and err, 'usage', context)
        return
    pipe = raw.failed and raw.errno == 'EPIPE'
    delivered = [f for f in dsk.delivered if f['kind'] != 'intr']
    failed = bool(delivered) or stdin_raw.failed or interrupted or (raw.failed and not pipe)
    for f in delivered:
        sim.probe('read-error' if f['kind'] == 'read' else 'file-error')
    if stdin_raw.failed:
        sim.probe('stdin-error')
    if raw.failed and not pipe:
        sim.probe('stdout-error')
    if isinstance(ref_error, SystemExit):
        sim.probe('system-exit')
    if isinstance(ref_error, (RuntimeError, ModuleNotFoundError, TypeError)):
        sim.probe('bad-scenario')
    ref_status = None
    if ref_error is None:
        ref_status = 0
    elif isinstance(ref_error, SystemExit):
        ref_status = ref_error.code & 0xff if isinstance(ref_error.code, int) else int(ref_error.code is not None)
    elif isinstance(ref_error, BrokenPipeError):
        pipe = True
    else:
        ref_status = 'error'
    if not failed and not (ref_error is not None and fault and fault['kind'] in ('read', 'stdin')):
        # Whatever got out is a beginning of what should get out (a planned read fault changes how much is read at once:
        # broken input may then be noticed later than in the reference).
        sim.check(ref_text.startswith(got), 'prefix', context)
    if pipe:
        sim.probe('broken-pipe')
        if not failed and ref_status in (0, None):
            for word in ('Traceback', 'BrokenPipeError:', 'Exception ignored'):
                sim.check(word not in err, 'quiet', context)
        if not failed and ref_status == 'error' and len(got) == len(ref_text):
            sim.check(status != 0, 'status', context)
        return
    if failed:
        sim.probe('failed')
        sim.check(status != 0, 'status', context)
        sim.check(err or isinstance(ref_error, SystemExit), 'message', context)
        return
    if ref_status == 'error':
        sim.probe('failed')
        sim.check(status != 0, 'status', context)
        sim.check(err if fault and fault['kind'] in ('read', 'stdin') else type(ref_error).__name__ in err, 'message', context)
    else:
        sim.check(status == ref_status, 'status', lambda: f'{context()}; expected status {ref_status}')
    if ref_status == 0:
        sim.probe('ok')
        sim.check(got == ref_text, 'output', context)
        now = dsk.files()
        sim.check(now == ref_files, 'files', lambda: f'{context()}: {sorted(k for k in set(now) | set(ref_files) if now.get(k) != ref_files.get(k))} differ from the reference')
        if set(now) - {f'in{i}.conllu' for i in range(9)}:
            sim.probe('files-output')
    if ref_text and not raw.failed:
        sim.probe('pending-output')
