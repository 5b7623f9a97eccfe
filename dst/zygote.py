"""A hash world: a process with its own string hash seed that executes block histories, every request in a fork of its own."""
import contextlib
import copy
import functools
import gc
import importlib
import io
import json
import logging
import os
import pickle
import pkgutil
import random
import re
import resource
import shutil
import signal
import socket
import subprocess
import sys
import tempfile

from dst import core

BUILT = []
JUMPS = 6_000_000       # executed jumps and calls of one request


class Budget(BaseException):
    pass


# ---------------------------------------------------------------- the side of the world

def seed_identities(seed):
    """Objects of the library hash by identity, i.e. by address: replace the address by a seeded number."""
    import udapi.core.node, udapi.core.root, udapi.core.bundle, udapi.core.coref, udapi.core.mwt, udapi.core.document
    table = {}

    def identity(self):
        entry = table.get(id(self))
        if entry is None:
            n = len(table) + 1
            entry = table[id(self)] = ((n * 0x9E3779B97F4A7C15 ^ seed * 0xC2B2AE3D27D4EB4F) * 0xD6E8FEB86659FD93 >> 17 & 0xffffffff, self)
        return entry[0]
    for module in (udapi.core.node, udapi.core.root, udapi.core.bundle, udapi.core.coref, udapi.core.mwt, udapi.core.document):
        for cls in list(vars(module).values()):
            if isinstance(cls, type) and cls.__module__ == module.__name__ and cls.__hash__ is object.__hash__:
                cls.__hash__ = identity


def load(text, form):
    from udapi.core.document import Document
    doc = Document()
    doc.from_conllu_string(text)
    if form == 'decoded':
        for b in doc:
            for t in b.trees:
                str(t.compute_text())
                for n in t.descendants_and_empty:
                    dict(n.feats), dict(n.misc), n.deps, n.ord, n.children, n.multiword_token, len(n.feats), str(n.misc)
    elif form.startswith('stored'):
        for _ in range(2 if form == 'stored-twice' else 1):
            text = doc.to_conllu_string()
            doc = Document()
            doc.from_conllu_string(text)
    elif form == 'deepcopied':
        doc = copy.deepcopy(doc)
    elif form == 'pickled':
        doc = pickle.loads(pickle.dumps(doc))
    elif form == 'file':
        with open('doc.conllu', 'w', encoding='utf-8') as f:
            f.write(text)
        doc = Document('doc.conllu')
    elif form == 'built':
        loaded = doc
        doc = built(doc)
        BUILT.append(doc is not loaded)
    doc.meta.pop('loaded_from', None)
    return doc


def built(doc):
    """The same document built by calls instead of loading (or the loaded one where the calls cannot express it)."""
    from udapi.core.document import Document
    from udapi.core.node import Node
    new = Document()
    new.meta.update(doc.meta)
    for bundle in doc:
        b = new.create_bundle()
        b.bundle_id = bundle.bundle_id
        for tree in bundle.trees:
            t = b.create_tree(zone=tree.zone)
            t.newdoc, t.newpar, t.text, t.comment = tree.newdoc, tree.newpar, tree.text, tree.comment
            nodes = [t.create_child() for _ in tree.descendants]
            twin = dict(zip([tree] + tree.descendants, [t] + nodes))
            for e in tree.empty_nodes:
                at = int(e.ord)
                other = twin[tree.descendants[at - 1]] if at else nodes[0] if nodes else None
                if other is None:
                    return doc
                twin[e] = Node.create_empty_child(other, 'dep', after=bool(at))
            for old in reversed(tree.descendants):      # heads from the right to the left
                twin[old].parent = t
            for old in tree.descendants:
                if old.parent is not tree:
                    twin[old].parent = twin[old.parent]
            for old, n in twin.items():
                if old is tree:
                    continue
                n.form, n.lemma, n.upos, n.xpos, n.deprel = old.form, old.lemma, old.upos, old.xpos, old.deprel
                n.feats = dict(old.feats)
                for key, value in old.misc.items():
                    n.misc[key] = value
                n.deps = [dict(d, parent=twin[d['parent']]) for d in old.deps]
            for m in tree.multiword_tokens:
                t.create_multiword_token(words=[twin[w] for w in m.words], form=m.form, misc=dict(m.misc))
                for w in m.words:       # (creating a token clears SpaceAfter of its words)
                    twin[w].misc.update(w.misc)
    return new if new.to_conllu_string() == doc.to_conllu_string() else doc


class Collect(logging.Handler):
    def __init__(self, messages):
        super().__init__(logging.INFO)
        self.messages = messages

    def emit(self, record):
        try:
            text = record.getMessage()
        except Exception as e:      # pylint: disable=broad-except
            text = type(e).__name__
        if len(self.messages) < 500:
            self.messages.append(record.levelname + ' ' + re.sub('0x[0-9a-f]+', '0x', text))


@contextlib.contextmanager
def logged(messages):
    """Collect the messages logged meanwhile (those logged within an inner one belong to that one)."""
    root = logging.getLogger()
    handlers, level = root.handlers, root.level
    root.handlers = [Collect(messages)]
    root.setLevel(logging.INFO)
    disabled = root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        yield
    finally:
        root.handlers = handlers
        root.setLevel(level)
        logging.disable(disabled)


class World:
    def __init__(self, request):
        self.req = request
        self.results = [[] for _ in request['clients']]
        self.docs = {}
        self.next = [0] * len(request['clients'])
        self.depth = 0

    def go(self):
        for who in self.req['schedule']:
            if self.next[who] < len(self.req['clients'][who]['ops']):
                self.step(who)

    def step(self, who):
        """The next operation of a client; another client's operations may come in between its bundles."""
        client = self.req['clients'][who]
        op = client['ops'][self.next[who]]
        self.next[who] += 1
        saved = random.getstate()
        random.seed(7)
        out, exc, messages = io.StringIO(), None, []
        self.depth += 1
        self.busy = getattr(self, 'busy', []) + [who]
        try:
            with contextlib.redirect_stdout(out):
                try:
                    if who not in self.docs:
                        with logged([]):
                            self.docs[who] = load(self.req['texts'][client['doc']], client['form'])
                    with logged(messages):
                        self.apply(op, self.docs[who])
                except Exception as e:      # pylint: disable=broad-except
                    exc = type(e).__name__
                except SystemExit:
                    exc = 'SystemExit'
        finally:
            self.busy = self.busy[:-1]
            self.depth -= 1
            random.setstate(saved)
        with logged([]):
            dump = self.dump(self.docs.get(who))
        self.results[who].append([exc, out.getvalue(), dump, messages])

    def apply(self, op, doc):
        block = blocks()[op['block']](**op['params'])
        if op.get('nest') and self.depth == 1:
            original, count = block.process_bundle, [0]

            def process_bundle(bundle):
                count[0] += 1
                if count[0] == op['nest'][0]:
                    for who in op['nest'][1]:
                        if who < len(self.next) and who not in self.busy and self.next[who] < len(self.req['clients'][who]['ops']):
                            with contextlib.redirect_stdout(io.StringIO()):
                                self.nested = True
                                self.step(who)
                return original(bundle)
            block.process_bundle = process_bundle
        block.process_start()
        block.apply_on_document(doc)
        block.process_end()

    def dump(self, doc):
        if doc is None:
            return None
        out = []
        try:
            out.append(doc.to_conllu_string())
        except Exception as e:      # pylint: disable=broad-except
            out.append(type(e).__name__)
        try:
            out.append('|'.join(f'{e.eid}:{e.etype}:{",".join(str(m.span) for m in e.mentions)}:{",".join(s.eid for s in e.split_ante)}' for e in doc.coref_entities))
        except Exception as e:      # pylint: disable=broad-except
            out.append(type(e).__name__)
        return out


def answer(request):
    mon = sys.monitoring
    mon.use_tool_id(3, 'dst')
    left = [JUMPS]

    def on_event(*_):
        left[0] -= 1
        if left[0] < 0:
            left[0] = 1 << 60
            mon.set_events(3, 0)
            raise Budget()
    seed_identities(request['identity'])
    random.seed(7)
    if request['gc'] == 'off':
        gc.disable()
    elif request['gc'] == 'often':
        gc.set_threshold(60, 3, 3)
    tmp = tempfile.mkdtemp(prefix='dst-world-')
    os.chdir(tmp)
    for name, content in request.get('files', {}).items():
        with open(name, 'w', encoding='utf-8') as f:
            f.write(content)
    world = World(request)
    for event in (mon.events.JUMP, mon.events.PY_START):
        mon.register_callback(3, event, on_event)
    mon.set_events(3, mon.events.JUMP | mon.events.PY_START)
    try:
        world.go()
        return {'results': world.results, 'nested': getattr(world, 'nested', False), 'built': any(BUILT)}
    except Budget:
        return {'budget': True}
    finally:
        mon.set_events(3, 0)
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


@functools.lru_cache(None)
def blocks():
    """All blocks of the library (readers excluded): name -> class."""
    import udapi.block
    out = {}
    for m in sorted(pkgutil.walk_packages(udapi.block.__path__, 'udapi.block.'), key=lambda m: m.name):
        if m.ispkg or '.read.' in m.name or '.udpipe.' in m.name:
            continue
        try:
            module = importlib.import_module(m.name)
        except Exception:       # pylint: disable=broad-except
            continue
        last = m.name.rsplit('.', 1)[1]
        for name, obj in vars(module).items():
            if isinstance(obj, type) and name.lower() == last and obj.__module__ == m.name:
                out['.'.join(m.name.split('.')[2:-1]) + '.' + name] = obj
    return out


def serve(path):
    core.preload()
    import contextlib as _c
    with _c.redirect_stderr(io.StringIO()):
        blocks()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(16)
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    devnull = open(os.devnull, 'w', encoding='utf-8')
    srv.settimeout(1.0)
    parent = os.getppid()
    while True:
        try:
            conn, _ = srv.accept()
        except TimeoutError:
            if os.getppid() != parent:
                shutil.rmtree(os.path.dirname(path), ignore_errors=True)
                return
            continue
        if os.fork() == 0:
            try:
                srv.close()
                conn.settimeout(None)
                signal.alarm(120)
                resource.setrlimit(resource.RLIMIT_AS, (core.MEM_LIMIT, core.MEM_LIMIT))
                f = conn.makefile('rwb')
                request = json.loads(f.readline())
                sys.stdout = sys.stderr = devnull
                reply = answer(request)
                f.write(json.dumps(reply).encode('utf-8', 'surrogatepass') + b'\n')
                f.flush()
            finally:
                os._exit(0)
        conn.close()


# ---------------------------------------------------------------- the side of the run

WORLDS = {}


def start(seeds):
    """Start one world for each hash seed (once in a worker process)."""
    import atexit
    if WORLDS:
        return
    folder = tempfile.mkdtemp(prefix='dst-zygote-')
    procs = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        path = os.path.join(folder, f'w{s}')
        p = subprocess.Popen([sys.executable, '-m', 'dst.zygote', path], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        procs.append(p)
        WORLDS[s] = path
    for p in procs:
        assert p.stdout.readline() == b'ready\n'
    owner = os.getpid()

    def stop():
        if os.getpid() == owner:
            for p in procs:
                p.terminate()
            shutil.rmtree(folder, ignore_errors=True)
    atexit.register(stop)


def ask(seed, request):
    with socket.socket(socket.AF_UNIX) as conn:
        conn.connect(WORLDS[seed])
        f = conn.makefile('rwb')
        f.write(json.dumps(request).encode('utf-8', 'surrogatepass') + b'\n')
        f.flush()
        line = f.readline()
    return json.loads(line) if line else {'died': True}


if __name__ == '__main__':
    serve(sys.argv[1])
