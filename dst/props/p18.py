"""P18: a downloaded resource is complete or absent, whatever the network, the disk and other processes do."""
import errno as errno_mod
import http.client
import os
import random
import shutil
import tempfile
import time

from dst import disk as D, net as N
from dst.core import Violation

RUNS = {'quick': 6000, 'thorough': 150000}
LISTS = ('steps', 'existing')
STATE_RULE = 'one state = the order of network and disk operations of all processes of a step with its faults and outcomes, counted once over all runs'
TIME_UNIT = 'seconds of the simulated clock (one per step and per network read)'
COMPONENTS = {'real': ['udapi.core.resource', 'urllib.request and http.client of the standard library', 'buffering layers of files and sockets'],
              'stub': ['server and transport (in memory)', 'TLS layer', 'raw file layer (real files below a scratch directory, with faults)',
                       'scheduler of the processes (one at a time, switched at every network and disk operation)', 'clock, process ids, os.urandom']}
ASSUMPTIONS = ['a rename within one directory is atomic', 'the machine itself does not crash (data written by a process that dies later stay)',
               'the end of an answer that gives neither its length nor uses chunks cannot be recognised, nor the end of cut headers: these are only cut by errors',
               'what is left behind under names other than that of the resource is not judged']
PROBES = ('concurrent-download', 'retry-after-crash', 'retry-after-failure', 'reused', 'switch-during-download')
CONN = ['dns', 'refused', 'timeout', 'reset', 'unreachable']
NAMES = ['models/udpipe/cs.udpipe', 'models/morphodita/cs.tagger', 'a.bin', 'models/x/y/z.gz']


def prepare():
    import udapi.core.resource, uuid   # noqa  loaded once, before the runs are forked
    N.prepare()


def gen(rng):
    res = rng.sample(NAMES, rng.randint(1, 2))
    plan = {'data': rng.choice(['abs', 'abs', 'slash', 'rel', 'home', 'deep']), 'steps': [], 'existing': [],
            'resources': [{'path': p, 'size': rng.choice([1, 200, 3000, 8192, 20000, 50000]), 'seed': rng.randrange(1 << 16)} for p in res]}
    if rng.random() < 0.15:
        plan['existing'].append({'res': 0, 'size': rng.choice([0, 10, 9000]), 'seed': rng.randrange(1 << 16)})
    if rng.random() < 0.06:
        plan['existing'].append({'block': 'models', 'size': 5, 'seed': 1})
    level = rng.choice([0.0, 0.3, 0.7, 1.0])
    big = max(r['size'] for r in plan['resources']) > 3000
    for _ in range(rng.randint(1, 5)):
        step = {'calls': [], 'sched': [rng.randrange(60) for _ in range(rng.randint(1, 40))], 'update': rng.random() < 0.15,
                'chunks': [rng.choice([0, 0, 2000, 300, 4096] if big else [0, 0, 1, 7, 300]) for _ in range(rng.randint(1, 4))],
                'wchunks': [rng.choice([0, 0, 0, 1000, 4000] if big else [0, 0, 0, 100, 5]) for _ in range(rng.randint(1, 3))]}
        if rng.random() < 0.3:          # long turns
            step['sched'] = [x for s in step['sched'] for x in [s] * rng.randint(1, 9)]
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            step['calls'].append(call(rng, plan, level))
        plan['steps'].append(step)
    return plan


def call(rng, plan, level):
    c = {'res': rng.randrange(len(plan['resources'])), 'conn': [], 'answers': [], 'faults': [], 'local': None}
    if rng.random() < 0.05:
        c['local'] = rng.choice(['./here.bin', 'ABS/here.bin', './missing', 'ABS/missing', '../here.bin', '.'])
    mode = rng.choice(['length', 'length', 'chunked', 'close'])
    if rng.random() < 0.15:
        c['answers'].append({'status': rng.choice([301, 302]), 'mode': 'length'})
    c['answers'].append({'status': 200, 'mode': mode})
    n = lambda k: min(int(rng.expovariate(1 / k)) + 1, 200)
    if rng.random() < level:
        for _ in range(rng.choice([1, 1, 1, 2])):
            kind = rng.choice(['conn', 'status', 'eof', 'eof', 'reset', 'reset', 'timeout', 'garbage', 'crash', 'crash', 'crash', 'ctrlc', 'open', 'write',
                               'space', 'close', 'rename', 'mkdir', 'intr', 'remove'])
            last = c['answers'][-1]
            if kind == 'conn':
                c['conn'] = [None] * (len(c['answers']) - 1 if rng.random() < 0.5 else 0) + [rng.choice(CONN)]
            elif kind == 'status':
                last['status'] = rng.choice([403, 404, 500, 503])
            elif kind == 'garbage':
                last['status'] = 0
            elif kind in ('eof', 'reset', 'timeout'):
                last['fault'] = {'kind': kind, 'frac': rng.choice([0, 1, rng.random(), rng.random()])}
            elif kind in ('crash', 'ctrlc'):
                c['faults'].append({'kind': kind, 'nth': n(rng.choice([4, 12, 30])), 'torn': rng.choice([0, 0, 1, 500, 8000])})
            elif kind == 'open':
                c['faults'].append({'kind': 'open', 'errno': rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EROFS']), 'nth': 1})
            elif kind == 'write':
                c['faults'].append({'kind': 'write', 'errno': rng.choice(['EIO', 'EDQUOT']), 'at': rng.choice([0, 1, 4096, 8192, n(9000)])})
            elif kind == 'space':
                c['faults'].append({'kind': 'space', 'bytes': rng.choice([0, 1, 5000, 8192, 30000])})
            elif kind in ('close', 'rename', 'mkdir', 'remove'):
                c['faults'].append({'kind': kind, 'errno': rng.choice(['EIO', 'EACCES', 'ENOSPC'])})
            elif kind == 'intr':
                c['faults'].append({'kind': 'intr', 'nth': n(3)})
    return c


def simplify(plan):
    for i, step in enumerate(plan['steps']):
        def with_step(new, i=i):
            return {**plan, 'steps': plan['steps'][:i] + [new] + plan['steps'][i + 1:]}
        for j in range(len(step['calls'])):
            if len(step['calls']) > 1:
                yield with_step({**step, 'calls': step['calls'][:j] + step['calls'][j + 1:]})
        for key, least in (('sched', [0]), ('chunks', [0]), ('wchunks', [0]), ('update', False)):
            if step[key] != least:
                yield with_step({**step, key: least})
        if len(step['sched']) > 1:
            yield with_step({**step, 'sched': step['sched'][:len(step['sched']) // 2]})
            yield with_step({**step, 'sched': step['sched'][:-1]})
        for j, c in enumerate(step['calls']):
            def with_call(new, j=j, step=step, with_step=with_step):
                return with_step({**step, 'calls': step['calls'][:j] + [new] + step['calls'][j + 1:]})
            for k in range(len(c['faults'])):
                yield with_call({**c, 'faults': c['faults'][:k] + c['faults'][k + 1:]})
                if c['faults'][k].get('nth', 0) > 1:
                    yield with_call({**c, 'faults': c['faults'][:k] + [{**c['faults'][k], 'nth': c['faults'][k]['nth'] - 1}] + c['faults'][k + 1:]})
            if c['conn']:
                yield with_call({**c, 'conn': []})
            plain = [{'status': 200, 'mode': 'length'}]
            if c['answers'] != plain:
                yield with_call({**c, 'answers': plain})
                if len(c['answers']) > 1:
                    yield with_call({**c, 'answers': c['answers'][1:]})
    if plan['data'] != 'abs':
        yield {**plan, 'data': 'abs'}
    if len(plan['resources']) > 1:
        for keep in range(2):
            yield {**plan, 'resources': [plan['resources'][keep]],
                   'steps': [{**s, 'calls': [{**c, 'res': 0} for c in s['calls']]} for s in plan['steps']]}
    for i, r in enumerate(plan['resources']):
        for size in (1, 200):
            if r['size'] > size:
                yield {**plan, 'resources': plan['resources'][:i] + [{**r, 'size': size}] + plan['resources'][i + 1:]}


class Proc:
    """One simulated process: what kills it, interrupts it or fails for it."""

    def __init__(self, pid, call=None, armed=True):
        self.pid, self.call = pid, call
        self.dead, self.points, self.faulted, self.connections, self.requests = False, 0, False, 0, 0
        self.faults = [dict(f) for f in call['faults']] if call and armed else []
        self.ops = []
        self.armed = armed


class World(D.Disk):
    """The disk shared by all processes."""

    def __init__(self, sim):
        self.nobody = Proc(0)
        self.after = lambda: None
        self.sched = None
        self.procs, self.known, self.trace = {}, set(), []
        super().__init__(sim)

    def me(self):
        name = self.sched.me() if self.sched else None
        return self.procs.get(name, self.nobody)

    dead = property(lambda self: self.me().dead, lambda self, value: setattr(self.me(), 'dead', value))

    def find(self, kind, path):
        return [f for f in self.me().faults if f['kind'] == kind]

    def deliver(self, fault):
        self.me().faulted = True
        super().deliver(fault)

    def interrupt(self):
        self.faults = self.me().faults
        super().interrupt()

    def point(self, what, size=0):
        """A network or disk operation: other processes may go on, this one may die or be interrupted."""
        me = self.me()
        if me is self.nobody:
            return size
        if self.sched:
            self.sched.point(what)
        if me.dead:
            raise D.Crash()
        me.points += 1
        me.ops.append(what)
        self.trace.append((me.pid, what))
        for f in me.faults:
            if f.get('nth') == me.points and not f.get('done'):
                if f['kind'] == 'crash':
                    self.deliver(f)
                    me.dead = True
                    size = min(size, f['torn'])
                    if what != 'write':
                        raise D.Crash()
                elif f['kind'] == 'ctrlc':
                    self.deliver(f)
                    raise KeyboardInterrupt()
        return size

    def change(self, what, path, size=0):
        size = self.point(what, size)
        self.ops += 1
        self.sim.log('disk', self.me().pid, what, path if path in self.known else 'other', size)
        return size

    def open(self, file, *args, **kwargs):
        path = self.rel(file)
        f = super().open(file, *args, **kwargs)
        if path is not None and self.opened and self.opened[-1].path == path:
            self.opened[-1].proc = self.me()
        self.after()
        return f

    def one(self, name, path, *args, **kwargs):
        try:
            return super().one(name, path, *args, **kwargs)
        finally:
            self.after()

    def two(self, name, a, b):
        ra, rb = self.rel(a), self.rel(b)
        if (ra or '/').split('/')[0] != (rb or '/').split('/')[0]:      # every top level directory is a file system of its own
            self.sim.count('cross-device')
            raise OSError(errno_mod.EXDEV, 'Invalid cross-device link', rb)
        if rb is not None and not self.dead:
            for f in self.find('rename', rb):
                self.deliver(f)
                raise D.oserror(f['errno'], rb)
        try:
            return super().two(name, a, b)
        finally:
            self.after()


def mine(disk):
    """Raw files which stay with the process that opened them: what a dead process has buffered is never written."""
    write, close = D.Raw.write, D.Raw.close

    def new_write(raw, data):
        if getattr(raw, 'proc', disk.nobody).dead:
            return len(data)
        n = write(raw, data)
        disk.after()
        return n
    D.Raw.write = new_write

    def new_close(raw):
        if getattr(raw, 'proc', disk.nobody).dead:
            raw.wrote = False
        return close(raw)
    D.Raw.close = new_close
    return write, close


def content(spec, version=0):
    return random.Random(f"{spec['seed']}/{version}").randbytes(spec['size'])


def execute(plan, sim):
    import udapi.core.resource as R
    disk = World(sim)
    clock = [1.7e9]
    saved = {'urandom': os.urandom, 'getpid': os.getpid, 'time': time.time, 'sleep': time.sleep, 'tmp': tempfile.tempdir, 'sendfile': shutil._USE_CP_SENDFILE}
    env = {k: os.environ.get(k) for k in ('UDAPI_DATA', 'HOME')}
    orig = mine(disk)
    rng = random.Random('urandom')
    with disk:
        try:
            os.urandom = rng.randbytes
            os.getpid = lambda: disk.me().pid or saved['getpid']()
            time.time = lambda: clock[0]
            time.sleep = lambda t: (clock.__setitem__(0, clock[0] + t), disk.point('sleep'))[0]
            for name in ('mnt', 'tmp', 'home'):
                D.REAL['mkdir'](os.path.join(disk.root, name))
            tempfile.tempdir = os.path.join(disk.root, 'tmp')
            shutil._USE_CP_SENDFILE = False
            cwd = os.path.join(disk.root, 'mnt')
            os.chdir(cwd)
            run(plan, sim, disk, R, clock)
        finally:
            os.urandom, os.getpid, time.time, time.sleep = saved['urandom'], saved['getpid'], saved['time'], saved['sleep']
            tempfile.tempdir, shutil._USE_CP_SENDFILE = saved['tmp'], saved['sendfile']
            D.Raw.write, D.Raw.close = orig
            for k, v in env.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v


def run(plan, sim, disk, R, clock):
    os.environ['HOME'] = os.path.join(disk.root, 'home')
    base = {'abs': 'mnt/data', 'slash': 'mnt/data', 'rel': 'mnt/data', 'home': 'home', 'deep': 'mnt/not/yet/there'}[plan['data']]
    os.environ.pop('UDAPI_DATA', None)
    if plan['data'] == 'rel':
        os.environ['UDAPI_DATA'] = 'data'
    elif plan['data'] != 'home':
        os.environ['UDAPI_DATA'] = os.path.join(disk.root, base) + ('/' if plan['data'] == 'slash' else '')
    host = R.BASEURL.split('/')[2]
    resources = plan['resources']
    where = [f"{base}/{r['path']}" for r in resources]
    complete = [{content(r)} for r in resources]
    version = [0] * len(resources)
    blocked = [False] * len(resources)
    handed = {}                              # path -> resource that is there for good
    ready = [False] * len(resources)         # the user put it there, or its path was handed out
    disk.known = set(where)
    disk.trace = []
    disk.put('mnt/here.bin', b'local')
    disk.put('here.bin', b'local too')
    for e in plan['existing']:
        if 'block' in e:
            if os.path.exists(os.path.join(disk.root, base, e['block'])):
                continue
            disk.put(f"{base}/{e['block']}", content(e))
            blocked = [r['path'].startswith(e['block'] + '/') for r in resources]
        elif e['res'] < len(resources):
            disk.put(where[e['res']], content(e))
            complete[e['res']] = {content(e)}
            ready[e['res']] = True
            handed[where[e['res']]] = e['res']
    bad = []

    def look():
        """From then on it is there and complete at every moment."""
        for path, i in handed.items():
            data = disk.get(path)
            if data not in complete[i] and not bad:
                bad.append(Violation('stays-complete', f'{resources[i]["path"]} was complete, now it has {None if data is None else len(data)} bytes; '
                                     f'last operations {disk.trace[-6:]}'))
    disk.after = look

    def serve(host_, request):
        me = disk.me()
        specs = me.call['answers'] if me.call and me.armed else [{'status': 200, 'mode': 'length'}]
        spec = specs[min(me.requests, len(specs) - 1)]
        me.requests += 1
        clock[0] += 1
        i = next((i for i, r in enumerate(resources) if request.path.endswith('/' + r['path'])), None)
        if i is None or request.method != 'GET':
            return N.answer(404, b'no such thing'), None
        body = content(resources[i], version[i])
        if spec['status'] == 0:
            me.faulted = True
            sim.fault('answer/garbage')
            return b'SSH-2.0-OpenSSH_9.6\r\n' + body[:50], None
        if spec['status'] in (301, 302):
            sim.count('redirects')
            return N.answer(spec['status'], b'', headers=[('Location', f'http://mirror.example/x/{resources[i]["path"]}')]), None
        if spec['status'] >= 400:
            me.faulted = True
            sim.fault(f"answer/status-{spec['status']}")
            return N.answer(spec['status'], b'sorry'), None
        sim.log('served', me.pid, i, version[i], spec['mode'])
        data = N.answer(200, body, length=spec['mode'] == 'length', chunked=spec['mode'] == 'chunked')
        fault = spec.get('fault')
        if fault:
            head = data.index(b'\r\n\r\n') + 4
            at = int(fault['frac'] * (len(data) - 1))
            kind = fault['kind']
            if kind == 'eof' and spec['mode'] == 'close':
                kind = 'reset'
            if kind == 'eof' and 0 < at < head:
                at = head
            fault = {'kind': kind, 'at': at}
            me.faulted = True
        return data, fault

    def connecting(_):
        me = disk.me()
        me.connections += 1
        names = me.call['conn'] if me.call and me.armed else []
        name = names[me.connections - 1] if me.connections <= len(names) else None
        if name:
            me.faulted = True
        return name

    count = [0]

    def group(calls, step, armed):
        clock[0] += 1
        sched = N.Scheduler(step['sched'])
        disk.sched, disk.procs, disk.trace = sched, {}, []
        disk.chunks, disk.wchunks = step['chunks'], step['wchunks']
        disk.space, disk.armed = None, armed
        spaces = [f for c in calls for f in c['faults'] if f['kind'] == 'space'] if armed else []
        if spaces:
            disk.space = min(f['bytes'] for f in spaces)
            disk.faults = [dict(f) for f in spaces]
        jobs, seen = {}, {}
        before = list(ready)
        for c in calls:
            count[0] += 1
            proc = Proc(1000 + count[0], c, armed)
            if spaces:
                proc.faults += [f for f in disk.faults if f['kind'] == 'space' and f not in proc.faults]
            disk.procs[f'c{count[0]}'] = proc

            def job(c=c):
                name = resources[c['res']]['path']
                if c['local']:
                    name = c['local'].replace('ABS', disk.root)
                path = R.require_file(name)
                if isinstance(path, str):           # looked at before anybody else goes on
                    seen[path, disk.me().pid] = disk.get(os.path.relpath(path, disk.root))
                    if not c['local'] and seen[path, disk.me().pid] in complete[c['res']]:
                        ready[c['res']] = True
                        handed[os.path.relpath(path, disk.root)] = c['res']
                return path
            jobs[f'c{count[0]}'] = job
        with N.Net(sim, serve, connecting, step['chunks'], disk.point):
            out = sched.run(jobs)
        disk.sched = None
        look()
        if sched.switches:
            sim.count('switches', sched.switches)
            sim.probe('switch-during-download')
        if len({p for p, what in disk.trace if what == 'recv'}) > 1:
            sim.probe('concurrent-download')
        outcome = []
        for (name, proc) in disk.procs.items():
            got = out[name]
            if isinstance(got, BaseException) and not isinstance(got, (Exception, KeyboardInterrupt, D.Crash)):
                raise got
            i, c = proc.call['res'], proc.call
            kind = 'crash' if proc.dead else 'path' if isinstance(got, str) else type(got).__name__
            outcome.append(kind)
            sim.log('result', proc.pid, i, kind, proc.connections, proc.points)
            if bad:
                raise bad[0]
            if proc.dead:
                continue
            sim.check(isinstance(got, (str, BaseException)), 'returns-path', lambda: f'require_file returned {got!r}')
            if c['local']:
                want = os.path.abspath(c['local'].replace('ABS', disk.root))
                if os.path.isfile(want):
                    sim.check(got == want or (proc.faulted and not isinstance(got, str)), 'local-file', lambda: f'{c["local"]}: {got!r}, expected {want}')
                else:
                    sim.check(isinstance(got, (OSError, KeyboardInterrupt)), 'local-file', lambda: f'{c["local"]} does not exist, yet require_file gave {got!r}')
                sim.check(proc.connections == 0, 'local-file', lambda: f'{c["local"]}: the network was used')
                continue
            if before[i]:
                sim.probe('reused')
                sim.check(proc.connections == 0, 'reuse', lambda: f'{resources[i]["path"]} was there, yet it was downloaded again')
            if isinstance(got, str):
                sim.check(os.path.isabs(got), 'absolute-path', lambda: f'require_file returned {got!r}')
                data = seen[got, proc.pid]
                sim.check(data in complete[i], 'handed-out-complete', lambda: f'{resources[i]["path"]}: the path {got} was returned, its content: '
                          f'{None if data is None else len(data)} bytes, expected {sorted(map(len, complete[i]))}')
            else:
                fine = (OSError, http.client.HTTPException, ValueError, KeyboardInterrupt)
                sim.check(isinstance(got, fine), 'unexpected-exception', lambda: f'{type(got).__name__}: {got}')
                sim.check(proc.faulted or blocked[i], 'succeeds-without-faults', lambda: f'{resources[i]["path"]}: {type(got).__name__}: {got}; no fault for this'
                          f' process ({len(calls)} at once); operations {disk.trace[-12:]}')
        sim.state([outcome, [what for _, what in disk.trace], [p for p, _ in disk.trace]])
        return outcome

    failed = set()
    for step in plan['steps']:
        if step['update']:
            for i in range(len(resources)):
                if not ready[i]:
                    version[i] += 1
                    complete[i] = {content(resources[i], version[i])}
        outcome = group(step['calls'], step, True)
        for kind, c in zip(outcome, step['calls']):
            if c['res'] in failed and kind == 'path':
                sim.probe('retry-after-failure')
            if kind == 'crash':
                failed.add(c['res'])
    plain = {'sched': [0], 'chunks': [0], 'wchunks': [0], 'update': False}
    for i in range(len(resources)):
        if failed:
            sim.probe('retry-after-crash')
        sim.count('final-attempts')
        outcome = group([{'res': i, 'conn': [], 'answers': [{'status': 200, 'mode': 'length'}], 'faults': [], 'local': None}], plain, False)
        sim.check(blocked[i] or outcome == ['path'], 'recovers', lambda: f'faults have stopped, yet {resources[i]["path"]} cannot be obtained: {outcome}')
        if not blocked[i]:
            group([{'res': i, 'conn': ['dns'], 'answers': [], 'faults': [], 'local': None}], plain, False)
    sim.time += clock[0] - 1.7e9
