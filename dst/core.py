"""Core of the simulator: runs, violations, event log, isolated execution of one plan."""
import hashlib
import json
import logging
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get('UDAPI_REPO', '/repo')
RUN_TIMEOUT = 30.0           # wall seconds after which a run is examined for lack of progress
STEP_BUDGET = 15_000_000     # executed lines; ordinary runs need far less than a tenth of it
MEM_LIMIT = 3 << 30


class Violation(Exception):
    """The property is broken.  `oracle` names the check, `sig` identifies the specific failure."""

    def __init__(self, oracle, message, sig=None):
        super().__init__(f"{oracle}: {message}")
        self.oracle, self.message, self.sig = oracle, message, sig or oracle


class Hang(BaseException):
    pass


class StepBudget(BaseException):
    pass


def canon(obj):
    return json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr)


def h64(obj):
    if not isinstance(obj, (str, bytes)):
        obj = canon(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Sim:
    """What one run records: an event log (only its digest is kept), counters and distinct states."""

    def __init__(self, keep_log=False):
        self.digest = hashlib.blake2b(digest_size=16)
        self.steps = 0
        self.counts = {}
        self.states = set()
        self.keep = [] if keep_log else None
        self.nontrivial = False
        self.time = 0.0          # simulated time

    def log(self, *event):
        self.steps += 1
        text = canon(event)
        self.digest.update(text.encode())
        if self.keep is not None:
            self.keep.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, kind):
        """A fault that was actually delivered."""
        self.nontrivial = True
        self.count('fault:' + kind)

    def probe(self, name):
        self.count('probe:' + name)

    def state(self, obj):
        self.states.add(h64(obj))

    def check(self, condition, oracle, message, sig=None):
        self.count('oracle:' + oracle)
        if not condition:
            raise Violation(oracle, message() if callable(message) else message, sig)


def rng_for(prop, seed, index):
    return random.Random(f"{prop}/{seed}/{index}")


def _classify(exc):
    """Exception escaping from a run -> (status, oracle, message)."""
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep)]
    text = f"{type(exc).__name__}: {str(exc)[:300]}"
    if where:
        last = where[-1]
        return 'violation', 'unexpected-exception', (
            f"{text} in {os.path.relpath(last.filename, REPO)} ({last.name})"), (
            f"unexpected-exception/{type(exc).__name__}/{os.path.basename(last.filename)}:{last.name}")
    last = tb[-1] if tb else None
    loc = f"{os.path.basename(last.filename)}:{last.lineno} ({last.name})" if last else '?'
    return 'harness', 'uninterpretable-result', f"{text} at {loc}", f"harness/{type(exc).__name__}/{loc}"


def execute_here(mod, plan, keep_log=False):
    """Execute a plan in this process and return the result dict."""
    sim = Sim(keep_log)
    res = {'status': 'ok', 'oracle': None, 'msg': None, 'sig': None}
    try:
        mod.execute(plan, sim)
    except Violation as v:
        res.update(status='violation', oracle=v.oracle, msg=v.message, sig=v.sig)
    except Hang:
        res.update(status='timeout', oracle='no-progress', msg='wall limit of a run reached', sig='no-progress')
    except StepBudget:
        res.update(status='violation', oracle='no-progress', sig='no-progress',
                   msg=f'no progress: more than {STEP_BUDGET} lines executed in one run')
    except MemoryError:
        res.update(status='timeout', oracle='no-progress', msg='memory limit of a run reached', sig='no-progress')
    except RecursionError as e:
        status, oracle, msg, sig = _classify(e)
        res.update(status='violation', oracle='unexpected-exception', msg=msg, sig='unexpected-exception/RecursionError')
    except BaseException as e:   # pylint: disable=broad-except
        status, oracle, msg, sig = _classify(e)
        if status == 'harness':
            res['trace'] = traceback.format_exc()[-3000:]
        res.update(status=status, oracle=oracle, msg=msg, sig=sig)
    if res['msg']:
        sim.log('end', res['status'], res['oracle'])
    res.update(digest=sim.digest.hexdigest(), steps=sim.steps, counts=sim.counts, states=sorted(sim.states),
               nontrivial=sim.nontrivial, time=sim.time)
    if keep_log:
        res['log'] = sim.keep
    return res


def _child(mod, plan, wfd, timeout, budget, keep_log):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def on_alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 1.0)
    if budget:
        mon = sys.monitoring
        mon.use_tool_id(3, 'dst')
        left = [budget]

        def on_line(*_):
            left[0] -= 1
            if left[0] <= 0:
                left[0] = 1 << 60
                mon.set_events(3, 0)
                raise StepBudget()
        mon.register_callback(3, mon.events.LINE, on_line)
        mon.set_events(3, mon.events.LINE)
    random.seed(0)
    res = execute_here(mod, plan, keep_log)
    signal.setitimer(signal.ITIMER_REAL, 0)
    data = json.dumps(res).encode('utf-8', 'surrogatepass')
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def run_isolated(mod, plan, timeout=RUN_TIMEOUT, budget=0, keep_log=False):
    """Execute one plan in a forked child; the child can neither leak into nor bring down this process."""
    sys.stdout.flush()
    sys.stderr.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            _child(mod, plan, wfd, timeout, budget, keep_log)
        except BrokenPipeError:         # the search was stopped meanwhile
            code = 3
        except BaseException:   # pylint: disable=broad-except
            try:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks, deadline, killed = [], time.monotonic() + timeout + 15, False
    while True:
        left = deadline - time.monotonic()
        ready, _, _ = select.select([rfd], [], [], max(left, 0.01))
        if ready:
            data = os.read(rfd, 1 << 16)
            if not data:
                break
            chunks.append(data)
        elif left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
    os.close(rfd)
    os.waitpid(pid, 0)
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'status': 'timeout' if killed else 'crashed', 'oracle': 'no-progress' if killed else 'process-died',
                'msg': 'run killed' if killed else 'the run died without a result', 'sig': 'no-progress',
                'digest': '', 'steps': 0, 'counts': {}, 'states': [], 'nontrivial': False, 'time': 0}


def run_confirmed(mod, plan, keep_log=False):
    """Like run_isolated, but a run over its wall limit is decided by the deterministic line budget."""
    res = run_isolated(mod, plan, keep_log=keep_log)
    if res['status'] in ('timeout', 'crashed'):
        again = run_isolated(mod, plan, timeout=240, budget=STEP_BUDGET, keep_log=keep_log)
        if again['status'] not in ('timeout', 'crashed'):
            return again
        if again['status'] == res['status'] == 'timeout' and 'memory' in (res['msg'] or ''):
            again.update(status='violation', oracle='no-progress', msg='memory of a run exhausted', sig='no-progress')
        return again
    return res


def preload():
    """Import the code under test from the working tree of the repository."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import udapi.core.document, udapi.core.run   # noqa
    path = os.path.abspath(udapi.core.document.__file__)
    assert path.startswith(os.path.abspath(REPO) + os.sep), path
