"""The simulator: everything that could happen by chance happens because a seed said so.

* `Sim` runs several real threads one at a time.  A thread gives up control only inside
  the trace function, i.e. at a source line (or bytecode) of sqlpuzzle or of the standard
  library's copy module, and the policy (seeded, or a recorded list) says who runs next.
* `Tracer` counts those points for one thread and can, at the n-th of them, raise an
  asynchronous exception or run nested code (a "signal handler").
* `SimLock` replaces threading.Lock/RLock created from sqlpuzzle code, so that a lock in
  the code under test is a scheduling point and a deadlock is a finding, not a hang.
* `forked` executes a function in a fork of the current (pristine) process.
"""
import _thread
import builtins
import copy as _copymod
import dis
import functools as _functools
import gc
import json
import os
import random
import select as _select
import signal
import sys
import threading
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
PKG = os.path.join(REPO, 'sqlpuzzle') + os.sep
_COPY_FILE = _copymod.__file__

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class HarnessError(Exception):
    """Something is wrong with the check itself (never reported as a violation)."""


class LibraryError(HarnessError):
    """An exception came out of library code where the harness expects none."""
    fn = detail = None


class Deadlock(HarnessError):
    """The code under test waits for ever, although nothing else is going on."""


class Hang(HarnessError):
    """A forked run did not end."""
    fn = None


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous interrupt."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class SimDeadlock(BaseException):
    """The code under test blocks for ever."""


class SimAbort(BaseException):
    """Step budget exhausted."""


_MINE = {}


def is_mine(code):
    r = _MINE.get(code)
    if r is None:
        fn = code.co_filename
        r = fn.startswith(PKG) or fn == _COPY_FILE
        _MINE[code] = r
    return r


# ---------------------------------------------------------------- locks

CURRENT = threading.local()     # .task -> Task of a running Sim
DEADLOCKS = []                  # reasons, in this process


class SimLock:
    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        task = getattr(CURRENT, 'task', None)
        while True:
            if self._count == 0:
                self._owner, self._count = me, 1
                return True
            if self._re and self._owner == me:
                self._count += 1
                return True
            if not blocking:
                return False
            if timeout is not None and timeout > 0:
                return False            # simulated time: the timeout fires
            if task is None or task.tracer.in_nested:
                DEADLOCKS.append('lock is never released')
                raise SimDeadlock('lock is never released')
            task.sim.block(task, self)

    def release(self):
        if self._count == 0:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            task = getattr(CURRENT, 'task', None)
            if task is not None:
                task.sim.unblock(self)

    def locked(self):
        return self._count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def __reduce_ex__(self, proto):
        raise TypeError("cannot pickle '_thread.lock' object")


def _from_pkg():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(PKG):
            return True
        f = f.f_back
    return False


def install_locks():
    def lock():
        return SimLock(False) if _from_pkg() else _real_lock()

    def rlock(*a, **k):
        return SimLock(True) if _from_pkg() else _real_rlock(*a, **k)
    threading.Lock = lock
    threading.RLock = rlock
    _thread.allocate_lock = lock


# ---------------------------------------------------------------- addresses

_real_id = id


class Addresses:
    """id() as called by sqlpuzzle: an address is free again as soon as its object is dead,
    and the next object asked about gets it (what CPython does by chance, done always)."""

    def __init__(self):
        self.live = {}          # real id -> [object, address]
        self.free = []
        self.next = 0x100
        self.salt = 0           # another salt: another layout of memory

    def get(self, obj):
        e = self.live.get(_real_id(obj))
        if e is not None and e[0] is obj:
            return e[1]
        for k in list(self.live):
            if sys.getrefcount(self.live[k][0]) == 2:       # the entry itself, and the argument
                self.free.append(self.live.pop(k)[1])
        if self.free:
            a = self.free.pop()
        else:
            self.next += 1
            a = (self.next * (0x9E3779B1 if self.salt else 1) ^ self.salt) % (1 << 40) * 16
        self.live[_real_id(obj)] = [obj, a]
        return a


ADDRESSES = Addresses()


def sim_id(obj, /):
    if sys._getframe(1).f_code.co_filename.startswith(PKG):
        return ADDRESSES.get(obj)
    return _real_id(obj)


def load():
    """Import sqlpuzzle from the working tree of the repository, locks replaced."""
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    install_locks()
    builtins.id = sim_id
    import sqlpuzzle
    import sqlpuzzle.relations
    import sqlpuzzle.exceptions
    if not os.path.realpath(sqlpuzzle.__file__).startswith(PKG):
        raise HarnessError('sqlpuzzle imported from %s, not from %s' % (sqlpuzzle.__file__, REPO))
    gc.disable()
    gc.collect()
    gc.freeze()
    return sqlpuzzle


# ---------------------------------------------------------------- per-thread tracer

_OPS = [dis.opmap.get(n) for n in ('LOAD_CONST', 'CALL', 'SWAP', 'PUSH_EXC_INFO', 'WITH_EXCEPT_START')]


def _leaving_with(frame):
    co, i = frame.f_code.co_code, frame.f_lasti
    load, call, swap, push, wexc = _OPS
    if i < 0 or load is None:
        return False
    ops = list(co[i:i + 12:2])
    if ops[:1] == [swap]:
        ops = ops[1:]
    return ops[:4] == [load, load, load, call] and co[i + 1 + 2 * (co[i] == swap)] == co[i + 3 + 2 * (co[i] == swap)] or ops[:2] == [push, wexc]


def pick_point(trail, frac):
    """A point of the recorded call: half of the choices are uniform over the points, half over the distinct lines."""
    if not trail:
        return 1
    if frac < 0.5:
        return 1 + int(frac * 2 * len(trail))
    frac = (frac - 0.5) * 2
    where = {}
    for i, ln in enumerate(trail):
        where.setdefault(ln, []).append(i + 1)
    x = frac * len(where)
    at = list(where.values())[int(x)]
    return at[int((x - int(x)) * len(at))]


class Tracer:
    """Counts points on the calling thread; injects one fault or nested call when armed."""

    def __init__(self, opcode=False, max_steps=12000000, task=None, cover=None, trail=None):
        self.steps = 0
        self.trail = trail              # a list that gets the line of every point
        self.opcode = opcode
        self.max_steps = max_steps
        self.task = task
        self.cover = cover
        self.fault_at = -1
        self.fault = None
        self.nested_at = -1
        self.nested = None
        self.fired = None
        self.in_nested = False
        self._base = 0
        opc = opcode

        def local(frame, event, arg):
            if event == 'line' or event == 'opcode':
                self.point(frame)
            return local

        def glob(frame, event, arg):
            if is_mine(frame.f_code):
                self.point(frame)
                if frame.f_code.co_filename == _COPY_FILE:
                    return None             # copy.py: function entries only
                if opc:
                    frame.f_trace_opcodes = True
                return local
            return None
        self._glob = glob

    def start(self):
        sys.settrace(self._glob)

    def stop(self):
        sys.settrace(None)

    def arm(self, at, fault):
        self._base = self.steps
        self.fault_at, self.fault, self.fired = at, fault, None

    def arm_nested(self, at, fn):
        self._base = self.steps
        self.nested_at, self.nested, self.fired = at, fn, None

    def disarm(self):
        self.fault_at = self.nested_at = -1
        self.fault = self.nested = None
        sys.settrace(self._glob)        # an exception out of the trace function switched it off

    def point(self, frame):
        self.steps += 1
        if self.trail is not None:
            self.trail.append((frame.f_code.co_filename, frame.f_lineno or 0))
        if self.cover is not None:
            self.cover.add((frame.f_code.co_filename, frame.f_lineno or 0))
        rel = self.steps - self._base
        if rel == self.fault_at and _leaving_with(frame):
            self.fault_at += 1          # no interpreter delivers an asynchronous exception between a block and its __exit__
        elif rel == self.fault_at:
            where = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.fired = where
            self.fault_at = -1
            kind, self.fault = self.fault, None
            raise {'interrupt': SimInterrupt, 'memory': SimMemoryError}[kind]('injected at ' + where)
        if rel == self.nested_at:
            self.fired = '%s:%s' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.nested_at = -1
            fn, self.nested = self.nested, None
            self.in_nested = True
            try:
                fn()
            finally:
                self.in_nested = False
        if self.steps > self.max_steps:
            self.max_steps = 1 << 60
            raise SimAbort('step budget exhausted')
        if self.task is not None:
            self.task.sim.point(self.task, frame)


# ---------------------------------------------------------------- threads

class Task:
    def __init__(self, sim, idx, fn, opcode):
        self.sim, self.idx, self.fn = sim, idx, fn
        self.lock = _real_lock()
        self.lock.acquire()
        self.state = 'ready'
        self.step = 0
        self.nblock = 0
        self.prio = 0
        self.result = None
        self.tracer = Tracer(opcode, max_steps=1 << 60, task=self, cover=sim.cover)    # the simulation counts


class Sim:
    """fns: one callable per task, called with its Task; its return value is the result."""

    def __init__(self, fns, sched, max_steps=12000000, cover=None):
        self.cover = cover
        self.sched = sched
        self.max_steps = max_steps
        self.total = 0
        self.hash = 0
        self.switches = []
        self.nswitch = 0
        self.aborted = None
        self.mainlock = _real_lock()
        self.mainlock.acquire()
        self.tasks = [Task(self, i, f, sched.get('opcode', False)) for i, f in enumerate(fns)]
        mode = self.mode = sched['mode']
        self.rng = random.Random(sched.get('seed', 0))
        if mode == 'rand':
            self.p = sched['p']
            self._gap()
        elif mode == 'rare':
            self.p = sched['p']
            self.seen = {}
        elif mode == 'pct':
            prios = list(range(len(self.tasks)))
            self.rng.shuffle(prios)
            for t, pr in zip(self.tasks, prios):
                t.prio = pr
            self.changes = set(self.rng.randrange(1, sched['k'] + 1) for _ in range(sched['d']))
            self.low = -1
        else:
            self.table = {(a, b): c for a, b, c in sched['sw']}

    def _gap(self):
        g = 1
        while self.rng.random() >= self.p and g < 5000:
            g += 1
        self.countdown = g

    # -- choosing
    def ready(self):
        return [t for t in self.tasks if t.state == 'ready']

    def _pick(self, key, cand):
        """A forced choice: the current task cannot go on."""
        if self.mode == 'list':
            want = self.table.get(key)
            for t in cand:
                if t.idx == want:
                    return t
            return cand[0]
        if self.mode == 'pct':
            t = max(cand, key=lambda x: x.prio)
        else:
            t = cand[self.rng.randrange(len(cand))]
        self.switches.append([key[0], key[1], t.idx])
        return t

    def point(self, task, frame):
        self.total += 1
        task.step += 1
        self.hash = hash((self.hash, task.idx, frame.f_lineno, task.step))
        if self.total > self.max_steps:
            self.abort('no-progress: step budget exhausted')
        if self.mode == 'rand':
            self.countdown -= 1
            if self.countdown > 0:
                return
            self._gap()
            cand = [t for t in self.tasks if t.state == 'ready' and t is not task]
            if not cand:
                return
            target = cand[self.rng.randrange(len(cand))]
        elif self.mode == 'rare':           # a line is the more likely to be a preemption the fewer times it has been reached
            ln = (frame.f_code, frame.f_lineno)
            n = self.seen[ln] = self.seen.get(ln, 0) + 1
            if n > 40 or self.rng.random() * n >= self.p:
                return
            cand = [t for t in self.tasks if t.state == 'ready' and t is not task]
            if not cand:
                return
            target = cand[self.rng.randrange(len(cand))]
        elif self.mode == 'pct':
            if self.total not in self.changes:
                return
            task.prio = self.low
            self.low -= 1
            target = max(self.ready(), key=lambda x: x.prio)
            if target is task:
                return
        else:
            want = self.table.get((task.idx, task.step))
            if want is None or want == task.idx or want >= len(self.tasks):
                return
            target = self.tasks[want]
            if target.state != 'ready':
                return
        self.switches.append([task.idx, task.step, target.idx])
        self.nswitch += 1
        self._handoff(task, target)

    def _handoff(self, task, target):
        target.lock.release()
        task.lock.acquire()

    def block(self, task, lock):
        task.state = ('blocked', id(lock))
        task.nblock += 1
        cand = self.ready()
        if not cand:
            self.abort('deadlock')
        self._handoff(task, self._pick((task.idx, 'b%d' % task.nblock), cand))

    def unblock(self, lock):
        for t in self.tasks:
            if t.state == ('blocked', id(lock)):
                t.state = 'ready'

    def abort(self, why):
        self.aborted = why
        self.mainlock.release()
        _real_park()

    def _body(self, task):
        task.lock.acquire()
        CURRENT.task = task
        try:
            task.tracer.start()
            try:
                task.result = task.fn(task)
            finally:
                sys.settrace(None)
        except SimDeadlock as e:
            self.abort('deadlock')
        except BaseException as e:
            task.result = {'harness': e}
        task.state = 'done'
        cand = self.ready()
        if cand:
            self._pick((task.idx, 'end'), cand).lock.release()
        elif any(t.state != 'done' for t in self.tasks):
            self.aborted = 'deadlock'
            self.mainlock.release()
        else:
            self.mainlock.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for th in ths:
            th.start()
        self._pick((-1, -1), self.tasks).lock.release()
        self.mainlock.acquire()
        if not self.aborted:
            for th in ths:                  # what a thread holds goes with it
                th.join()
        for t in self.tasks:
            if isinstance(t.result, dict) and 'harness' in t.result:
                raise t.result['harness']
        return [t.result for t in self.tasks]


def _real_park():
    lk = _real_lock()
    lk.acquire()
    lk.acquire()


# ---------------------------------------------------------------- pristine forks

def forked(fn, *args, timeout=100):
    """Run fn(*args) in a fork of this process; return its JSON-able result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = fn(*args)
                dead = DEADLOCKS and not (isinstance(out, dict) and (out.get('deadlock') or out.get('aborted')))
                data = json.dumps(['dead', DEADLOCKS[0]] if dead else ['ok', out])
            except BaseException as e:
                data = json.dumps(['lib' if _from_library(e) else 'err', traceback.format_exc(), type(e).__name__])
            data = data.encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    try:
        while True:
            ready, _, _ = _select.select([r], [], [], timeout)
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                e = Hang('simulated run did not end within %d s of real time' % timeout)
                e.fn = fn.__name__
                raise e
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    raw = b''.join(chunks)
    if not raw:
        raise HarnessError('simulated run died with status %s' % status)
    out = json.loads(raw)
    if out[0] == 'ok':
        return out[1]
    if out[0] == 'dead' or out[0] == 'lib' and out[2] == 'SimDeadlock':
        raise Deadlock('%s: %s' % (fn.__name__, out[1]))
    if out[0] == 'lib':
        e = LibraryError(out[1])
        e.fn, e.detail = fn.__name__, out[2]
        raise e
    raise HarnessError(out[1])


def _from_library(e):
    if isinstance(e, (HarnessError, SimAbort)):
        return False
    tb, last = e.__traceback__, None
    while tb is not None:
        last, tb = tb, tb.tb_next
    return last is not None and last.tb_frame.f_code.co_filename.startswith(PKG)
