"""C15: nothing of a discarded query is kept."""
import gc
import sys
import weakref
from dst import spec, kernel
from dst.kernel import Sim, Tracer, forked
from .common import *
from . import c04

ID = 'C15'
RUNS = {'quick': 4000, 'thorough': 90000}
WANT_COVER = False
RULE = ('one run = a round of work (queries built, rendered, compared, copied, embedded, by 1-3 threads; some calls refused, some cut short, some '
        'threads killed) is repeated 4 times and everything is dropped after each round; then every object the application had in its hands must be '
        'gone, and neither the number of library objects nor what the library\'s modules and classes hold may grow from round to round; '
        'distinct = distinct case; non-trivial = at least one rendering was made')
STUBS = ['interrupt / MemoryError raised by the trace function at a chosen line', 'failing containers, streams and SQL objects supplied by the simulated caller']
ROUNDS = 4


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, sets=True)
    g.fulljoin = True
    tasks = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        progs = []
        for _ in range(r.choice([1, 1, 2])):
            p = g.part() if r.random() < 0.2 else g.program(r.choice([1, 2, 4]))
            ops = p.setdefault('ops', [])
            for _ in range(r.choice([0, 0, 1, 2])):
                if ops:
                    ops.insert(r.randint(0, len(ops)), c04.corrupt(r, r.choice(ops), g))
            looks = [spec.gen_look(r, p['kind'], prog=p) for _ in range(r.choice([1, 1, 2, 4]))]
            progs.append({'prog': p, 'looks': looks, 'early': r.random() < 0.3, 'copies': r.choice([0, 0, 1, 2]),
                          'fail': r.choice(['interrupt', 'memory', None, None]), 'n': r.choice([r.randint(1, 60), r.randint(1, 900)])})
        tasks.append({'progs': progs})
    sched = gen_sched(r)
    sched['opcode'] = False
    return dict(backend=b, tasks=tasks, sched=sched, configure=r.random() < 0.15)


class TrackEnv(spec.Env):
    """Remembers, weakly, everything the application had in its hands."""

    def __init__(self, sp, seen):
        super().__init__(sp)
        self.seen = seen
        self.track(self)

    def track(self, o, what=None):
        try:
            self.seen.append((weakref.ref(o), what or type(o).__name__))
        except TypeError:
            pass
        return o

    def make(self, v):
        o = super().make(v)
        if isinstance(v, list) and v[0] not in ('bad', 'en'):
            self.track(o)
        return o

    def _own(self, c):
        return self.track(super()._own(c))

    def copy_of(self, q):
        return self.track(q.copy())


def work(t, env, tracer):
    """One task; returns what happened, as JSON."""
    log = []
    for p in t['progs']:
        try:
            if p['fail']:
                tracer.arm(p['n'], p['fail'])
            q = env.track(spec.new_query(p['prog'], env))
            for op in p['prog'].get('ops', ()):
                log.append(spec.outcome(lambda: (spec.apply(q, op, env), None)[1])[0])
                if p['early']:
                    spec.text(q)
            for rd in p['looks']:
                log.append(spec.look(q, rd, env)[0])
            if not isinstance(q, spec.Broken):
                for _ in range(p['copies']):
                    log.append(spec.outcome(lambda: (str(env.copy_of(q)), None)[1])[0])
        except (kernel.SimInterrupt, kernel.SimMemoryError):
            log.append('cut')
        q = None
        if tracer.fired:
            log.append('fired:' + p['fail'])
        tracer.disarm()
        tracer.fired = None
    return log


def held():
    """How many things the library's modules and classes hold on to."""
    mods = [m for n, m in list(sys.modules.items()) if n == 'sqlpuzzle' or n.startswith('sqlpuzzle.')]
    seen, todo, n = set(), [], 0

    def mine(o):
        if isinstance(o, type):
            return (getattr(o, '__module__', None) or '').startswith('sqlpuzzle')
        if isinstance(o, type(sys)):
            return o.__name__.startswith('sqlpuzzle')
        return True
    for m in mods:
        todo.append(m.__dict__)
    glob = {id(m.__dict__) for m in sys.modules.values() if not (getattr(m, '__name__', None) or '').startswith('sqlpuzzle')}
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in glob or not mine(o):
            continue
        if isinstance(o, (type(held), type(held.__code__))) and not (getattr(o, '__module__', None) or 'sqlpuzzle').startswith('sqlpuzzle'):
            continue
        seen.add(id(o))
        n += 1
        if isinstance(o, type(held.__code__)):
            continue
        todo += gc.get_referents(o)
    return n


def instances():
    d = {}
    for o in gc.get_objects():
        t = type(o)
        if (getattr(t, '__module__', None) or '').startswith('sqlpuzzle') or t in (spec.UserSql, spec.Stream, spec.OwnList, spec.OwnDict, spec.OwnSet):
            d[t.__name__] = d.get(t.__name__, 0) + 1
    return d


def a_round(case, sp):
    seen = []
    sp.configure(case['backend'])

    def go():
        env = TrackEnv(sp, seen)
        if case['configure']:
            spec.outcome(lambda: sp.configure('nonsense'))
        if len(case['tasks']) > 1:
            sim = Sim([lambda task, t=t: work(t, env, task.tracer) for t in case['tasks']], case['sched'])
            return sim_result(sim, sim.run())
        tr = Tracer()
        tr.start()
        try:
            return dict(results=[work(t, env, tr) for t in case['tasks']], aborted=None, switches=[], nswitch=0, steps=tr.steps)
        finally:
            tr.stop()
    out = go()
    kernel.ADDRESSES.live.clear()
    gc.collect()
    return out, [w for r, w in seen if r() is not None], len(seen)


def simulate(case):
    s = sp()
    gc.collect()
    gc.freeze()
    out = alive = None
    hold, inst = [], []
    for i in range(ROUNDS):
        out, alive, n = a_round(case, s)
        if alive or out['aborted']:
            break
        out['tracked'] = n
        if i:
            inst.append(instances())
            hold.append(held())
    out.update(alive=alive, hold=hold, inst=inst)
    return out


def execute(case):
    if not case['tasks']:
        return {}
    out = forked(simulate, case)
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    elif out['alive']:
        v = vio('kept-alive', objects=sorted(count(out['alive']).items()))
    elif any(a != out['inst'][0] for a in out['inst']):
        v = vio('library-objects-grow', rounds=out['inst'])
    elif out['hold'][-1] > out['hold'][0]:
        v = vio('library-holds-more', rounds=out['hold'])
    fired = [x for res in out['results'] for x in res if isinstance(x, str) and x.startswith('fired:')]
    nref = sum(x == 'exc' for res in out['results'] for x in res)
    st = {'faults': dict(count(fired), **{'refused-or-failed-call': nref}), 'tracked': out.get('tracked', 0)}
    out['hash'] = case_hash(case)
    return finish(case, out, v, st, log=[out['results'], out['alive']], nontrivial=True)
