"""C03: observations cut short at an arbitrary instant leave no trace."""
import sys
from dst import spec, kernel
from dst.kernel import Sim, Tracer, forked
from .common import *

ID = 'C03'
RUNS = {'quick': 4950, 'thorough': 135000}
WANT_COVER = False
RULE = ('one run = a generated query and an unrelated bystander query; 1-3 threads make observations, some cut short by an exception '
        'injected at a seeded source line (interrupt, memory), by a nearly exhausted stack, or by a failing user SQL object; distinct = '
        'distinct event-sequence hash; non-trivial = at least one fault really fired')
STUBS = ['interrupt / MemoryError raised by the trace function at a chosen line', 'lowered recursion limit', 'failing user SQL object']
KINDS = ['interrupt', 'interrupt', 'memory', 'stack', 'user']


def userify(r, x):
    """Make user SQL objects in the spec fail-able."""
    if isinstance(x, list):
        if x and x[0] == 'to':
            return ['to', x[1], r.randint(1, 3), r.choice(['Boom', 'KeyError', 'TypeError', 'KeyboardInterrupt'])]
        return [userify(r, y) for y in x]
    if isinstance(x, dict):
        return {k: userify(r, v) for k, v in x.items()}
    return x


def with_user(r, prog):
    """Put a user SQL object somewhere."""
    if prog['kind'] == 'union':
        prog['r'] = with_user(r, prog['r'])
    elif prog['kind'] == 'value':
        return {'kind': 'value', 'v': r.choice([['Q', [['a', ['to', 'MYFN()']]]], ['V', ['l', [1, ['to', 'MYFN()']]]],
                                                ['not', [['b', ['to', 'MYFN()']]]], ['fn', 'count', ['to', 'MYFN()']]])}
    elif prog['kind'] == 'insert':
        prog['ops'].append({'m': 'values', 'f': 'kw', 'items': [['e', ['to', 'MYFN()']]]})
    else:
        ops = [{'m': 'where', 'f': 'two', 'items': [[r.choice('ab'), ['to', 'MYFN()']]]}]
        if prog['kind'] in ('select', 'select_from'):
            ops += [{'m': 'having', 'f': 'two', 'items': [['a', ['to', 'MYFN()']]]}, {'m': 'columns', 'f': 'mixed', 'items': [[['to', 'MYFN()'], 'x']]},
                    {'m': 'where', 'f': 'pos', 'a': [['to', 'MYFN()']]}]
        elif prog['kind'] == 'update':
            ops += [{'m': 'set', 'f': 'kw', 'items': [['e', ['to', 'MYFN()']]]}]
        prog['ops'].insert(r.randint(0, len(prog['ops'])), r.choice(ops))
    return prog


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    g.fulljoin = True
    prog = g.part() if r.random() < 0.25 else g.program(r.choice([1, 2, 4, 7]))
    if r.random() < 0.4 and prog['kind'] not in ('insert', 'union', 'value'):
        prog['ops'] += g.join_ops_nofull()
    if r.random() < 0.25:
        prog = with_user(r, prog)
    prog = userify(r, prog)
    by = spec.Gen(r, b, depth=1).program(3)
    by = json.loads(json.dumps(by).replace('"to"', '"C"'))
    n = r.choice([1, 1, 1, 2, 3])
    tasks = []
    for _ in range(n):
        tasks.append({'looks': [{'rd': spec.gen_look(r, prog['kind'], prog=prog),
                                 'kind': r.choice(KINDS if n == 1 else ['interrupt', 'memory', 'user']) if r.random() < 0.7 else None,
                                 'frac': r.random(),
                                 'times': r.choice([25, 60, 110]) if n == 1 and not g.longlists and r.random() < 0.05 else 1} for _ in range(r.randint(1, 4))]})
    if n == 1 and not g.longlists and r.random() < 0.35:        # one look, cut short at many different points
        lk = tasks[0]['looks'][0]
        lk.update(kind=r.choice(['interrupt', 'interrupt', 'memory']), times=1, fracs=spread(r, r.choice([15, 40, 80])))
    sched = gen_sched(r)
    sched['opcode'] = False         # CPython 3.12 crashes when a trace function raises on an opcode event
    more = []
    if prog['kind'] != 'value' and r.random() < 0.6:
        more = g.ops(prog['kind'], r.randint(1, 2))
        if prog['kind'] not in ('insert', 'union') and r.random() < 0.5:
            more.insert(0, g.on_op())
        more = json.loads(json.dumps(more).replace('["to",', '["C",'))
    return dict(backend=b, prog=prog, by=by, tasks=tasks, more={'ops': more}, sched=sched)


def ref(case):
    env = start(case)
    env.faults_on = False
    out, steps = [], []
    for t in case['tasks']:
        for lk in t['looks']:
            q, _ = spec.build(case['prog'], env)
            twin, _ = spec.build(case['prog'], env)
            tr = Tracer(trail=[])
            tr.start()
            try:
                o = spec.look(q, lk['rd'], env, twin)
            finally:
                tr.stop()
            out.append(o)
            steps.append([[kernel.pick_point(tr.trail, x) for x in lk.get('fracs', [lk['frac']] * lk.get('times', 1))], frames(lambda: spec.look(q, lk['rd'], env, twin)) if lk['kind'] == 'stack' else 0])
    q, _ = spec.build(case['prog'], env)
    return [out, steps, [snapshot(q, env), go_on(q, case, env)]]


def refby(case):
    env = start(case)
    env.faults_on = False
    return snapshot(spec.build(case['by'], env)[0], env)


def go_on(q, case, env):
    log = [spec.outcome(lambda: (spec.apply(q, op, env), None)[1]) for op in case['more']['ops']]
    return [log, snapshot(q, env)]


def attempts(lk):
    return range(len(lk['fracs']) if 'fracs' in lk else lk.get('times', 1))


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        n, f = n + 1, f.f_back
    return n


def frames(fn):
    """How many frames deep fn goes."""
    n = [0, 0]

    def prof(frame, event, arg):
        if event == 'call':
            n[0] += 1
            n[1] = max(n)
        elif event == 'return':
            n[0] -= 1
    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)
    return n[1]


def simulate(case, steps):
    env = start(case)
    env.faults_on = False
    q, _ = spec.build(case['prog'], env)
    twin, _ = spec.build(case['prog'], env)
    by, _ = spec.build(case['by'], env)
    fired = []
    idx = 0
    fns = []
    for t in case['tasks']:
        def fn(task, t=t, base=idx):
            res = []
            for j, lk, i in [(j, lk, i) for j, lk in enumerate(t['looks']) for i in attempts(lk)]:
                kind = lk['kind']
                before = len(env.fired)
                hit = None
                if kind in ('interrupt', 'memory'):
                    task.tracer.arm(steps[base + j][0][i], kind)
                    try:
                        o = spec.look(q, lk['rd'], env, twin)
                    finally:
                        hit = task.tracer.fired
                        task.tracer.disarm()
                elif kind == 'stack':
                    task.tracer.stop()
                    old = sys.getrecursionlimit()
                    try:
                        sys.setrecursionlimit(depth() + 3 + int(lk['frac'] * steps[base + j][1]))
                        o = spec.look(q, lk['rd'], env, twin)
                    finally:
                        sys.setrecursionlimit(old)
                    task.tracer.start()
                    if o == ['exc', 'RecursionError']:
                        hit = 'stack'
                elif kind == 'user' and len(case['tasks']) == 1:
                    env.faults_on = True
                    try:
                        o = spec.look(q, lk['rd'], env, twin)
                    finally:
                        env.faults_on = False
                    if len(env.fired) > before:
                        hit = 'user:' + env.last_exc
                else:
                    kind = None
                    o = spec.look(q, lk['rd'], env, twin)
                if hit:
                    fired.append(kind)
                res.append([o, hit, kind])
            return res
        fns.append(fn)
        idx += len(t['looks'])
    sim = Sim(fns, case['sched'], cover=cover_set(globals()))
    res = sim.run()
    after = byafter = fresh = None
    if not sim.aborted:
        after = [snapshot(q, env), go_on(q, case, env)]
        byafter = snapshot(by, env)
        env2 = start(case)
        env2.faults_on = False
        fresh = snapshot(spec.build(case['by'], env2)[0], env2)
    return sim_result(sim, res, after=after, byafter=byafter, fresh=fresh, fired=fired)


def execute(case):
    if not case['tasks']:
        return {}
    want, steps, wafter = forked(ref, case)
    wby = forked(refby, case)
    out = forked(simulate, case, steps)
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    else:
        flat = [x for t in out['results'] for x in t]
        looks = [(lk, w) for lk, w in zip((lk for t in case['tasks'] for lk in t['looks']), want) for _ in attempts(lk)]
        for (lk, w), (o, hit, kind) in zip(looks, flat):
            if v is not None:
                break
            if hit and kind in ('interrupt', 'memory') and o[1] not in ('SimInterrupt', 'SimMemoryError'):
                v = vio('fault-swallowed', look=lk, at=hit, got=o)
            elif hit and kind == 'user' and o != ['exc', hit[5:]]:
                v = vio('fault-swallowed', look=lk, at=hit, got=o)
            elif not hit and o != w:
                v = vio('later-look-wrong', look=lk, expected=w, got=o)
        if v is None and out['after'] != wafter:
            v = vio('query-changed-by-failed-look', expected=wafter, got=out['after'])
        if v is None and (out['byafter'] != wby or out['fresh'] != wby):
            v = vio('other-query-changed-by-failed-look', expected=wby, got=[out['byafter'], out['fresh']])
    return finish(case, out, v, {'faults': count(out['fired']), 'kinds': {case['prog']['kind']: 1}},
                  log=[out['results'], out['after']], nontrivial=bool(out['fired']))
