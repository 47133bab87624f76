"""C01: concurrent readers of one shared, unmodified object."""
from dst import spec, kernel
from dst.kernel import Sim, forked
from .common import *

ID = 'C01'
RUNS = {'quick': 4950, 'thorough': 135000}
WANT_COVER = False
RULE = ('one run = a generated query or part, 2-4 threads each making 1-3 observations of it under a seeded schedule; '
        'distinct = distinct hash of the whole (thread, line) event sequence; non-trivial = at least one preemption inside library code')


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    g.fulljoin = True
    if r.random() < 0.3:
        prog = g.part()
    else:
        prog = g.program(r.choice([1, 2, 3, 5, 8]))
        if r.random() < 0.5 and prog['kind'] in ('select', 'select_from', 'update', 'delete', 'delete_from'):
            prog['ops'] += g.join_ops_nofull()
    tasks = [{'looks': [spec.gen_look(r, prog['kind'], prog=prog) for _ in range(r.randint(1, 3))]} for _ in range(r.randint(2, 4))]
    more = []
    if prog['kind'] != 'value' and r.random() < 0.4:
        more = g.ops(prog['kind'], r.randint(1, 2))
        if prog['kind'] not in ('insert', 'union') and r.random() < 0.5:
            more.insert(0, g.on_op())
    return dict(backend=b, prog=prog, tasks=tasks, more={'ops': more}, sched=gen_sched(r))


def ref(case):
    env = start(case)
    out = []
    for t in case['tasks']:
        row = []
        for rd in t['looks']:
            q, _ = spec.build(case['prog'], env)
            twin, _ = spec.build(case['prog'], env)
            row.append(spec.look(q, rd, env, twin))
        out.append(row)
    q, log = spec.build(case['prog'], env)
    return [out, log, [snapshot(q, env), go_on(q, case, env)]]


def go_on(q, case, env):
    log = [spec.outcome(lambda: (spec.apply(q, op, env), None)[1]) for op in case['more']['ops']]
    return [log, snapshot(q, env)]


def simulate(case):
    env = start(case)
    q, log = spec.build(case['prog'], env)
    twin, _ = spec.build(case['prog'], env)

    def reader(looks):
        def fn(task):
            return [spec.look(q, rd, env, twin) for rd in looks]
        return fn
    sim = Sim([reader(t['looks']) for t in case['tasks']], case['sched'], cover=cover_set(globals()))
    res = sim.run()
    after = None if sim.aborted else [snapshot(q, env), go_on(q, case, env)]
    return sim_result(sim, res, log=log, after=after)


def execute(case):
    if not case['tasks']:
        return {}
    want, wlog, wafter = forked(ref, case)
    out = forked(simulate, case)
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    elif out['log'] != wlog:
        v = vio('build-differs', expected=wlog, got=out['log'])
    else:
        for i, (a, b) in enumerate(zip(want, out['results'])):
            for j, (x, y) in enumerate(zip(a, b)):
                if x != y and v is None:
                    v = vio('reader-got-wrong-result', task=i, look=case['tasks'][i]['looks'][j], expected=x, got=y)
        if v is None and out['after'] != wafter:
            v = vio('object-changed-by-reading', expected=wafter, got=out['after'])
    looks = {}
    for t in case['tasks']:
        for rd in t['looks']:
            looks[rd[0]] = looks.get(rd[0], 0) + 1
    return finish(case, out, v, {'looks': looks, 'kinds': {case['prog']['kind']: 1}}, log=out['results'], nontrivial=out['nswitch'] > 0)
