"""C05: queries never influence one another."""
import gc
from dst import spec, kernel
from dst.kernel import Sim, Tracer, forked
from .common import *

ID = 'C05'
RUNS = {'quick': 2420, 'thorough': 66000}
WANT_COVER = False
RULE = ('one run = a process history of discarded queries (some cut short), then 2-4 threads each building and rendering their own queries '
        '(some from a copy of one template, some killed half way); every surviving query is compared with the same calls alone in a fresh '
        'process; distinct = distinct event-sequence hash; non-trivial = at least one preemption inside library code')
STUBS = ['interrupt / MemoryError raised by the trace function at a chosen line']


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    g.fulljoin = True
    base = [g.program(r.choice([1, 2, 4])) for _ in range(r.choice([1, 2]))]
    if r.random() < 0.3:
        base.append(g.part())
    if r.random() < 0.15:
        base.append({'kind': 'value', 'v': r.choice([['gc', [r.choice(spec.KCOLS)], r.choice([[], ['b']]), r.choice([None, '-'])],
                                                     ['fn', 'convert', 'a', 'char'], ['fn', r.choice(['sum', 'count']), 'a']])})

    def one():
        x = r.random()
        if x < 0.55:
            return twist(r, r.choice(base), r.choice([0.1, 0.3, 0.8]))
        if x < 0.65:
            return json.loads(json.dumps(r.choice(base)))
        if x < 0.72:
            return g.part()
        return g.program(r.choice([1, 2, 4]))
    history = [{'prog': one(), 'render': r.randint(0, 2), 'look': spec.gen_look(r, 'insert'),
                'kind': r.choice(['interrupt', 'memory', None, None, None]),
                'n': r.choice([r.randint(1, 60), r.randint(1, 900)])} for _ in range(r.choice([0, 1, 2, 4]))]
    if history and r.random() < 0.06:
        h = r.choice(history)
        h['times'] = r.choice([20, 60])
    flood = {'n': r.choice([30, 130, 260, 520, 1100, 1100, 2100]), 'what': r.sample(['name', 'int', 'str', 'float', 'list', 'alias', 'in', 'fail'], r.randint(1, 3)),
             'len': r.choice([1, 8, 24])} if r.random() < 0.06 else None
    tmpl = g.program(r.choice([1, 2, 3]), ['select', 'select_from', 'update', 'delete_from', 'insert']) if r.random() < 0.4 else None
    tasks = []
    for _ in range(r.randint(2, 4)):
        progs = []
        for _ in range(r.randint(1, 2)):
            if tmpl and r.random() < 0.6:
                progs.append({'tmpl': 1, 'ops': g.ops(tmpl['kind'], r.randint(1, 3))})
            else:
                progs.append(dict(one(), tmpl=0))
        tasks.append({'progs': progs, 'render': r.choice([0, 0, 1]),
                      'die': r.randint(5, 900) if r.random() < 0.15 else None})
    sched = gen_sched(r)
    if any(h['kind'] for h in history) or any(t['die'] for t in tasks):
        sched['opcode'] = False
    return dict(backend=b, gc=r.random() < 0.4, history=history, flood=flood, tmpl=tmpl, tasks=tasks, sched=sched)


def do(prog, env, tmpl, render):
    q = tmpl.copy() if prog.get('tmpl') and tmpl is not None else spec.new_query(prog, env) if 'kind' in prog else env.sp.select('a')
    log = []
    for op in prog.get('ops', ()):
        log.append(spec.outcome(lambda: (spec.apply(q, op, env), None)[1]))
        if render:
            spec.text(q)
    return [log, spec.text(q), spec.outcome(lambda: repr(q)), spec.text(q)]


def ref(case, prog):
    env = start(case)
    tmpl = spec.build(case['tmpl'], env)[0] if prog.get('tmpl') and case['tmpl'] else None
    return do(prog, env, tmpl, 0)


def flood_query(env, w, i, name):
    sp = env.sp
    if w == 'name':
        return sp.select(name).from_('t')
    if w == 'alias':
        return sp.select_from(('t', name))
    if w == 'fail':
        q = sp.update('t').set('a', name)
        spec.outcome(lambda: q.where(a=object()))
        return q.where('b', i)
    return sp.select_from('t').where('a', {'int': i, 'str': name, 'float': i + 0.5, 'list': [i, name], 'in': sp.relations.IN(i, name)}[w])


def flood(f, env):
    """Many short-lived queries, each different; returns the first that is not what the same calls alone give."""
    for i in range(f['n']):
        name = '%s%d' % ('n' * f['len'], i)
        for w in f['what']:
            got = spec.text(flood_query(env, w, i, name))
            if got[0] != 'ok' or got[1] != f['alone'][w].replace('987654321', str(i)).replace('NAME', name):
                return [w, i, got]
    return None


def flood_ref(case):
    """Texts with the number and the name left open."""
    env = start(case)
    return {w: str(flood_query(env, w, 987654321, 'NAME')) for w in case['flood']['what']}


def simulate(case):
    env = start(case)
    fired = []
    if case.get('flood'):
        bad = flood(case['flood'], env)
        if bad:
            return dict(flood=bad)
        if case.get('gc'):
            gc.collect()
    for h in [h for h in case['history'] for _ in range(h.get('times', 1))]:
        tr = Tracer()
        tr.start()
        try:
            if h['kind']:
                tr.arm(h['n'], h['kind'])
            q, _ = spec.build(h['prog'], env)
            for _ in range(h['render']):
                spec.text(q)
                spec.look(q, h['look'], env)
        except (kernel.SimInterrupt, kernel.SimMemoryError):
            pass
        finally:
            tr.stop()
        if tr.fired:
            fired.append(h['kind'])
        q = None
        if case.get('gc'):
            gc.collect()
    tmpl = spec.build(case['tmpl'], env)[0] if case['tmpl'] else None

    def fn_of(t):
        def fn(task):
            res = []
            if t['die']:
                task.tracer.arm(t['die'], 'interrupt')
            for prog in t['progs']:
                try:
                    o = do(prog, env, tmpl, t['render'])
                except kernel.SimInterrupt:
                    o = None
                if task.tracer.fired:
                    fired.append('killed-thread')
                    res.append(None)
                    return res
                res.append(o)
                if case.get('gc'):
                    gc.collect()
            return res
        return fn
    sim = Sim([fn_of(t) for t in case['tasks']], case['sched'], cover=cover_set(globals()))
    res = sim.run()
    return sim_result(sim, res, fired=fired, tmpl=spec.text(tmpl) if tmpl is not None and not sim.aborted else None)


def ref_tmpl(case):
    env = start(case)
    return spec.text(spec.build(case['tmpl'], env)[0])


def execute(case):
    if not case['tasks']:
        return {}
    if case.get('flood'):
        case = dict(case, flood=dict(case['flood'], alone=forked(flood_ref, case)))
    out = forked(simulate, case)
    if out.get('flood'):
        w, i, got = out['flood']
        return finish(case, {'hash': case_hash(case), 'switches': []}, vio('query-depends-on-others', what=w, number=i, alone=case['flood']['alone'][w], got=got))
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    else:
        for i, (t, res) in enumerate(zip(case['tasks'], out['results'])):
            for j, o in enumerate(res):
                if o is None or v is not None:
                    continue
                want = forked(ref, case, t['progs'][j])
                if o != want:
                    v = vio('query-depends-on-others', task=i, program=t['progs'][j], alone=want, together=o)
        if v is None and case['tmpl']:
            want = forked(ref_tmpl, case)
            if want != out['tmpl']:
                v = vio('template-changed', expected=want, got=out['tmpl'])
    return finish(case, out, v, {'faults': count(out['fired'])}, log=out['results'], nontrivial=out['nswitch'] > 0)
