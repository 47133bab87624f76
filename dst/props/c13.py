"""C13: code running in the middle of library code may itself use the library."""
from dst import spec, kernel
from dst.kernel import Tracer, Sim, forked
from .common import *

ID = 'C13'
RUNS = {'quick': 5500, 'thorough': 150000}
WANT_COVER = False
RULE = ('one run = outer calls (rendering, inspecting, copying or building) with nested library use (building and rendering other queries, '
        'rendering the query being worked on) started at a seeded source line, from a caller-supplied SQL object, or from the body of a '
        'generator argument; distinct = distinct case; non-trivial = the nested code really ran')
STUBS = ['signal handler / finaliser: nested call made by the trace function', 'user SQL object and generator that call back']
HOOK = 'h'


def hookify(r, x):
    """User SQL objects and generators of the spec call back into the library."""
    if isinstance(x, list):
        if x and x[0] == 'to':
            return ['to', x[1], None, 'Boom', HOOK]
        if x and x[0] in ('gen', 'it') and isinstance(x[1], list):
            return [x[0], x[1], None, 'Boom', HOOK]
        return [hookify(r, y) for y in x]
    if isinstance(x, dict):
        return {k: hookify(r, v) for k, v in x.items()}
    return x


def plain(x):
    """No callbacks in the nested work itself."""
    return json.loads(json.dumps(x).replace('["to",', '["C",'))


def gen_nested(r, g, outer):
    out = []
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < 0.7:
            out.append({'prog': plain(g.program(r.choice([1, 2, 4]))), 'rd': r.choice([['str'], ['str'], ['repr'], ['copy'], ['from'], ['sorted']])})
        else:
            out.append({'same': spec.gen_look(r, outer['kind'])})
    return out


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    g.fulljoin = True
    prog = g.part() if r.random() < 0.1 else g.program(r.choice([2, 3, 5, 8]))
    if r.random() < 0.4 and prog['kind'] not in ('insert', 'union', 'value'):
        prog['ops'] += g.join_ops_nofull()
    if r.random() < 0.5 and prog['kind'] not in ('insert', 'union', 'value'):
        prog['ops'].append({'m': 'where', 'f': 'kw', 'items': [['a', r.choice([['to', 'MYFN()'], ['rel', 'IN', ['gen', [1, 2, 'x']]], ['gen', [3, 'y']]])], ['b', 1]]})
    prog = hookify(r, prog)
    g2 = spec.Gen(r, b, depth=1)
    acts = []
    n = len(prog.get('ops', ()))
    for i in range(n):
        if r.random() < 0.3:
            acts.append({'at': i, 'op': True, 'frac': r.random(), 'by': r.choice(['line', 'line', 'hook']), 'nested': gen_nested(r, g2, prog)})
    for _ in range(r.choice([1, 2, 3])):
        acts.append({'at': n, 'rd': spec.gen_look(r, prog['kind']), 'frac': r.random(), 'by': r.choice(['line', 'line', 'hook']),
                     'nested': gen_nested(r, g2, prog)})
    if r.random() < 0.25 and not g.longlists:       # the same look again and again, interrupted elsewhere each time
        rd, nested = spec.gen_look(r, prog['kind']), gen_nested(r, spec.Gen(r, b, depth=1), prog)[:1]
        acts += [{'at': n, 'rd': rd, 'frac': x, 'by': 'line', 'nested': nested} for x in spread(r, r.choice([8, 20]))]
    return dict(backend=b, prog=prog, acts=acts)


def nested_of(case):
    return [nd for act in case['acts'] for nd in act['nested']]


def ref(case):
    """Outer calls alone (and how many lines they take); same-query nested looks made before and after."""
    env = start(case)
    env.hooks_on = False
    twin, _ = spec.build(case['prog'], env)
    q = spec.new_query(case['prog'], env)
    ops = case['prog'].get('ops', ())
    res, steps, same = [], [], []
    log = []

    def traced(fn):
        tr = Tracer(trail=[])
        tr.start()
        try:
            return spec.outcome(fn), tr
        finally:
            tr.stop()

    def sames(act):
        return [spec.look(q, nd['same'], env, twin) if 'same' in nd else None for nd in act['nested']]

    for i in range(len(ops) + 1):
        act = next((a for a in case['acts'] if a.get('op') and a['at'] == i), None)
        if i < len(ops):
            before = sames(act) if act else None
            o, tr = traced(lambda: (spec.apply(q, ops[i], env), None)[1])
            log.append(o)
            if act:
                same.append([before, sames(act)])
                res.append(o)
                steps.append(kernel.pick_point(tr.trail, act['frac']))
    for act in case['acts']:
        if not act.get('op'):
            s = sames(act)
            tr = Tracer(trail=[])
            tr.start()
            try:
                o = spec.look(q, act['rd'], env, twin)
            finally:
                tr.stop()
            res.append(o)
            steps.append(kernel.pick_point(tr.trail, act['frac']))
            same.append([s, s])
    return dict(log=log, res=res, steps=steps, same=same, snap=snapshot(q, env))


def refnested(case):
    """Each nested piece of work alone."""
    out = []
    for nd in nested_of(case):
        if 'same' in nd:
            out.append(None)
            continue
        env = start(case)
        env.hooks_on = False
        q, log = spec.build(nd['prog'], env)
        out.append([log, spec.look(q, nd['rd'], env), spec.text(q)])
    return out


def simulate(case, steps):
    env = start(case)
    env.hooks_on = False
    ienv = spec.Env(sp())
    ienv.hooks_on = False
    twin, _ = spec.build(case['prog'], env)
    q = spec.new_query(case['prog'], env)
    ops = case['prog'].get('ops', ())
    acts = {a['at']: a for a in case['acts'] if a.get('op')}
    order = [a for a in case['acts'] if a.get('op')]
    looks = [a for a in case['acts'] if not a.get('op')]
    idx = {id(a): i for i, a in enumerate(order + looks)}
    log, res, nested, late = [], [], [], []
    fired = []
    deadlock = []
    tr = Tracer(cover=cover_set(globals()))

    def with_nested(act, fn):
        got = []
        ran = []

        def work():
            if ran:
                return
            ran.append(1)
            env.hooks_on = False
            for nd in act['nested']:
                if 'same' in nd:
                    got.append(['same', spec.look(q, nd['same'], env, twin)])
                else:
                    iq, ilog = spec.build(nd['prog'], ienv)
                    got.append(['other', [ilog, spec.look(iq, nd['rd'], ienv), spec.text(iq)]])
                    late.append([iq, got[-1][1][2]])
        if act['by'] == 'hook':
            env.hooks_on = True
            env.hook = lambda s: work()
            tr.in_nested = True
            tr.start()
            o = spec.outcome(fn)
            tr.stop()
            env.hooks_on = False
            env.hook = None
        else:
            tr.arm_nested(steps[idx[id(act)]], work)
            tr.start()
            o = spec.outcome(fn)
            tr.stop()
            tr.nested_at = -1
        if ran:
            fired.append(act['by'])
        nested.append(got if ran else None)
        if o[1] == 'SimDeadlock' or any(x[1] == ['exc', 'SimDeadlock'] for x in got):
            deadlock.append(act['by'])
        return o

    for i in range(len(ops)):
        fn = lambda: (spec.apply(q, ops[i], env), None)[1]
        act = acts.get(i)
        if act is None:
            log.append(spec.outcome(fn))
        else:
            o = with_nested(act, fn)
            log.append(o)
            res.append(o)
    for act in looks:
        box = []
        o = with_nested(act, lambda: box.append(spec.look(q, act['rd'], env, twin)))
        res.append(box[0] if box else o)
    late = [[a, spec.text(x)] for x, a in late]
    return dict(log=log, res=res, nested=nested, fired=fired, deadlock=deadlock, late=late, snap=snapshot(q, env), steps=tr.steps,
                hash=case_hash(case), cover=sorted(tr.cover or ()))


def execute(case):
    if not case['acts']:
        return {}
    # one act per operation, operations first: the order both executions use
    seen = {}
    for a in case['acts']:
        if a.get('op') and a['at'] < len(case['prog'].get('ops', ())):
            seen.setdefault(a['at'], a)
    case = dict(case, acts=[seen[i] for i in sorted(seen)] + [a for a in case['acts'] if not a.get('op')])
    want = forked(ref, case)
    wn = forked(refnested, case)
    out = forked(simulate, case, want['steps'])
    v = None
    if out['deadlock']:
        v = vio('no-progress', why='nested call waits for ever', by=out['deadlock'][0])
    elif out['log'] != want['log'] or out['res'] != want['res']:
        v = vio('outer-call-disturbed', expected=[want['log'], want['res']], got=[out['log'], out['res']])
    else:
        j = 0
        for a, (act, got) in enumerate(zip(case['acts'], out['nested'])):
            for k, nd in enumerate(act['nested']):
                w, j = wn[j], j + 1
                if got is None or v is not None:
                    continue
                if len(got) <= k:
                    v = vio('nested-work-cut-short', act=act)
                elif 'same' in nd:
                    before, after = (want['same'][a][m][k] for m in (0, 1))
                    if got[k][1] in (before, after):
                        continue
                    # during a building call some of its items may already be there
                    if act.get('op') and (got[k][1][0] == 'ok' or not before[0] == after[0] == 'ok'):
                        continue
                    v = vio('nested-look-wrong', look=nd['same'], expected=[before, after], got=got[k][1])
                elif got[k][1] != w:
                    v = vio('nested-work-disturbed', expected=w, got=got[k][1])
        if v is None and out['snap'] != want['snap']:
            v = vio('outer-query-disturbed', expected=want['snap'], got=out['snap'])
        if v is None:
            for a, b in out['late']:
                if a != b and v is None:
                    v = vio('nested-query-disturbed', expected=a, got=b)
    return finish(case, out, v, {'faults': count('nested-at-' + x for x in out['fired']), 'kinds': {case['prog']['kind']: 1}},
                  log=[out['res'], out['snap']], nontrivial=bool(out['fired']))
