"""C11: the caller's containers are neither modified nor kept."""
import random
from dst import spec, kernel
from dst.kernel import Sim, forked
from .common import *

ID = 'C11'
RUNS = {'quick': 8800, 'thorough': 240000}
WANT_COVER = False
RULE = ('one run = argument containers (dicts, lists, nested) are made once; either several threads build their own queries from the very '
        'same containers under a seeded schedule, or one builds and the simulated caller changes each container as soon as the call that '
        'took it has returned; containers must be untouched by the library and the queries untouched by the caller; distinct = distinct '
        'event-sequence hash; non-trivial = at least one container was passed')
STUBS = ['caller mutating its containers']
KINDS = ['select', 'select', 'select_from', 'insert', 'update', 'delete_from', 'delete']
JOINS = ['join', 'inner_join', 'left_join', 'right_join', 'full_join']


def nest(r, x):
    """More containers: nested lists in membership lists, lists of columns in functions."""
    if isinstance(x, dict):
        return {k: nest(r, v) for k, v in x.items()}
    if isinstance(x, list):
        if x and x[0] == 'l' and len(x) == 2 and isinstance(x[1], list) and r.random() < 0.3:
            return ['l', [r.choice([['l', [1, 2]], ['tup', [1, ['l', ['a', 5]]]], ['l', list(range(r.choice([3, 9, 40])))], ['l', [['l', [3]], 4]]]) for _ in range(r.randint(1, 2))]]
        if x and x[0] == 'fn' and len(x) == 3 and isinstance(x[2], str) and x[1] in ('sum', 'avg', 'min', 'max', 'count') and r.random() < 0.6:
            return ['fn', x[1], ['l', [x[2]] + r.choice([[], ['b'], ['b'], ['b', 'c', 'd'], ['b'] + ['c%d' % i for i in range(r.randint(2, 20))]])]]
        if x and x[0] in ('fn', 'gc'):
            return x
        if x and x[0] in ('Q', 'not') and len(x) == 2 and r.random() < 0.5:
            return [r.choice(['notd', 'notl'] if x[0] == 'not' else ['Qd', 'Ql']), nest(r, x[1])]
        if x and x[0] == 'V' and r.random() < 0.3:
            return ['V', ['l', [1, ['l', ['x', 2]]]]]
        return [nest(r, y) for y in x]
    return x


def own_kinds(r, x):
    """The caller's own kinds of containers."""
    if isinstance(x, dict):
        return {k: own_kinds(r, v) for k, v in x.items()}
    if isinstance(x, list):
        y = [own_kinds(r, v) for v in x]
        if len(y) == 3 and y[0] == 'rel' and y[1] in ('IN', 'NOT_IN') and isinstance(y[2], list) and y[2] and y[2][0] in ('l', 'set') and r.random() < 0.5:
            return y[:2] + [[r.choice(['ls', 'dq'] if y[2][0] == 'l' else ['ss']), y[2][1]]]
        if len(y) == 2 and y[0] == 'V' and isinstance(y[1], list) and y[1] and y[1][0] in ('l', 'set') and r.random() < 0.5:
            return ['V', [{'l': 'ls', 'set': 'ss'}[y[1][0]], y[1][1]]]
        if len(y) == 2 and y[0] == 'l' and isinstance(y[1], list) and r.random() < 0.2:
            return ['ls', y[1]]
        if len(y) == 2 and y[0] == 'dict' and r.random() < 0.3:
            return ['dd', y[1]]
        return y
    return x


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, streams=False, user=False, sets=True)
    g.fulljoin = True
    prog = g.program(r.choice([1, 2, 4, 6]), KINDS)
    if r.random() < 0.06:
        v = r.choice([['fn', r.choice(['sum', 'avg', 'count', 'min_distinct']), ['l', ['a', 'b']]], ['V', ['l', [1, 2, ['l', [3]]]]], ['Ql', [['a', ['l', [1, 2]]], ['b', 2]]],
                      ['Qd', [['a', ['l', [1, 2]]], ['b', 2]]], ['notd', [['a', ['l', [1, 2]]]]], ['rel', 'IN', ['l', [1, ['l', [2]]]]], ['gc', [['l', ['a', 'x']]], [['l', ['b', 'desc']]], None]])
        prog = {'kind': 'value', 'v': v, 'ops': []}
        for _ in range(r.randint(0, 2)):
            if v[0] == 'fn':
                prog['ops'].append(spec.expr_op(r, g))
            elif v[0] in ('Ql', 'Qd'):
                prog['ops'].append(g.where_op())
            elif v[0] == 'gc':
                prog['ops'].append({'m': 'order_by', 'f': 'lists', 'items': [['b', 'asc'], ['c', 'desc']]})
    if r.random() < 0.4 and prog['kind'] not in ('insert', 'value'):
        prog['ops'] += g.join_ops_nofull()
    if prog['kind'] == 'insert' and r.random() < 0.5:
        prog['ops'] += g.odku()
    prog['ops'] = [o if o['m'] == 'expr=' else nest(r, o) for o in prog['ops']]
    for o in prog['ops']:
        if o.get('f') == 'kw' and r.random() < 0.5:
            o['f'] = 'dict'
        if o.get('f') == 'dict' and len(o['items']) > 1 and r.random() < 0.15:
            o.update(f='dictkw', n=r.randint(0, len(o['items']) - 1))
        if o.get('f') == 'mixed' and o['m'] in ('columns', 'from_', 'order_by', 'group_by') and r.random() < 0.4:
            o['f'] = 'lists'
        if o['m'] in JOINS and isinstance(o['a'][0], list) and o['a'][0][0] == 'tup' and r.random() < 0.5:
            o['a'] = [['l', o['a'][0][1]]]
        if o.get('f') in ('dict', 'dictkw', 'listpairs', 'lists') and r.random() < 0.12:
            o['cls'] = r.choice([1, 2])
    if r.random() < 0.15:
        prog['ops'] = [own_kinds(r, o) for o in prog['ops']]
    tasks = [{'reps': r.choice([1, 1, 2])} for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    return dict(backend=b, prog=prog, tasks=tasks, early=r.random() < 0.5, mut=r.getrandbits(32), render=r.random() < 0.3, sched=gen_sched(r))


def freeze(c):
    if isinstance(c, dict):
        return ['d', [[id(k), id(v)] for k, v in dict.items(c)]]
    if isinstance(c, set):
        return ['s', sorted(id(x) for x in c)]
    return ['l', [id(x) for x in c]]


def spoil(c, r):
    """The caller goes on using its container."""
    x = r.random()
    if isinstance(c, dict):
        if x < 0.3:
            c.clear()
        elif x < 0.6 and c:
            c[next(iter(c))] = 'zz9'
        else:
            c['zz9'] = 'zz8'
    elif isinstance(c, set):
        if x < 0.4:
            c.clear()
        c.add('zz9')
    else:
        if x < 0.3:
            c.clear()
        elif x < 0.6 and c:
            c[r.randrange(len(c))] = 'zz9'
        elif x < 0.8:
            c.append('zz9')
        else:
            c.reverse()
            c.insert(0, 'zz7')


def ref(case):
    env = start(case)
    q, log = spec.build(case['prog'], env)
    return [log, snapshot(q, env)]


def simulate(case):
    env = start(case)
    env.keep = True
    many = len(case['tasks']) > 1
    r = random.Random(case['mut'])
    touched = []
    prog = case['prog']
    if many:
        calls = []
        for op in prog['ops']:
            o = spec.outcome(lambda: calls.append((op['m'], spec.call_args(op, env))))
            if o[0] != 'ok':
                calls.append((None, o[1]))
        before = [(c, freeze(c)) for c in env.containers]
        queries = []

        def fn_of(t):
            def fn(task):
                logs = []
                for _ in range(t['reps']):
                    q = spec.new_query(prog, env)
                    queries.append(q)
                    log = []
                    for m, a in calls:
                        if m is None:
                            log.append(a)
                            continue
                        o = spec.outcome(lambda: (spec.call(q, m, *a), None)[1])
                        log.append('ok' if o[0] == 'ok' else o[1])
                    logs.append([log, spec.text(q) if case['render'] else None])
                return logs
            return fn
        sim = Sim([fn_of(t) for t in case['tasks']], case['sched'], cover=cover_set(globals()))
        res = sim.run()
        if sim.aborted:
            return sim_result(sim, res)
        touched = [i for i, (c, f) in enumerate(before) if freeze(c) != f]
        ncont = len(env.containers)
        for c in env.containers:
            spoil(c, r)
        snaps = [snapshot(q, env) for q in queries]
        return sim_result(sim, res, logs=[l[0] for t in res for l in t], touched=touched, snaps=snaps, ncont=ncont)
    o = spec.outcome(lambda: spec.ctor_args(prog, env))
    before = [(c, freeze(c)) for c in env.containers]
    q = spec.new_query(prog, env, o[1] if o[0] == 'ok' else None)
    log = []
    touched += [i for i, (c, f) in enumerate(before) if freeze(c) != f]
    ncont = len(before)
    for c in env.containers:
        spoil(c, r)
    for op in prog['ops']:
        env.containers, env.inner = [], []
        o = spec.outcome(lambda: spec.call_args(op, env))
        if o[0] != 'ok':
            log.append(o[1])
            continue
        args, kw = o[1]
        ncont += len(env.containers)
        if case['early']:
            inner = {id(c) for c in env.inner}
            for c in env.containers:
                if id(c) in inner:
                    spoil(c, r)
        before = [(c, freeze(c)) for c in env.containers]
        o = spec.outcome(lambda: (spec.call(q, op['m'], args, kw), None)[1])
        log.append('ok' if o[0] == 'ok' else o[1])
        touched += [i for i, (c, f) in enumerate(before) if freeze(c) != f]
        if case['render']:
            spec.text(q)
            touched += [i for i, (c, f) in enumerate(before) if freeze(c) != f]
        for c in env.containers:
            spoil(c, r)
    return dict(logs=[log], touched=touched, snaps=[snapshot(q, env)], ncont=ncont, aborted=None, switches=[], hash=case_hash(case),
                steps=len(log), nswitch=0)


def execute(case):
    if not case['tasks']:
        return {}
    want = forked(ref, case)
    out = forked(simulate, case)
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    elif out['touched']:
        v = vio('container-modified', which=out['touched'][:4])
    else:
        for log, snap in zip(out['logs'], out['snaps']):
            if log != want[0] and v is None:
                v = vio('shared-container-call-differs', expected=want[0], got=log)
            elif snap != want[1] and v is None:
                v = vio('container-kept', expected=want[1], got=snap)
    return finish(case, out, v, {'faults': {'container-mutated-by-caller': out.get('ncont', 0)}, 'kinds': {case['prog']['kind']: 1}},
                  log=out.get('snaps'), nontrivial=out.get('ncont', 0) > 0)
