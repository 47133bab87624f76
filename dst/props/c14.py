"""C14: clauses may be given in any order."""
from dst import spec, kernel
from dst.kernel import forked
from .common import *
from . import c04

ID = 'C14'
RUNS = {'quick': 14000, 'thorough': 210000}
WANT_COVER = False
RULE = ('one run = several contributors, each owning one clause of one query, with some contributions refused; their calls are merged by 3 seeded '
        'schedules (each keeps the order within a contributor), with renderings, comparisons and changes to a copy in between; every call outcome '
        'and the finished query are compared with the contributors working one after the other in a fresh process; distinct = distinct case; '
        'non-trivial = at least two contributors and a schedule that differs from the reference order')
STUBS = ['contributors are simulated as sequences of calls merged by the seeded scheduler; a call is atomic here']
EXCL = [['sql_cache', 'sql_no_cache'], ['all', 'distinct', 'distinctrow']]
SINGLE = ['sql_small_result', 'sql_big_result', 'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority', 'for_update', 'ignore']
OUT = ['into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by']


def pos(m, *a):
    return {'m': m, 'f': 'pos', 'a': list(a)}


def flag(r, ms):
    return [pos(r.choice(ms), *r.choice([[], [], [True], [False]])) for _ in range(r.choice([1, 1, 2]))]


def limits(r):
    return [r.choice([pos('limit', *r.choice([[5], [7, 3], [None], [2, None], [0], [10 ** 9, 3]])), pos('offset', r.choice([0, 4, None]))])
            for _ in range(r.choice([1, 1, 2]))]


def many(r, f):
    return [f() for _ in range(r.choice([1, 1, 2, 3]))]


def clauses(r, g, kind):
    """name -> maker of the calls that fill this clause"""
    joins = g.join_ops_nofull if kind in ('update', 'delete') else g.join_ops
    if kind == 'select':
        d = {'columns': lambda: many(r, g.columns_op),
             'tables': lambda: [g.from_op(r.choice(['from_', 'from_tables']))] + (joins() if r.random() < 0.6 else [])
             + ([g.from_op()] + (joins() if r.random() < 0.3 else []) if r.random() < 0.3 else []),
             'where': lambda: many(r, g.where_op), 'having': lambda: many(r, lambda: g.where_op('having')),
             'group_by': lambda: many(r, lambda: g.order_op('group_by')), 'order_by': lambda: many(r, lambda: g.order_op('order_by')),
             'limit': lambda: limits(r)}
        for m in OUT:
            d[m] = lambda m=m: [pos(m, r.choice(['/tmp/x', ',', "'", '\\']))]
        for ms in EXCL:
            d[ms[0]] = lambda ms=ms: flag(r, ms)
        for m in SINGLE[:-1]:
            d[m] = lambda m=m: flag(r, [m])
        return d
    if kind == 'insert':
        return {'into': lambda: many(r, lambda: pos('into', r.choice(g.tabs))),
                'values': lambda: many(r, lambda: g.pairs_op('values', lambda: r.choice(g.cols), g.set_value, ['kw', 'dict', 'listpairs', 'mixed'])),
                'ignore': lambda: flag(r, ['ignore']), 'upsert': g.odku}
    consent = ['allow_%s_all' % kind, 'forbid_%s_all' % kind]
    d = {'where': lambda: many(r, g.where_op), 'consent': lambda: many(r, lambda: pos(r.choice(consent))), 'ignore': lambda: flag(r, ['ignore'])}
    if kind == 'update':
        d['tables'] = lambda: [pos('table', r.choice(g.tabs))] + (joins() if r.random() < 0.6 else [])
        d['set'] = lambda: many(r, lambda: g.pairs_op('set', lambda: r.choice(g.cols), g.set_value, ['kw', 'dict', 'listpairs', 'mixed', 'two']))
        return d
    if kind == 'delete':
        d['delete'] = lambda: many(r, lambda: pos('delete', r.choice(g.tabs)))
        d['references'] = lambda: [g.from_op(r.choice(['from_', 'from_tables']))] + (joins() if r.random() < 0.6 else [])
        return d


def alike(r, actors):
    """The same items in two clauses."""
    pairs = [(a, b) for a, b in (('where', 'having'), ('having', 'where'), ('group_by', 'order_by'), ('order_by', 'group_by'), ('set', 'where'),
                                 ('values', 'upsert'), ('columns', 'group_by'), ('delete', 'references')) if a in actors and b in actors]
    if not pairs:
        return
    a, b = r.choice(pairs)
    ops = json.loads(json.dumps(actors[a]))
    if a == 'columns':
        ops = [{'m': b, 'f': 'mixed', 'items': [it[:1] for op in ops for it in op['items'] if isinstance(it[0], str)] or [['a']]}]
    elif a == 'delete':
        ops = [{'m': 'from_', 'f': 'mixed', 'items': [[op['a'][0]] for op in ops]}]
    elif a == 'values':
        ops = [{'m': 'on_duplicate_key_update', 'f': op['f'], 'items': op['items']} for op in ops if 'items' in op] if actors[b][0].get('items') else actors[b]
    for op in ops:
        if op['m'] in ('where', 'having', 'group_by', 'order_by', 'set'):
            op['m'] = b
    actors[b] = ops if r.random() < 0.6 else ops + actors[b]


def other(r, g, kind):
    if kind == 'union':
        return ({'kind': 'union', 'op': r.choice('&|'), 'l': g.small_select(), 'r': g.small_select(), 'ops': []},
                {'query1': [pos('query1=', ['sub', g.small_select()])], 'query2': [pos('query2=', ['sub', g.small_select()])],
                 'type': [pos('union_type=', r.choice(['UNION', 'UNION ALL']))]})
    if kind == 'gc':
        return ({'kind': 'value', 'v': ['gc', [r.choice(g.kcols)], [], None], 'ops': []},
                {'order_by': [{'m': 'order_by', 'f': 'mixed', 'items': [[r.choice(g.kcols), r.choice(['asc', 'desc'])]]} for _ in range(r.choice([1, 2]))],
                 'separator': [pos('separator', r.choice(['-', '+', "'"]))]})
    if kind == 'convert':
        return ({'kind': 'value', 'v': ['fn', 'convert', 'a', 'char'], 'ops': []},
                {'expr': [spec.expr_op(r, g)], 'to': [pos('to', r.choice(['signed', 'date', 'binary']))]})
    return ({'kind': 'value', 'v': ['fn', r.choice(['sum', 'avg', 'count', 'max', 'min']), 'a'], 'ops': []},
            {'expr': [spec.expr_op(r, g)], 'distinct': flag(r, ['distinct'])})


def refused(r, g, ops):
    for _ in range(5):
        op = c04.corrupt(r, r.choice(ops), g)
        if '"fC"' not in json.dumps(op):
            return op
    return None


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    g.fulljoin = True
    kind = r.choice(['select'] * 8 + ['insert'] * 3 + ['update'] * 4 + ['delete'] * 4 + ['union', 'gc', 'convert', 'agg'])
    if kind in ('union', 'gc', 'convert', 'agg'):
        prog, actors = other(r, g, kind)
    else:
        d = clauses(r, g, kind)
        names = sorted(d)
        main = [n for n in names if n in ('columns', 'tables', 'where', 'having', 'group_by', 'order_by', 'limit', 'values', 'set', 'into', 'upsert',
                                          'references', 'delete', 'consent')]
        pick = set(r.sample(main, r.randint(2, len(main)))) | set(r.sample(names, r.choice([0, 1, 2, min(6, len(names))])))
        actors = {n: d[n]() for n in sorted(pick)}
        if r.random() < 0.3:
            alike(r, actors)
        ctor = []
        if kind == 'select' and r.random() < 0.4:
            ctor = [g.column()]
        elif kind in ('update', 'delete') and r.random() < 0.7:
            ctor = [r.choice(g.tabs)]
        prog = {'kind': kind, 'ctor': ctor, 'ops': []}
        if kind in ('select', 'delete') and r.random() < 0.3:
            prog = {'kind': kind + '_from' if kind == 'delete' else 'select_from', 'ctor': [r.choice(g.tabs)], 'ops': []}
    for n in sorted(actors):
        if r.random() < 0.12:
            op = refused(r, g, actors[n])
            if op:
                actors[n].insert(r.randint(0, len(actors[n])), op)
    names = list(actors)
    r.shuffle(names)                                # the reference order is as good as any other
    acts = [{'who': n, 'ops': actors[n]} for n in names]
    plans = []
    for _ in range(3):
        order = [i for i, a in enumerate(acts) for _ in a['ops']]
        if r.random() < 0.4:                        # one after the other, in another order
            p = list(range(len(acts)))
            r.shuffle(p)
            order.sort(key=lambda i: p.index(i))
        else:
            r.shuffle(order)
        seen = r.choice([0, 0, 0.2])
        plan = []
        for i in order:
            plan.append([i])
            if r.random() < seen:
                plan.append(r.choice([['look', ['str']], ['look', ['eq']], ['look', ['repr']], ['look', ['hash']], ['look', ['copy']], ['copy']]))
        plans.append({'plan': plan})
    return dict(backend=b, prog=prog, acts=acts, variants=plans)


def one(case, env, plan):
    q = spec.new_query(case['prog'], env)
    at = [0] * len(case['acts'])
    log = [[] for _ in case['acts']]

    def step(i):
        ops = case['acts'][i]['ops']
        if at[i] < len(ops):
            log[i].append(spec.outcome(lambda: (spec.apply(q, ops[at[i]], env), None)[1]))
            at[i] += 1
    for e in plan:
        if e[0] == 'look':
            spec.look(q, e[1], env)
        elif e[0] == 'copy':
            o = spec.outcome(lambda: q.copy())
            if o[0] == 'ok':
                q = o[1]
        elif e[0] < len(at):
            step(e[0])
    for i, a in enumerate(case['acts']):            # what a shortened schedule left out
        while at[i] < len(a['ops']):
            step(i)
    return q, log


def same(a, b):
    return [spec.outcome(lambda: bool(a == b)), spec.outcome(lambda: bool(b == a)), spec.outcome(lambda: bool(a != b))]


def ref(case):
    env = start(case)
    q, log = one(case, env, [])
    q2, _ = one(case, env, [])
    return [log, snapshot(q, env), same(q, q2)]


def simulate(case, plan):
    env = start(case)
    q, log = one(case, env, plan)
    snap = snapshot(q, env)
    q2, _ = one(case, env, [])
    return [log, snap, same(q, q2)]


def execute(case):
    want = forked(ref, case)
    v, logs = None, []
    for p in case['variants']:
        got = forked(simulate, case, p['plan'])
        logs.append(got)
        if got != want and v is None:
            i = [k for k in range(3) if got[k] != want[k]][0]
            v = vio(['call-outcome-depends-on-order', 'query-depends-on-order', 'equality-depends-on-order'][i], clauses=[a['who'] for a in case['acts']],
                    schedule=p['plan'], one_after_another=want[i], interleaved=got[i])
    moved = any([e[0] for e in p['plan'] if isinstance(e[0], int)] != sorted(e[0] for e in p['plan'] if isinstance(e[0], int)) for p in case['variants'])
    nref = sum(o[0] != 'ok' for a in want[0] for o in a)
    stats = {'kinds': {case['prog']['kind']: 1}, 'clauses': count(a['who'] for a in case['acts']), 'faults': {'refused-call': nref},
             'steps': sum(len(p['plan']) for p in case['variants'])}
    return finish(case, {'hash': case_hash(case)}, v, stats, log=want, nontrivial=moved and len(case['acts']) > 1)
