"""C04: a building call that raises changes nothing."""
from dst import spec, kernel
from dst.kernel import forked
from .common import *

ID = 'C04'
RUNS = {'quick': 27500, 'thorough': 750000}
WANT_COVER = False
RULE = ('one run = a building history in which some calls are made to fail (invalid item at a seeded position and form; stream, list, '
        'mapping, key comparison or user object failing at the k-th read) and building goes on; the query is compared after every failure '
        'and at the end with the same history without the failed calls; distinct = distinct case; non-trivial = at least one call raised')
STUBS = ['failing generators, iterators, lists, dicts, key comparisons and SQL objects supplied by the simulated caller']
EX = ['Boom', 'TypeError', 'ValueError', 'KeyError', 'AttributeError', 'OSError', 'KeyboardInterrupt', 'MemoryError', 'RuntimeError']
BADV = [['bad', 'obj'], ['bad', 'cls'], ['bad', 'cplx'], ['bad', 'set'], ['bad', 'dict']]
BADC = [['bad', 'obj'], ['bad', 'flt'], ['bad', 'bool'], ['bad', 'none'], ['bad', 'cplx'], ['bad', 'dict']]


def corrupt(r, op, g):
    """A failing version of op."""
    op = json.loads(json.dumps(op))
    m, f = op['m'], op.get('f', 'pos')
    if f == 'pos':
        if m == 'limit':
            op['a'] = r.choice([[5, ['bad', 'obj']], [6, 'x'], ['x'], [7, ['bad', 'flt']], [8, ['bad', 'bool']], [10 ** 9, 'x'], [0, ['bad', 'flt']], [['to', '5'], 3], [3, ['to', '4']]])
        elif m == 'on_duplicate_key_update' and g.backend == 'postgresql' and r.random() < 0.8:
            items = [[c, g.set_value()] for c in r.sample(spec.KCOLS, r.randint(1, 3))]
            k = r.randrange(len(items))
            items[k][1] = r.choice(BADV)
            op['a'] = [r.choice(spec.KCOLS), ['dict', items]]
        elif m in ('where', 'having', 'on') and r.random() < 0.6:
            op['a'] = r.choice([[g.q(1), ['bad', 'obj']], [['bad', 'obj']], ['a', 'b', 'c'], [g.q(1), g.q(1), 'a'], ['a', ['bad', 'obj']]])
        elif m in ('query1=', 'query2=', 'union_type='):
            op['a'] = [r.choice(['INTERSECT', 5, None, ['bad', 'obj'], 'union', ['l', ['UNION']]])]
        elif m.endswith('join'):
            op['a'] = [r.choice([5, ['bad', 'obj'], ['tup', ['t1', 5]], ['tup', ['t1', 'x', 'y']], ['dict', [['t1', ['bad', 'obj']]]],
                                 ['dict', [['t1', 'x'], ['t2', 'y']]], ['dict', [[['bad', 'flt'], 'x']]], ['l', []], None])]
            if m == 'full_join' or r.random() < 0.2:
                op['m'] = 'full_join' if g.backend != 'postgresql' else m
                op['a'] = ['t2'] if op['m'] == 'full_join' else op['a']
        else:
            a = op.setdefault('a', [])
            bad = r.choice(BADV + [5.5, ['tup', [1, 2, 3]], ['l', [['bad', 'obj']]], ['l', []], ['fC', 'x', r.randint(1, 2), r.choice(EX)]])
            if a and r.random() < 0.7:
                a[r.randrange(len(a))] = bad
            else:
                a.append(bad)
        return op
    items = op['items']
    x = r.random()
    k = r.randrange(len(items))
    if not items[k]:                                # already corrupted once
        items[k] = ['a', 1]
    if x < 0.3:                                     # bad value somewhere
        it = items[k]
        if m in ('order_by', 'group_by'):
            bad = r.choice(['sideways', 5, ['bad', 'obj'], ''])
        elif m in ('columns', 'from_', 'from_tables'):
            bad = r.choice([['bad', 'obj'], 5, ['bad', 'flt'], ['bad', 'bool'], ['l', ['a']]])
        else:
            bad = r.choice(BADV + [['rel', 'LIKE', 5], ['rel', 'GT', True], ['rel', 'IS', 3]])
        if len(it) > 1:
            it[1] = bad
        else:
            it.append(bad)
    elif x < 0.45 and f not in ('kw',):            # bad name somewhere
        items[k][0] = r.choice([c for c in BADC if c != ['bad', 'dict'] or f != 'dict'])
    elif x < 0.55 and f in ('mixed', 'lists', 'listpairs'):   # wrong arity
        items[k] = r.choice([[], ['a', 1, 2], ['a', 'b', 'c', 'd']] + ([['a']] if f == 'listpairs' else []))
    elif x < 0.7 and m in ('where', 'having', 'on'):          # failing stream
        n = r.randint(0, 4)
        st = [g.scalar() for _ in range(n)]
        v = ['gen', st, r.randint(0, n), r.choice(EX)]
        if r.random() < 0.5:
            v = ['rel', r.choice(['IN', 'NOT_IN']), [r.choice(['gen', 'it'])] + v[1:]]
        elif r.random() < 0.3:
            v = ['V', v]
        if len(items[k]) > 1:
            items[k][1] = v
        else:
            items[k].append(v)
    elif x < 0.8 and f in ('dict', 'kw') and all(len(it) > 1 for it in items):            # failing mapping
        op['f'] = 'fdict'
        op['fail_at'] = r.randint(0, len(items) - 1)
        op['exc'] = r.choice(EX)
        for it in items:
            if len(it) < 2:
                it.append(None)
    elif x < 0.88 and f == 'dict' and len(items) > 1:           # failing key comparison
        items[k][0] = ['fkey', 'zz', r.choice(EX)]
    elif x < 0.95 and f == 'listpairs':
        op['f'] = 'flist'
        op['fail_at'] = r.randint(0, len(items) - 1)
        op['exc'] = r.choice(EX)
    else:                                           # failing SQL object that is compared or rendered
        o = ['fC', r.choice(['x = 1', 'b']), r.randint(1, 3), r.choice(EX)]
        if m in ('order_by', 'group_by', 'columns'):
            if f != 'kw':
                items[k][0] = o
        elif len(items[k]) > 1 and m not in ('columns', 'from_', 'from_tables'):
            items[k][1] = o
        else:
            items[k] = ['a', ['bad', 'obj'], 3]
    return op


def collide(r, ops, g):
    """A failing call whose good items meet items that are already there; None when there are none."""
    src = [i for i, op in enumerate(ops) if op.get('items') and all(len(it) for it in op['items'])
           and op['m'] in ('order_by', 'group_by', 'columns', 'from_', 'from_tables', 'where', 'having', 'set', 'values', 'on_duplicate_key_update')]
    if not src:
        return None
    i = r.choice(src)
    op = json.loads(json.dumps(ops[i]))
    m, items = op['m'], [it[:2] for it in op['items']]
    r.shuffle(items)
    if m in ('order_by', 'group_by'):
        items = [[it[0], r.choice(['asc', 'desc'])] for it in items]
        bad, f = r.choice([['e', 'sideways'], [['bad', 'flt'], 'asc'], ['e', 5], ['e', 'asc', 'x']]), r.choice(['mixed', 'mixed', 'lists'])
    elif m in ('columns', 'from_', 'from_tables'):
        items = [[it[0], r.choice(spec.ALIASES)] if r.random() < 0.6 else it[:1] for it in items]
        bad, f = r.choice([['e', 5], [['bad', 'obj']], ['e', ['bad', 'obj']], ['e', 'x', 'y']]), 'mixed'
    else:
        items = [[it[0], twist(r, it[1], 0.6) if len(it) > 1 and r.random() < 0.5 else g.scalar()] for it in items]
        if all(isinstance(it[0], str) for it in items) and r.random() < 0.4:
            bad, f = ['zz', r.choice(BADV)], 'dict'
        else:
            bad, f = r.choice([['zz', ['bad', 'obj']], [['bad', 'flt'], 1], ['zz'], ['zz', ['gen', [1, 2], 1, r.choice(EX)]] if m in ('where', 'having') else ['zz', ['bad', 'cplx']]]), 'listpairs'
    items.insert(r.choice([len(items), len(items), r.randint(0, len(items))]), bad)
    return i + 1, {'m': m, 'f': f, 'items': items}


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    if r.random() < 0.07:
        return part_case(r, g, b)
    if r.random() < 0.04:
        b = r.choice(['postgresql', 'postgresql', 'mysql'])
        g = spec.Gen(r, b)
        prog = {'kind': 'insert', 'ctor': ['t1'], 'ops': [{'m': 'values', 'f': 'kw', 'items': [['a', 1]]}] + [o for _ in range(3) for o in g.odku()]}
        k = r.randint(1, 3)
        prog['ops'].insert(k, corrupt(r, r.choice(prog['ops'][1:]), g))
        return dict(backend=b, prog=prog)
    prog = g.program(r.choice([1, 2, 4, 6]), ['select', 'select', 'select_from', 'insert', 'update', 'delete_from', 'delete'] * 2 + ['union'])
    ops = prog['ops']
    if prog['kind'] == 'insert' and r.random() < 0.4:
        ops += g.odku()
    for _ in range(r.choice([1, 1, 2, 3])):
        hit = collide(r, ops, g) if r.random() < 0.3 else None
        if hit:
            ops.insert(r.randint(hit[0], len(ops)), hit[1])
            continue
        base = r.choice(g.ops(prog['kind'], 1) + [r.choice(ops)] if ops else g.ops(prog['kind'], 1))
        ops.insert(r.randint(0, len(ops)), corrupt(r, base, g))
    # a consistent mark so that a failing object in a surviving call is healthy for everyone
    return dict(backend=b, prog=prog)


def part_case(r, g, b):
    """Conditions and functions have building calls of their own."""
    x = r.random()
    if x < 0.5:
        v = [r.choice(['Q', 'Qd']), [[c, g.cond_value(0)] for c in r.sample(spec.KCOLS, r.randint(1, 2))]]
        ops = [g.where_op() for _ in range(r.randint(1, 3))]
        ops.insert(r.randint(0, len(ops)), corrupt(r, g.where_op(), g))
    elif x < 0.8:
        v = ['gc', [r.choice(spec.KCOLS)], r.choice([[], ['b'], [['tup', ['a', 'desc']], 'c']]), r.choice([None, '-'])]
        o = {'m': 'order_by', 'f': 'mixed', 'items': [[c, r.choice(['asc', 'desc'])] for c in r.sample(spec.KCOLS, r.randint(1, 3))]}
        ops = [o, {'m': 'separator', 'f': 'pos', 'a': [r.choice(['+', '+', ['fC', 'x', 1, r.choice(EX)], ['l', []], ['bad', 'obj']])]}]
        ops.insert(r.randint(0, 2), corrupt(r, o, g))
    else:
        v = ['fn', 'convert', 'a', 'char']
        ops = [{'m': 'to', 'f': 'pos', 'a': ['date']}, {'m': 'to', 'f': 'pos', 'a': [['fC', 'x', 1, r.choice(EX)]]}]
        r.shuffle(ops)
    return dict(backend=b, prog={'kind': 'value', 'v': v, 'ops': ops})


def run(case):
    env = start(case)
    q = spec.new_query(case['prog'], env)
    log, marks = [], []
    for i, op in enumerate(case['prog']['ops']):
        env.faults_on = True
        try:
            spec.apply(q, op, env)
            log.append('ok')
        except BaseException as e:
            log.append(spec.exc_name(e))
        env.faults_on = False
        if log[-1] != 'ok':
            marks.append([i, snapshot(q, env)])
    return [log, marks, snapshot(q, env), env.fired]


def ref(case, log):
    """The history without the failed calls, rendered afresh at every mark."""
    def at(n):
        env = start(case)
        env.faults_on = False
        q = spec.new_query(case['prog'], env)
        ok = True
        for i, op in enumerate(case['prog']['ops'][:n]):
            if log[i] == 'ok':
                try:
                    spec.apply(q, op, env)
                except BaseException:
                    ok = False
        return snapshot(q, env), ok
    marks = []
    for i, l in enumerate(log):
        if l != 'ok':
            s, ok = at(i)
            marks.append([i, s])
    s, ok = at(len(log))
    return [marks, s, ok]


def execute(case):
    log, marks, fin, fired = forked(run, case)
    rmarks, rfin, ok = forked(ref, case, log)
    v = None
    if not ok:
        v = vio('accepted-only-after-failure', log=log)
    for (i, got), (_, want) in zip(marks, rmarks):
        if got != want and v is None:
            v = vio('failed-call-left-a-trace', call=case['prog']['ops'][i], raised=log[i], expected=want, got=got)
    if v is None and fin != rfin:
        v = vio('later-building-differs', log=log, expected=rfin, got=fin)
    raised = [x for x in log if x != 'ok']
    return finish(case, {'hash': case_hash(case)}, v,
                  {'steps': len(log), 'faults': dict(count(fired), **{'rejected:' + k: n for k, n in count(raised).items()}),
                   'kinds': {case['prog']['kind']: 1}}, log=[log, fin[0]], nontrivial=bool(raised))
