"""C09: an interrupted building call damages nothing that was there before."""
import itertools
from dst import spec, kernel
from dst.kernel import Tracer, forked
from .common import *

ID = 'C09'
RUNS = {'quick': 9350, 'thorough': 255000}
WANT_COVER = False
RULE = ('one run = a building history in which one call is cut short by an exception injected at a seeded source line, then building goes on '
        '(repeated from the start for several such lines); '
        'the query right after the interrupt and at the end must equal the same history with that call left out or made with some or all of '
        'its items; a bystander query and a fresh query must be unaffected; distinct = distinct (case, interruption point); non-trivial = the fault fired')
STUBS = ['interrupt / MemoryError raised by the trace function at a chosen line']
KINDS = ['select', 'select', 'select_from', 'insert', 'update', 'delete_from', 'delete'] * 3 + ['union']


def victim(r, g, kind, ops):
    """A call worth interrupting: prefer several items, and calls colliding with earlier ones."""
    for _ in range(20):
        if ops and r.random() < 0.3:
            op = json.loads(json.dumps(r.choice(ops)))
            op = twist(r, op, 0.5)
            if op['m'] in ('order_by', 'group_by') and op['f'] in ('kw', 'dict'):
                for it in op['items']:
                    it[1] = r.choice(['asc', 'desc'])
        else:
            op = r.choice(g.ops(kind, 1))
        if op['m'] == 'limit' and op['a'] and op['a'][0] is None:
            continue
        return op
    return {'m': 'ignore' if kind not in ('select', 'select_from') else 'distinct', 'f': 'pos', 'a': []}


def points(r):
    return spread(r, r.choice([1, 4, 12, 30]))


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, depth=1)
    g.fulljoin = True
    if r.random() < 0.1:
        return part_case(r, g, b)
    if r.random() < 0.05:
        return upsert_case(r)
    prog = g.program(r.choice([1, 2, 3, 5]), KINDS)
    kind = prog['kind']
    if kind == 'insert' and r.random() < 0.3:
        prog['ops'] += g.odku()
    vic = victim(r, g, kind, prog['ops'])
    post = g.ops(kind, r.randint(0, 2)) if r.random() < 0.6 else []
    if r.random() < 0.3:
        post = post + [json.loads(json.dumps(vic))]
    return dict(backend=b, prog=prog, victim=vic, post={'ops': post}, by=spec.Gen(r, b, depth=1).program(2),
                kind=r.choice(['interrupt', 'interrupt', 'memory']), fracs=points(r))


def upsert_case(r):
    """Upsert clauses exist under two databases only."""
    b = r.choice(['postgresql', 'postgresql', 'mysql'])
    g = spec.Gen(r, b, depth=1)
    prog = {'kind': 'insert', 'ctor': ['t1'], 'ops': [{'m': 'values', 'f': 'kw', 'items': [['a', 1]]}] + [o for _ in range(r.choice([0, 1, 1, 2])) for o in g.odku()]}
    return dict(backend=b, prog=prog, victim=g.odku()[0], post={'ops': g.odku() if r.random() < 0.5 else []}, by=spec.Gen(r, b, depth=1).program(2),
                kind=r.choice(['interrupt', 'interrupt', 'memory']), fracs=points(r))


def part_case(r, g, b):
    """Conditions and functions have building calls of their own."""
    x = r.random()
    if x < 0.45:
        v = [r.choice(['Q', 'Qd']), [[c, g.cond_value(0)] for c in r.sample(spec.KCOLS, r.randint(1, 2))]]
        ops = [g.where_op() for _ in range(r.randint(0, 2))]
        new = g.where_op
    elif x < 0.75:
        v = ['gc', [r.choice(spec.KCOLS)], r.choice([[], ['b'], [['tup', ['a', 'desc']], 'c']]), r.choice([None, '-'])]
        ops = []

        def new():
            if r.random() < 0.3:
                return {'m': 'separator', 'f': 'pos', 'a': [r.choice(['+', ';', "'"])]}
            return {'m': 'order_by', 'f': 'mixed', 'items': [[c, r.choice(['asc', 'desc'])] for c in r.sample(spec.KCOLS, r.randint(1, 3))]}
    elif x < 0.88:
        v = ['fn', 'convert', 'a', 'char']
        ops = []
        new = lambda: {'m': 'to', 'f': 'pos', 'a': [r.choice(['date', 'signed', 'binary'])]}
    else:
        v = ['fn', r.choice(['sum', 'count', 'max']), 'a']
        ops = []
        new = lambda: {'m': 'distinct', 'f': 'pos', 'a': [r.random() < 0.6]} if r.random() < 0.6 else spec.expr_op(r, g)
    ops = ops + [new() for _ in range(r.randint(0, 2))]
    return dict(backend=b, prog={'kind': 'value', 'v': v, 'ops': ops}, victim=new(), post={'ops': [new() for _ in range(r.randint(0, 2))]},
                by=spec.Gen(r, b, depth=1).program(2), kind=r.choice(['interrupt', 'interrupt', 'memory']), fracs=points(r))


def guesses(op, got, base):
    """Which of very many items can be in the text got: a list of choices, or None if that cannot be told."""
    a = op.get('a', [])
    items = op['items'] if op.get('f', 'pos') != 'pos' else [[x] for x in a]
    if op['m'] == 'on_duplicate_key_update' and len(a) == 2:
        items = a[1][1]
    sure, perhaps = [], []
    for i, it in enumerate(items):
        name = it[0] if isinstance(it[0], str) else None
        if name is None or name in base or any(name in json.dumps(jt) for j, jt in enumerate(items) if j != i):
            perhaps.append(i)
        elif name in got:
            sure.append(i)
    if len(perhaps) > 8:
        return None
    return [sorted(sure + list(c)) for n in range(len(perhaps) + 1) for c in itertools.combinations(perhaps, n)]


def variants(op, backend, guess=None):
    """The call left out (None), or made with a non-empty choice of its items."""
    out = [None]
    f = op.get('f', 'pos')

    out.append(op)

    def subsets(lst):
        if len(lst) > 6:            # too many to try them all
            for l in (lst, sorted(lst, key=json.dumps)):
                yield from (l[:n] for n in range(1, len(l) + 1))
                yield from (l[n:] for n in range(1, len(l)))
            yield from (lst[:n] + lst[n + 1:] for n in range(len(lst)))
            for k in guess or ():
                yield [lst[i] for i in k if i < len(lst)]
            return
        for n in range(1, len(lst) + 1):
            yield from (list(c) for c in itertools.combinations(lst, n))
    if f != 'pos':
        if f == 'two':
            return out
        if f in ('mixkw', 'dictkw'):
            n = op.get('n', 1)
            for k in subsets(list(range(len(op['items'])))):
                out.append(dict(op, items=[op['items'][i] for i in k], n=len([i for i in k if i < n])))
            return out
        for s in subsets(op['items']):
            out.append(dict(op, items=s))
            if f in ('mixed', 'lists') and op['m'] in ('where', 'having', 'on', 'set', 'values'):
                out[-1]['f'] = 'listpairs'      # one pair alone would be read differently
        return out
    a = op.get('a', [])
    m = op['m']
    if m == 'limit':
        if len(a) > 1 and a[1] is not None:
            out.append({'m': 'limit', 'f': 'pos', 'a': a[:1]})
            out.append({'m': 'offset', 'f': 'pos', 'a': a[1:]})
        return out
    if m == 'on_duplicate_key_update' and len(a) == 2 and isinstance(a[1], list) and a[1][0] == 'dict':
        out.append(dict(op, a=[a[0], ['dict', []]]))
        for s in subsets(a[1][1]):
            out.append(dict(op, a=[a[0], ['dict', s]]))
        return out
    if m in ('where', 'having', 'on', 'delete', 'columns') and len(a) > 1:
        for s in subsets(a):
            out.append(dict(op, a=s))
        return out
    return out


def run_ops(q, ops, env):
    log = []
    for op in ops:
        log.append(spec.outcome(lambda: (spec.apply(q, op, env), None)[1]))
    return log


def ref(case, guess=None):
    """Solo results of every variant, and the length of the victim call."""
    res = []
    for vop in variants(case['victim'], case['backend'], guess):
        env = start(case)
        q = spec.new_query(case['prog'], env)
        run_ops(q, case['prog']['ops'], env)
        if vop is not None:
            spec.outcome(lambda: spec.apply(q, vop, env))
        after = snapshot(q, env)
        env2 = start(case)
        q = spec.new_query(case['prog'], env2)
        run_ops(q, case['prog']['ops'], env2)
        if vop is not None:
            spec.outcome(lambda: spec.apply(q, vop, env2))
        log = run_ops(q, case['post']['ops'], env2)
        res.append([after, log, snapshot(q, env2)])
    env = start(case)
    q = spec.new_query(case['prog'], env)
    run_ops(q, case['prog']['ops'], env)
    o = spec.outcome(lambda: spec.call_args(case['victim'], env))
    if o[0] != 'ok':
        return [res, []]
    args, kw = o[1]
    tr = Tracer(trail=[])
    tr.start()
    try:
        spec.outcome(lambda: spec.call(q, case['victim']['m'], args, kw))
    finally:
        tr.stop()
    return [res, [kernel.pick_point(tr.trail, x) for x in case['fracs']] if tr.steps else []]


def refby(case):
    env = start(case)
    return snapshot(spec.build(case['by'], env)[0], env)


def simulate(case, points):
    env0 = start(case)
    by, _ = spec.build(case['by'], env0)
    tr = Tracer(cover=cover_set(globals()))
    rounds = []
    for at in points:
        env = start(case)
        q = spec.new_query(case['prog'], env)
        run_ops(q, case['prog']['ops'], env)
        args, kw = spec.call_args(case['victim'], env)
        tr.start()
        tr.arm(at, case['kind'])
        try:
            o = spec.outcome(lambda: (spec.call(q, case['victim']['m'], args, kw), None)[1])
        finally:
            fired = tr.fired
            tr.stop()
        after = snapshot(q, env)
        log = run_ops(q, case['post']['ops'], env)
        rounds.append(dict(o=o, fired=fired, after=after, log=log, fin=snapshot(q, env)))
    byafter = snapshot(by, env0)
    env2 = start(case)
    fresh = snapshot(spec.build(case['by'], env2)[0], env2)
    return dict(rounds=rounds, byafter=byafter, fresh=fresh, steps=tr.steps,
                cover=sorted(tr.cover) if tr.cover is not None else ())


def many(op):
    a = op.get('a', [])
    return len(op.get('items', ())) > 6 or len(a) > 6 or len(a) == 2 and isinstance(a[1], list) and a[1][0] == 'dict' and len(a[1][1]) > 6


def execute(case):
    known, points = forked(ref, case)
    if not points:
        return finish(case, {'hash': case_hash(case)}, None, nontrivial=False)
    out = forked(simulate, case, points)
    v = None
    fired = []
    for rd in out['rounds']:
        if not rd['fired'] or v is not None:
            continue
        fired.append(case['kind'])
        cands = known
        if not any(rd['after'] == c[0] for c in cands) and many(case['victim']):
            g = guesses(case['victim'], json.dumps(rd['after'][0]), json.dumps(known[0][0][0]))
            if g is None:
                continue
            cands = known + forked(ref, case, g)[0]
        if not any(rd['after'] == c[0] for c in cands):
            v = vio('damaged-by-interrupt', call=case['victim'], at=rd['fired'], got=rd['after'][0], possible=[c[0][0] for c in cands][:9])
        elif not any(rd['after'] == c[0] and rd['log'] == c[1] and rd['fin'] == c[2] for c in cands):
            v = vio('cannot-go-on-after-interrupt', call=case['victim'], at=rd['fired'], got=[rd['log'], rd['fin'][0]],
                    possible=[[c[1], c[2][0]] for c in cands if c[0] == rd['after']][:9])
    if v is None and fired:
        wby = forked(refby, case)
        if out['byafter'] != wby or out['fresh'] != wby:
            v = vio('other-query-damaged', call=case['victim'], at=[rd['fired'] for rd in out['rounds']], expected=wby, got=[out['byafter'], out['fresh']])
    return finish(case, {'hash': case_hash(case), 'steps': out['steps'], 'cover': out['cover']}, v,
                  {'faults': count(fired), 'methods': {case['victim']['m']: 1}}, log=[[rd['o'], rd['after'][0], rd['fin'][0]] for rd in out['rounds']],
                  nontrivial=bool(fired))
