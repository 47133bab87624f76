"""C02: observations placed anywhere between building calls never change the final query."""
from dst import spec, kernel
from dst.kernel import forked
from .common import *

ID = 'C02'
RUNS = {'quick': 13200, 'thorough': 360000}
WANT_COVER = False
RULE = ('one run = a building history with observer events (render, print, compare, hash, has, copy, embed) scheduled between its calls, '
        'on the query and on parts embedded in it; distinct = distinct case; non-trivial = at least one observation before the last call')


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b)
    g.fulljoin = True
    shared = [g.program(r.choice([0, 1, 2]), ['select_from', 'select']) if r.random() < 0.5 else g.part() for _ in range(r.choice([0, 1, 1, 2]))]
    if r.random() < 0.1:
        shared.append({'kind': 'value', 'v': ['Q', []]})        # a condition still empty
    g.shared = len(shared)
    prog = g.program(r.choice([2, 4, 6, 9]), ['union'] if r.random() < 0.06 else ['select', 'select_from', 'select_from', 'insert', 'update', 'delete_from', 'delete'])
    for i, sh in enumerate(shared):
        if sh['kind'] == 'value' and sh['v'] == ['Q', []]:
            if prog['kind'] not in ('insert', 'union'):
                prog['ops'].insert(r.randint(0, len(prog['ops'])), {'m': r.choice(['where', 'where', 'having']) if prog['kind'].startswith('select') else 'where',
                                                                    'f': 'pos', 'a': [['sh', i]]})
        elif prog['kind'].startswith('select'):
            op = {'m': 'columns', 'f': 'mixed', 'items': [[['sh', i], 'al%d' % i]]}
            if sh['kind'] != 'value':
                op = r.choice([op, {'m': 'where', 'f': 'two', 'items': [['a', ['rel', 'IN', ['sh', i]]]]},
                               {'m': 'from_', 'f': 'mixed', 'items': [[['sh', i], 'al%d' % i]]},
                               {'m': r.choice(['join', 'left_join']), 'f': 'pos', 'a': [['tup', [['sh', i], 'al%d' % i]]]}])
            prog['ops'].insert(r.randint(0, len(prog['ops'])), op)
        elif prog['kind'] in ('update', 'delete_from', 'delete') and r.random() < 0.7:
            prog['ops'].insert(r.randint(0, len(prog['ops'])), {'m': 'where', 'f': 'two', 'items': [['a', ['sh', i]]]})
        # the embedded query goes on being built
        g.shared = 0                # no query inside itself
        if sh['kind'] != 'value':
            for op in g.ops('select_from', r.choice([0, 1, 2])):
                prog['ops'].insert(r.randint(0, len(prog['ops'])), dict(op, on=i))
        else:
            for op in spec.part_ops(r, g, sh['v']):
                prog['ops'].insert(r.randint(0, len(prog['ops'])), dict(op, on=i))
    if r.random() < 0.6 and prog['kind'] not in ('insert', 'union'):
        prog['ops'] += g.join_ops_nofull()
        if r.random() < 0.5:
            prog['ops'].append(g.on_op())
    plan = []
    for _ in range(r.choice([1, 2, 4, 8])):
        tgt = -1 if not shared or r.random() < 0.8 else r.randrange(len(shared))
        plan.append([r.randint(0, len(prog['ops'])), tgt, spec.gen_look(r, prog['kind'] if tgt < 0 else shared[tgt]['kind'])])
    if r.random() < 0.04:
        r.choice(plan).append(r.choice([20, 60, 120]))
    near = r.choice(['same', 'twist', 'twist'])
    return dict(backend=b, shared=shared, prog=prog, plan=plan,
                near=json.loads(json.dumps(prog)) if near == 'same' else twist(r, prog, 0.15),
                nearsh=[twist(r, p, r.choice([0, 0.15])) for p in shared])


def go(case, env, prog, shared, plan, near=None):
    """Build, with the looks of the plan in between; returns the query, its parts and the outcomes of the calls."""
    env.shared = [spec.build(p, env)[0] for p in shared]
    q = spec.new_query(prog, env)
    log = []
    n = 0
    ops = prog['ops']
    for i in range(len(ops) + 1):
        for at, tgt, rd, *times in plan:
            for _ in range(times[0] if times else 1) if at == i or (i == len(ops) and at > i) else ():
                own = tgt < 0 or not env.shared
                mine = env.shared
                if near and (at + len(plan)) % 2 and rd[0] in ('eq', 'ne', 'eqr', 'lt2', 'sorted2'):
                    near_ = go(case, env, dict(prog, ops=ops[:i]), shared, [])       # exactly what has been built so far
                else:
                    near_ = near
                other = near_ and (near_[0] if own else near_[1][tgt % len(near_[1])])
                env.shared = mine
                spec.look(q if own else env.shared[tgt % len(env.shared)], rd, env, other if len(rd) == 1 else None)
                env.shared = mine
                n += 1
        if i < len(ops):
            tgt = ops[i].get('on')
            tgtobj = q if tgt is None or not env.shared else env.shared[tgt % len(env.shared)]
            log.append(spec.outcome(lambda: (spec.apply(tgtobj, ops[i], env), None)[1]))
    return q, env.shared, log, n


def same(a, b):
    return spec.outcome(lambda: [bool(a == b), bool(b == a), bool(a != b)]) + spec.outcome(lambda: [bool(a < b), bool(b < a), bool(a < 'M'), bool(a <= b)])


def run(case, observe):
    env = start(case)
    near = go(case, env, case['near'], case['nearsh'], [])
    q, shared, log, n = go(case, env, case['prog'], case['shared'], case['plan'] if observe else [], near)
    eqs = [same(q, near[0])] + [same(a, b) for a, b in zip(shared, near[1])]
    twin = go(case, env, case['prog'], case['shared'], [])
    eqs += [same(q, twin[0])] + [same(a, b) for a, b in zip(shared, twin[1])]
    return [log, snapshot(q, env), [spec.text(x) for x in shared], n, eqs]


def execute(case):
    want = forked(run, case, False)
    got = forked(run, case, True)
    v = None
    if want[0] != got[0]:
        v = vio('later-call-behaves-differently', expected=want[0], got=got[0])
    elif want[1] != got[1]:
        v = vio('observed-query-differs', expected=want[1], got=got[1])
    elif want[2] != got[2]:
        v = vio('observed-part-differs', expected=want[2], got=got[2])
    elif want[4] != got[4]:
        v = vio('observed-query-compares-differently', expected=want[4], got=got[4], text=got[1][0])
    looks = {}
    for _, _, rd, *_ in case['plan']:
        looks[rd[0]] = looks.get(rd[0], 0) + 1
    return finish(case, {'hash': case_hash(case)}, v,
                  {'steps': got[3] + len(case['prog']['ops']), 'looks': looks, 'kinds': {case['prog']['kind']: 1}},
                  log=got[1][0], nontrivial=any(p[0] < len(case['prog']['ops']) for p in case['plan']))
