"""C12: a one-shot stream of values is read once, wholly, or the call fails."""
from dst import spec, kernel
from dst.kernel import Sim, forked
from .common import *

ID = 'C12'
RUNS = {'quick': 8800, 'thorough': 240000}
WANT_COVER = False
RULE = ('one run = a history in which some values are generators or iterators, healthy or failing at a seeded item with a seeded exception; '
        'healthy ones must be read once to the end by the call and render as the equal list in every later rendering, copy and thread; '
        'a failure must reach the caller of that call and leave the query unchanged; distinct = distinct case; non-trivial = a stream was read')
STUBS = ['generators and iterators supplied by the simulated caller, with a read log']
EX = ['Boom', 'TypeError', 'ValueError', 'KeyError', 'AttributeError', 'IndexError', 'OSError', 'KeyboardInterrupt', 'MemoryError',
      'AssertionError', 'RuntimeError', 'LookupError', 'UnicodeDecodeError', 'GeneratorExit']
KINDS = ['select', 'select_from', 'select_from', 'update', 'delete_from', 'delete', 'insert']


def stream(r, g, bad, tags=('gen', 'gen', 'it')):
    n = r.choice([1, 2, 3, 3, 5, 9]) if r.random() > 0.03 else 0
    if r.random() < 0.04:
        n = r.choice([33, 70, 130, 300, 1100])
    items = [g.scalar() if r.random() < 0.9 else None for _ in range(n)] if n < 30 else list(range(n))
    if items and all(i is None for i in items):
        items[0] = 1
    tag = r.choice(tags)
    if tag == 'it' and not bad and r.random() < 0.4:
        return ['bi', items, r.choice(spec.BI)]
    if bad:
        return [tag, items, r.randint(0, n), r.choice(EX)]
    return [tag, items]


def value(r, g, bad):
    """(value spec, acceptable as such?)"""
    st = stream(r, g, bad)
    x = r.random()
    if st[0] in ('it', 'bi') or x < 0.45:
        return ['rel', r.choice(['IN', 'IN', 'NOT_IN']), st]
    if x < 0.7:
        return st
    if x < 0.82:
        return ['V', st]
    gen = ['gen'] + st[1:]
    nest = [r.choice(['l', 'tup']), r.choice([[1, gen], [gen], [gen, 'x'], [1, [r.choice(['l', 'tup']), [gen, 2]]]])]
    return r.choice([['rel', r.choice(['IN', 'NOT_IN']), nest], nest, ['V', nest], ['rela', 'IN', [1, gen]]])


def setter(r, g, bad, m):
    items = [[c, g.scalar()] for c in r.sample(spec.KCOLS, r.randint(1, 3))]
    st = stream(r, g, bad, ['gen'])
    items[r.randrange(len(items))][1] = ['V', st if r.random() < 0.75 else [r.choice(['l', 'tup']), r.choice([[1, st], [st]])]]
    return {'m': m, 'f': r.choice(['kw', 'dict', 'listpairs']), 'items': items}


def where(r, g, bad, m):
    k = r.choice(['two', 'kw', 'dict', 'listpairs', 'mixed', 'Q', 'Qd', 'qop', 'not'])
    items = [[c, g.scalar()] for c in r.sample(spec.KCOLS, r.randint(1, 3))]
    items[r.randrange(len(items))][1] = value(r, g, bad)
    if not bad and r.random() < 0.3:
        items[r.randrange(len(items))][1] = value(r, g, False)
    if k == 'two':
        return {'m': m, 'f': k, 'items': [[x for x in items if isinstance(x[1], list) and has_stream(x)][0]]}
    if k == 'mixed' and len(items) == 1:
        k = 'kw'
    if k in ('Q', 'Qd', 'not'):
        return {'m': m, 'f': 'pos', 'a': [[k, items]]}
    if k == 'qop':
        return {'m': m, 'f': 'pos', 'a': [['qop', r.choice('&|'), ['Q', items], ['Q', [['a', 1]]]]]}
    return {'m': m, 'f': k, 'items': items}


def has_stream(x):
    if isinstance(x, list):
        return bool(x and x[0] in ('gen', 'it', 'bi')) or any(has_stream(y) for y in x)
    if isinstance(x, dict):
        return any(has_stream(v) for v in x.values())
    return False


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, streams=False, user=False)
    prog = g.program(r.choice([0, 1, 2, 3]), KINDS)
    for _ in range(r.randint(1, 4)):
        ms = ['where', 'where', 'having'] if prog['kind'].startswith('select') else ['where']
        bad = r.random() < 0.4
        if prog['kind'] == 'insert':
            op = setter(r, g, bad, 'values')
        elif prog['kind'] == 'update' and r.random() < 0.3:
            op = setter(r, g, bad, 'set')
        else:
            op = where(r, g, bad, r.choice(ms))
        prog['ops'].insert(r.randint(0, len(prog['ops'])), op)
    if prog['kind'].startswith('select') and r.random() < 0.2:
        prog['ops'].append({'m': 'columns', 'f': 'mixed', 'items': [[['V', ['gen', [1, 2, 3]]]]]})
    if r.random() < 0.25 and prog['kind'] in ('select_from',):
        prog['ops'] += [{'m': 'left_join', 'f': 'pos', 'a': ['t2']}, where(r, g, r.random() < 0.3, 'on')]
    tasks = [{'looks': [r.choice([['str'], ['str'], ['repr'], ['copy'], ['tosql'], ['eq']]) for _ in range(r.randint(1, 2))]}
             for _ in range(r.choice([0, 0, 2, 3]))]
    if '29, 30' in json.dumps(prog):
        tasks = []
    return dict(backend=b, prog=prog, tasks=tasks, copyend=r.random() < 0.3, sched=gen_sched(r))


def listed(x):
    """The same specification with every stream replaced by a list."""
    if isinstance(x, list):
        if x and x[0] in ('gen', 'it', 'bi') and len(x) > 1 and isinstance(x[1], list):
            return ['l', listed(x[1])]
        return [listed(y) for y in x]
    if isinstance(x, dict):
        return {k: listed(v) for k, v in x.items()}
    return x


def copy_of(q):
    o = []
    res = spec.outcome(lambda: o.append(q.copy()))
    return o[0] if res[0] == 'ok' else spec.Broken(res[1])


def ref(case, skip):
    """Lists instead of streams, failed calls left out."""
    env = start(case)
    prog = listed(case['prog'])
    q = spec.new_query(prog, env)
    log = []
    for i, op in enumerate(prog['ops']):
        if i in skip:
            log.append(None)
            continue
        o = spec.outcome(lambda: (spec.apply(q, op, env), None)[1])
        log.append(o)
    twin = copy_of(q)
    looks = []
    for t in case['tasks']:
        looks.append([spec.look(q, rd, env, twin) for rd in t['looks']])
    return [log, snapshot(q, env), looks]


def simulate(case):
    env = start(case)
    q = spec.new_query(case['prog'], env)
    log, marks, problems, fired = [], [], [], []
    reads = 0
    for i, op in enumerate(case['prog']['ops']):
        env.streams = []
        env.fired = []
        before = snapshot(q, env)
        o = spec.outcome(lambda: (spec.apply(q, op, env), None)[1])
        log.append(o)
        reads += sum(s.pos for s in env.streams)
        bad = [s for s in env.streams if s.failed]
        if bad:
            fired.append(bad[0].exc)
            want = type(spec.EXCS[bad[0].exc]()).__name__
            if o[0] == 'ok':
                problems.append(['stream failed but the call succeeded', i, bad[0].exc])
            elif o[1] != want:
                problems.append(['failure changed its kind', i, want, o[1]])
            if snapshot(q, env) != before:
                problems.append(['failed stream changed the query', i, before, snapshot(q, env)])
        elif o[0] == 'ok':
            for s in env.streams:
                if not s.ended:
                    problems.append(['stream not read to its end', i, s.pos, len(s.items)])
                elif s.pulls_after_end:
                    problems.append(['stream read again', i, s.pulls_after_end])
                elif s.fail_at is not None and s.fail_at <= len(s.items):
                    problems.append(['failing stream never failed', i, s.pos])
        if o[0] == 'ok' and env.streams:
            marks.append([s for s in env.streams])
    for group in marks:
        for s in group:
            s.mark = s.pulls_after_end
    snap1 = snapshot(q, env)
    if case['tasks']:
        twin = copy_of(q)

        def fn_of(t):
            def fn(task):
                return [spec.look(q, rd, env, twin) for rd in t['looks']]
            return fn
        sim = Sim([fn_of(t) for t in case['tasks']], case['sched'], cover=cover_set(globals()))
        res = sim.run()
        if sim.aborted:
            return sim_result(sim, res)
        d = sim_result(sim, res)
    else:
        d = dict(aborted=None, switches=[], hash=None, steps=len(log), nswitch=0, results=[])
    if case['copyend'] and not isinstance(q, spec.Broken):
        q = copy_of(q)
    snap2 = snapshot(q, env)
    for group in marks:
        for s in group:
            if s.pulls_after_end > s.mark:
                problems.append(['stream read again by a rendering'])
    d.update(log=log, snap1=snap1, snap2=snap2, problems=problems, fired=fired, reads=reads)
    return d


def execute(case):
    out = forked(simulate, case)
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
        out['fired'], out['reads'] = [], 0
    elif out['problems']:
        v = vio(out['problems'][0][0].replace(' ', '-'), detail=out['problems'][0])
    else:
        def streamfail(i):
            return out['log'][i][0] == 'exc' and has_failing(case['prog']['ops'][i])
        skip = [i for i in range(len(out['log'])) if streamfail(i)]
        wlog, wsnap, wlooks = forked(ref, case, skip)
        for i, (a, b) in enumerate(zip(wlog, out['log'])):
            if a is not None and a != b and v is None:
                v = vio('stream-call-differs-from-list-call', call=case['prog']['ops'][i], with_list=a, with_stream=b)
        if v is None and out['snap1'] != wsnap:
            v = vio('stream-renders-differently', expected=wsnap, got=out['snap1'])
        if v is None and out['snap2'] != wsnap:
            v = vio('later-rendering-differs', expected=wsnap, got=out['snap2'])
        if v is None and case['tasks'] and out['results'] != wlooks:
            v = vio('concurrent-rendering-differs', expected=wlooks, got=out['results'])
    out['hash'] = out['hash'] if out.get('hash') else case_hash(case)
    return finish(case, out, v, {'faults': count('stream:' + x for x in out['fired']), 'items_read': out['reads']},
                  log=[out.get('log'), out.get('snap2')], nontrivial=out['reads'] > 0)


def has_failing(x):
    if isinstance(x, list):
        if x and x[0] in ('gen', 'it') and len(x) > 2 and isinstance(x[1], list):
            return True
        return any(has_failing(y) for y in x)
    if isinstance(x, dict):
        return any(has_failing(v) for v in x.values())
    return False
