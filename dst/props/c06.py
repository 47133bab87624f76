"""C06: a copy is equal at birth and independent for ever."""
import copy as copymod
from dst import spec, kernel
from dst.kernel import Sim, forked
from .common import *

ID = 'C06'
RUNS = {'quick': 6050, 'thorough': 165000}
WANT_COVER = False
RULE = ('one run = a query or part (with embedded sub-queries, conditions, functions) is built and copied; the original with its embedded '
        'objects, the copies and a copy of a copy are then worked on by separate threads under a seeded schedule; each is compared with the '
        'same calls alone in a fresh process; distinct = distinct event-sequence hash; non-trivial = some call was made after the copy')

PART_OPS = {
    'Q': ['where'], 'Qd': ['where'],
    'gc': ['order_by', 'separator'],
    'convert': ['to'],
    'agg': ['distinct'],
}


def shared_obj(r, g):
    """(spec, kind of calls that change it)"""
    x = r.random()
    if x < 0.4:
        return dict(g.program(r.choice([1, 2, 3]), ['select', 'select_from', 'select_from']), ch='select')
    if x < 0.6:
        return {'kind': 'value', 'v': ['Q', [[c, g.cond_value(0)] for c in r.sample(spec.KCOLS, r.randint(1, 2))]], 'ch': 'Q'}
    if x < 0.8:
        return {'kind': 'value', 'v': ['gc', [r.choice(spec.KCOLS)], r.choice([[], ['b']]), r.choice([None, '-'])], 'ch': 'gc'}
    if x < 0.9:
        return {'kind': 'value', 'v': ['fn', 'convert', 'a', 'unsigned'], 'ch': 'convert'}
    return {'kind': 'value', 'v': ['fn', r.choice(['sum', 'avg', 'count', 'max']), 'a'], 'ch': 'agg'}


def change(r, g, ch):
    """A call that changes an object of kind ch."""
    if ch in ('select', 'select_from', 'insert', 'update', 'delete', 'delete_from', 'union'):
        return r.choice(g.ops(ch, r.randint(1, 2)))
    if ch == 'Q':
        return g.where_op('where')
    if ch == 'gc':
        return r.choice([{'m': 'order_by', 'f': 'mixed', 'items': [[r.choice(spec.KCOLS)]]},
                         {'m': 'separator', 'f': 'pos', 'a': [r.choice(['+', ';'])]}])
    if ch == 'convert':
        return {'m': 'to', 'f': 'pos', 'a': [r.choice(['char', 'date'])]}
    if ch == 'agg':
        if r.random() < 0.25:
            return spec.expr_op(r, g)
        return {'m': 'distinct', 'f': 'pos', 'a': [r.random() < 0.7]}
    return None


def wrap(r, i, ch):
    """A value, condition or function that contains shared object i."""
    sh = ['sh', i]
    if ch == 'select':
        return r.choice([sh, sh, ['V', sh], ['rel', 'IN', sh], ['rel', 'NOT_IN', sh], ['rel', r.choice(['EQ', 'NE', 'GT', 'LE']), sh],
                         ['V', ['l', [1, sh]]], ['V', ['tup', [sh]]], ['l', [1, sh]], ['tup', [sh, 2]], ['rel', 'IN', ['l', [1, sh]]], ['R', sh],
                         ['rel', 'IN', ['V', sh]], ['rel', 'EQ', ['V', sh]]])
    return r.choice([sh, sh, ['V', sh], ['rel', r.choice(['EQ', 'GT']), sh], ['V', ['l', [1, sh]]], ['l', [sh, 3]], ['rel', 'IN', ['l', [1, sh]]],
                     ['fn', 'concat', sh, 'b'], ['fn', 'max', sh], ['fn', 'count', ['l', [sh, 'b']]], ['fn', 'convert', sh, 'char'],
                     ['gc', [sh], [], None], ['gc', ['a'], [sh], None]])


def condition(r, i, ch):
    """A condition object that contains shared object i."""
    if ch == 'Q':
        x = ['sh', i]
    else:
        x = [r.choice(['Q', 'Qd', 'Ql']), [['a', wrap(r, i, ch)]] + ([['b', 1]] if r.random() < 0.4 else [])]
        if r.random() < 0.15:
            return ['not', [['a', wrap(r, i, ch)]]]
    z = ['Q', [['z', 1]] + ([['y', 2]] if r.random() < 0.4 else [])]
    for _ in range(r.choice([0, 0, 1, 2])):
        x = ['qop', r.choice('&|')] + r.choice([[x, z], [z, x]])
    return x


def embed(r, i, ch, kind='select'):
    """A call embedding shared object i."""
    sh = ['sh', i]
    if kind == 'insert':
        if ch == 'Q':
            return None
        return {'m': 'values', 'f': r.choice(['kw', 'dict', 'listpairs']), 'items': [['b', 1], ['e', r.choice([['V', sh], ['R', sh], sh if ch != 'select' else ['V', sh]])]]}
    out = []
    ms = ['where', 'where', 'having'] if kind.startswith('select') else ['where']
    m = r.choice(ms)
    if ch == 'select':
        out += [{'m': m, 'f': 'pos', 'a': [['exsh', i]]}]
    if ch == 'Q':
        out += [{'m': m, 'f': 'pos', 'a': [sh]}, {'m': m, 'f': 'pos', 'a': [sh, ['Q', [['z', 1]]]]}, {'m': m, 'f': 'pos', 'a': [condition(r, i, ch)]},
                {'m': m, 'f': 'pos', 'a': [['notsh', i]]}]
    else:
        out += [{'m': m, 'f': r.choice(['two', 'kw', 'dict']), 'items': [['a', wrap(r, i, ch)]]}, {'m': m, 'f': 'two', 'items': [['b', wrap(r, i, ch)]]},
                {'m': m, 'f': 'pos', 'a': [condition(r, i, ch)]}]
        if kind == 'update':
            out += [{'m': 'set', 'f': r.choice(['kw', 'dict']), 'items': [['e', r.choice([['V', sh], ['R', sh], sh])]]}]
        if kind.startswith('select'):
            out += [{'m': 'columns', 'f': 'mixed', 'items': [[sh, 'k%d' % i]]}, {'m': 'columns', 'f': 'mixed', 'items': [[r.choice([sh, ['V', sh]])]]}]
    if kind.startswith('select') and ch == 'select':
        out += [{'m': 'from_', 'f': 'mixed', 'items': [[sh, 'f%d' % i]]}, {'m': 'left_join', 'f': 'pos', 'a': [['tup', [sh, 'j%d' % i]]]},
                {'m': 'join', 'f': 'pos', 'a': [['dict', [[sh, 'j%d' % i]]]]}]
    elif kind.startswith('select') and ch != 'Q':
        out += [{'m': r.choice(['order_by', 'group_by']), 'f': 'mixed', 'items': [[sh, 'desc']]},
                {'m': r.choice(['where', 'having']), 'f': 'two', 'items': [[sh, 5]]},
                {'m': 'columns', 'f': 'mixed', 'items': [[wrap(r, i, ch), 'w%d' % i]]}]
    return r.choice(out)


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, user=False)
    g.fulljoin = True
    shared = [shared_obj(r, g) for _ in range(r.choice([0, 1, 1, 2]))]
    x = r.random()
    if x < 0.2:
        prog = shared_obj(r, g)
    elif x < 0.26:
        prog = dict(g.part(), ch=None)
    elif x < 0.34 and shared:
        c = shared[0]['ch']
        prog = {'kind': 'value', 'v': condition(r, 0, c) if r.random() < 0.5 else ['exsh', 0] if c == 'select' and r.random() < 0.3
                else ['notsh', 0] if c == 'Q' else wrap(r, 0, c), 'ch': None}
        if prog['v'][0] in ('l', 'tup'):
            prog['v'] = ['V', prog['v']]
        if prog['v'][0] in ('sh', 'qop', 'rel', 'exsh', 'notsh', 'V', 'R', 'not'):
            prog['ch'] = None
        elif prog['v'][0] in ('Q', 'Qd', 'Ql'):
            prog['ch'] = 'Q'
        elif prog['v'][0] == 'gc':
            prog['ch'] = 'gc'
    else:
        prog = g.program(r.choice([1, 2, 3, 5]))
        prog['ch'] = prog['kind']
        if prog['kind'] == 'union' and r.random() < 0.5 and shared and shared[0].get('ch') == 'select':
            prog = {'kind': 'unionsh', 'op': prog['op'], 'i': 0, 'r': prog['r'], 'side': r.choice(['l', 'r', 'both', 'deep']), 'ops': [], 'ch': 'union'}
        if prog['kind'].startswith('select'):
            for i, s in enumerate(shared):
                for _ in range(r.randint(1, 2)):
                    prog['ops'].insert(r.randint(0, len(prog['ops'])), embed(r, i, s['ch']))
        elif prog['kind'] in ('update', 'delete', 'delete_from', 'insert'):
            for i, s in enumerate(shared):
                e = embed(r, i, s['ch'], prog['kind'])
                if e:
                    prog['ops'].append(e)

    def acts(n):
        out = []
        for _ in range(n):
            if prog.get('ch') is None or r.random() < 0.25:
                out.append([-1, None, r.choice([['str'], ['copy'], ['copyeq'], ['eq'], ['hash']])])
            else:
                out.append([-1, change(r, g, prog['ch']), None])
        return out
    orig = acts(r.randint(0, 4))
    for i, s in enumerate(shared):
        for _ in range(r.randint(0, 2)):
            orig.insert(r.randint(0, len(orig)), [i, change(r, g, s['ch']), None])
    copies = []
    for _ in range(r.choice([1, 1, 2])):
        a = acts(r.randint(0, 4))
        sub = None
        if r.random() < 0.4:
            sub = {'at': r.randint(0, len(a)), 'acts': acts(r.randint(0, 3))}
        copies.append({'acts': a, 'sub': sub, 'how': r.choice(['copy', 'copy', 'deepcopy'])})
    return dict(backend=b, shared=shared, prog=prog, orig=orig, copies=copies, sched=gen_sched(r))


def setup(case):
    env = start(case)
    env.shared = [spec.build(p, env)[0] for p in case['shared']]
    env._notsh = lambda i: env.sp.Not(env._sh(i))
    env._exsh = lambda i: env.sp.exists(env._sh(i))
    p = case['prog']
    if p['kind'] == 'unionsh':
        def mk():
            l, rr = env._sh(p['i']), spec.build(p['r'], env)[0]
            if p.get('side') == 'r':
                l, rr = rr, l
            elif p.get('side') == 'both':
                rr = l
            elif p.get('side') == 'deep':
                l, rr = rr & env.sp.select('u'), rr | l
            return l & rr if p['op'] == '&' else l | rr
        o = spec.outcome(mk)
        q = mk() if o[0] == 'ok' else spec.Broken(o[1])
    else:
        q, _ = spec.build(p, env)
    return env, q


def act(q, env, a, log):
    tgt, op, rd = a
    obj = q if tgt < 0 or not env.shared else env.shared[tgt % len(env.shared)]
    if op is not None:
        log.append(spec.outcome(lambda: (spec.apply(obj, op, env), None)[1]))
    elif rd is not None:
        spec.look(obj, rd, env)


def ref_actor(case, which, sub):
    """One actor alone: -1 the original, k the k-th copy; no copy is ever made here."""
    env, q = setup(case)
    log = []
    if which < 0:
        for a in case['orig']:
            act(q, env, a, log)
    else:
        c = case['copies'][which]
        acts = c['acts']
        if sub:
            acts = c['acts'][:c['sub']['at']] + c['sub']['acts']
        for a in acts:
            if a[1] is not None:
                act(q, env, a, log)
    return [log, snapshot(q, env)]


def birth(q, c, env):
    """Is c, just copied from q, equal to it?"""
    if isinstance(q, spec.Broken):
        return []
    bad = []
    if spec.text(q) != spec.text(c):
        bad.append(['text', spec.text(q), spec.text(c)])
    if type(q) is not type(c):
        bad.append(['type', type(q).__name__, type(c).__name__])
    if spec.text(q)[0] == 'ok':
        e1, e2, n = spec.outcome(lambda: bool(c == q)), spec.outcome(lambda: bool(q == c)), spec.outcome(lambda: bool(q != c))
        if e1 != ['ok', True] or e2 != ['ok', True] or n != ['ok', False]:
            bad.append(['not equal', e1, e2, n])
    return bad


def simulate(case):
    env, q = setup(case)
    copies, bad = [], []
    for c in case['copies']:
        o = spec.outcome(lambda: copies.append(q.copy() if c['how'] == 'copy' else copymod.deepcopy(q)))
        if o[0] != 'ok':
            copies.append(spec.Broken(o[1]))
            if not isinstance(q, spec.Broken):
                bad.append(['copy failed', o[1]])
        else:
            bad += birth(q, copies[-1], env)
    subs = [None] * len(copies)
    logs = {}

    def actor_orig(task):
        log = []
        for a in case['orig']:
            act(q, env, a, log)
        return log

    def actor_copy(k):
        c = case['copies'][k]

        def fn(task):
            log, sublog = [], []
            obj = copies[k]
            for i in range(len(c['acts']) + 1):
                if c['sub'] and min(c['sub']['at'], len(c['acts'])) == i:
                    o = spec.outcome(lambda: obj.copy())
                    if o[0] == 'ok':
                        subs[k] = o[1]
                        task.tracer.stop()
                        bad.extend(birth(obj, subs[k], env))
                        task.tracer.start()
                    else:
                        subs[k] = spec.Broken(o[1])
                        if not isinstance(obj, spec.Broken):
                            bad.append(['copy failed', o[1]])
                    sublog.extend(log)
                    for a in c['sub']['acts'][:len(c['sub']['acts']) // 2]:
                        act(subs[k], env, a, sublog)
                if i < len(c['acts']):
                    act(obj, env, c['acts'][i], log)
            if c['sub']:
                for a in c['sub']['acts'][len(c['sub']['acts']) // 2:]:
                    act(subs[k], env, a, sublog)
            return [log, sublog]
        return fn
    sim = Sim([actor_orig] + [actor_copy(k) for k in range(len(copies))], case['sched'], cover=cover_set(globals()))
    res = sim.run()
    snaps = None
    if not sim.aborted:
        snaps = [snapshot(q, env)] + [snapshot(c, env) for c in copies] + [snapshot(c, env) if c is not None else None for c in subs]
    return sim_result(sim, res, snaps=snaps, bad=bad)


def execute(case):
    out = forked(simulate, case)
    n = len(case['copies'])
    v = None
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    elif out['bad']:
        v = vio('copy-not-equal-at-birth', detail=out['bad'][0])
    else:
        todo = [(-1, False, out['results'][0], out['snaps'][0])]
        for k in range(n):
            log, sublog = out['results'][1 + k]
            todo.append((k, False, log, out['snaps'][1 + k]))
            if case['copies'][k]['sub']:
                todo.append((k, True, sublog, out['snaps'][1 + n + k]))
        for which, sub, log, snap in todo:
            if snap[0][0] == 'exc' and snap[0][1] == 'BrokenQuery' and v is None and which >= 0:
                continue
            want = forked(ref_actor, case, which, sub)
            if [log, snap] != want and v is None:
                v = vio('not-independent', actor='original' if which < 0 else 'copy %d%s' % (which, ' of copy' if sub else ''),
                        alone=want, together=[log, snap])
    nt = bool(case['orig'] or any(c['acts'] or c['sub'] for c in case['copies']))
    return finish(case, out, v, {'kinds': {case['prog']['kind']: 1}}, log=out['snaps'], nontrivial=nt)
