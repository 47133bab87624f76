"""C07: the selected database is one process-wide register."""
from dst import spec, kernel
from dst.kernel import Sim, Tracer, forked
from .common import *

ID = 'C07'
RUNS = {'quick': 5280, 'thorough': 144000}
WANT_COVER = False
RULE = ('one run = 1-4 threads selecting databases (valid, invalid, interrupted) and rendering old, new and shared queries or probing '
        'database-dependent calls under a seeded schedule; the recorded history must be linearizable against one register whose reads are '
        'the per-database renderings of fresh processes; distinct = distinct event-sequence hash; non-trivial = a read not overlapping '
        'any selection was decided')
STUBS = ['interrupt raised by the trace function inside a selection']
ASSUMPTIONS = ['renderings that overlap a selection are not judged (the documentation asks for selection at application start)',
               'an upsert clause keeps the form it was given by the call that added it']
BAD = ['oracle', '', 5, None, ['l', []], 'sql2', 'my sql', ['by', '73716c']]


def generate(r):
    g = spec.Gen(r, 'sql', sets=False)
    g.badlists = False
    g.odku = lambda: [{'m': 'ignore', 'f': 'pos', 'a': []}]
    progs = []
    for _ in range(r.randint(1, 3)):
        p = g.program(r.choice([1, 2, 4]))
        if r.random() < 0.7:
            p = {'kind': 'select_from', 'ctor': ['t1'], 'ops': [
                {'m': 'where', 'f': 'kw', 'items': [['a', r.random() < 0.5], ['b', r.choice(['`x`', '"x"', 1])]]},
                {'m': 'where', 'f': 'two', 'items': [['c', ['sub', p]]]}] if p['kind'].startswith('select') else []} \
                if r.random() < 0.4 else p
        progs.append(p)
    if r.random() < 0.5:
        progs.append({'kind': 'insert', 'ctor': ['t1'], 'ops': [{'m': 'values', 'f': 'kw', 'items': [['a', True], ['b', ['by', '61']]]}]})
    tasks = []
    for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
        acts = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.25:
                acts.append(['conf', r.choice(spec.BACKENDS)])
            elif x < 0.32:
                acts.append(['confbad', r.choice(BAD)])
            elif x < 0.4:
                acts.append(['confint', r.choice(spec.BACKENDS), r.randint(1, 9)])
            elif x < 0.7:
                acts.append(['render', r.randrange(len(progs)), r.choice(['str', 'repr', 'tosql', 'copy'])])
            elif x < 0.85:
                acts.append(['fresh', r.randrange(len(progs)), r.choice(['str', 'repr'])])
            elif x < 0.88:
                acts.append(r.choice([['again-join', 0, 0], ['again-upsert', r.randrange(3), 0]]))
            elif x < 0.89:
                acts.append(['literals', 0, r.choice(['new', 'old'])])
            elif x < 0.91:
                acts.append(['fulljoin', r.choice([-1, r.randrange(len(progs))]), 0])
            elif x < 0.95:
                acts.append(['odku', r.randrange(3), r.choice([-1, r.randrange(len(progs))])])
            else:
                acts.append(['upsert', 0, r.choice(['str', 'repr', 'copy'])])
        tasks.append({'acts': acts})
    sched = gen_sched(r)
    if any(a[0] == 'confint' for t in tasks for a in t['acts']):
        sched['opcode'] = False
    if r.random() < 0.1:            # one query asked for more under one database after the other
        more = []
        for _ in range(r.randint(2, 4)):
            more.append(['conf', r.choice(spec.BACKENDS)])
            more += [r.choice([['again-join', 0, 0], ['again-upsert', r.randrange(3), 0]]) for _ in range(r.randint(1, 3))]
        tasks[0]['acts'] = more
    up = {'ins': [[c, r.choice([1, 'v', 'é'])] for c in r.sample('abc', r.randint(1, 2))],
          'key': r.choice('abcd'), 'set': [[c, r.choice([2, 'w'])] for c in r.sample('abcd', r.randint(1, 3))]}
    return dict(init=r.choice(spec.BACKENDS), up=up, built=r.choice(spec.BACKENDS), progs=progs, tasks=tasks, sched=sched)


#  What the four databases write differently; everything else is compared with the library itself.
LITERALS = {'sql': ['"', '1', "x'61'"], 'sqlite': ['"', '1', "x'61'"], 'mysql': ['`', '1', "x'61'"], 'postgresql': ['"', 'true', "E'\\\\x61'"]}


def literals(s):
    return [s.R('a'), s.V(True), s.V(b'a'), s.select('a').where(a=True), s.insert_into('a').values(a=b'a')]


def literal_texts(b):
    q, t, x = LITERALS[b]
    a = q + 'a' + q
    return [a, t, x, 'SELECT %s WHERE %s = %s' % (a, a, t), 'INSERT INTO %s (%s) VALUES (%s)' % (a, a, x)]


def read(env, qs, progs, a, own=None):
    k, i, how = a
    s = env.sp
    own = own or fixtures(s)
    if k == 'again-join':           # the same query asked again and again
        return spec.outcome(lambda: (own['join'].full_join('u'), None)[1])
    if k == 'again-upsert':
        a, k = [((), {}), ((), {'b': 2}), (('a', {'b': True}), {})][i]
        return spec.outcome(lambda: (own['upsert'].on_duplicate_key_update(*a, **k), None)[1])
    if k == 'literals':
        return ['ok', [str(x) for x in (own['literals'] if how == 'old' else literals(s))]]
    if k == 'upsert':
        return spec.look(qs[-1], [how], env)
    old = (lambda n: qs[n % (len(qs) - 1)].copy())
    if k == 'render':
        return spec.look(qs[i % (len(qs) - 1)], [how], env)
    if k == 'fresh':
        return spec.look(spec.build(progs[i % len(progs)], env)[0], [how], env)
    if k == 'fulljoin':
        return spec.outcome(lambda: str((s.select_from('t') if i < 0 else old(i)).full_join('u').on('a', 'b')))

    def odku():
        q = s.insert_into('t').values(a=1) if how < 0 else old(how)
        if i == 0:
            q.on_duplicate_key_update()
        elif i == 1:
            q.on_duplicate_key_update(b=2)
        else:
            q.on_duplicate_key_update('a', {'b': True})
        return str(q)
    return spec.outcome(odku)


def upsert(env, up, built):
    """The upsert clause has the form of the database under which it was added."""
    q = env.sp.insert_into('t').values(**dict(up['ins']))
    if built == 'mysql':
        q.on_duplicate_key_update(dict(up['set']))
    elif built == 'postgresql':
        q.on_duplicate_key_update(up['key'], dict(up['set']))
    return q


def fixtures(s):
    return {'join': s.select_from('t'), 'upsert': s.insert_into('t').values(a=1), 'literals': literals(s)}


def reads_of(case):
    return sorted({json.dumps(a) for t in case['tasks'] for a in t['acts'] if not a[0].startswith('conf')})


def ref_up(case):
    s = sp()
    s.configure(case['built'])
    env = spec.Env(s)
    up = upsert(env, case['up'], case['built'])
    return [str(s.R('a'))[0], {h: spec.look(up, [h], env) for h in ('str', 'repr', 'copy')}]


def ref(case, backend, theirs, forms):
    s = sp()
    s.configure(backend)
    env = spec.Env(s)
    out = {}
    quote = str(s.R('a'))[0]
    for key in reads_of(case):
        a = json.loads(key)
        if a[0] == 'literals':
            out[key] = ['ok', literal_texts(backend)]
            continue
        if a[0] == 'upsert':
            o = forms[a[2]]
            out[key] = [o[0], o[1].replace(theirs, quote)]
            continue
        qs = [spec.build(p, env)[0] for p in case['progs']] + [None]
        out[key] = read(env, qs, case['progs'], json.loads(key))
    return out


def simulate(case):
    s = sp()
    env = spec.Env(s)
    s.configure(case['built'])
    qs = [spec.build(p, env)[0] for p in case['progs']] + [upsert(env, case['up'], case['built'])]
    owned = [fixtures(s) for _ in range(len(case['tasks']) + 1)]
    s.configure(case['init'])
    clock = [0]
    hist = []

    def fn_of(ti, t):
        def fn(task):
            for a in t['acts']:
                ev = {'task': ti, 'a': a, 's': clock[0], 'e': None, 'o': None}
                clock[0] += 1
                hist.append(ev)
                if a[0] == 'conf':
                    ev['o'] = spec.outcome(lambda: (s.configure(a[1]), None)[1])
                elif a[0] == 'confbad':
                    ev['o'] = spec.outcome(lambda: (s.configure(env.make(a[1])), None)[1])
                elif a[0] == 'confint':
                    task.tracer.arm(a[2], 'interrupt')
                    try:
                        ev['o'] = spec.outcome(lambda: (s.configure(a[1]), None)[1])
                    finally:
                        ev['fired'] = task.tracer.fired
                        task.tracer.disarm()
                else:
                    ev['o'] = read(env, qs, case['progs'], a, owned[ti])
                ev['e'] = clock[0]
                clock[0] += 1
            return None
        return fn
    sim = Sim([fn_of(i, t) for i, t in enumerate(case['tasks'])], case['sched'], cover=cover_set(globals()))
    sim.run()
    final = []
    if not sim.aborted:
        for key in reads_of(case):
            final.append({'task': 99, 'a': json.loads(key), 's': clock[0], 'e': clock[0] + 1, 'o': read(env, qs, case['progs'], json.loads(key), owned[-1])})
            clock[0] += 2
    return sim_result(sim, None, hist=hist + final)


def linearizable(init, events):
    """Is there an order of the register operations, consistent with real time, that explains every read?"""
    n = len(events)
    seen = set()

    def go(done, val):
        if (done, val) in seen:
            return False
        seen.add((done, val))
        if all(done >> i & 1 for i in range(n)):
            return True
        horizon = min(e['e'] for i, e in enumerate(events) if not done >> i & 1)
        for i, e in enumerate(events):
            if done >> i & 1 or e['s'] > horizon:
                continue
            if e['k'] == 'w':
                if go(done | 1 << i, e['v']):
                    return True
                if e['opt'] and go(done | 1 << i, val):
                    return True
            elif val in e['ok'] and go(done | 1 << i, val):
                return True
        return False
    return go(0, init)


def execute(case):
    if not case['tasks']:
        return {}
    if not case['progs']:
        case = dict(case, progs=[{'kind': 'select_from', 'ctor': ['t1'], 'ops': []}])
    out = forked(simulate, case)
    v = None
    fired, judged = [], 0
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    else:
        up = forked(ref_up, case)
        refs = {b: forked(ref, case, b, *up) for b in spec.BACKENDS}
        hist = out['hist']
        confs = [e for e in hist if e['a'][0].startswith('conf')]
        events = []
        for e in hist:
            a = e['a']
            if a[0] == 'conf':
                if e['o'][0] != 'ok':
                    v = v or vio('valid-selection-refused', act=a, got=e['o'])
                events.append({'k': 'w', 'v': a[1], 'opt': False, 's': e['s'], 'e': e['e']})
            elif a[0] == 'confbad':
                fired.append('invalid-selection')
                if e['o'][0] == 'ok':
                    v = v or vio('invalid-selection-accepted', act=a)
            elif a[0] == 'confint':
                hit = bool(e['fired'])
                if hit:
                    fired.append('interrupted-selection')
                    if e['o'] != ['exc', 'SimInterrupt']:
                        v = v or vio('interrupt-swallowed', act=a, got=e['o'])
                events.append({'k': 'w', 'v': a[1], 'opt': hit, 's': e['s'], 'e': e['e']})
            else:
                if any(c['s'] < e['e'] and e['s'] < c['e'] for c in confs):
                    continue
                ok = [b for b in spec.BACKENDS if refs[b].get(json.dumps(a)) == e['o']]
                judged += 1
                if not ok:
                    v = v or vio('rendering-of-no-database', act=a, got=e['o'], candidates={b: refs[b].get(json.dumps(a)) for b in refs})
                events.append({'k': 'r', 'ok': ok, 's': e['s'], 'e': e['e'], 'a': a, 'o': e['o'], 'task': e['task']})
        if v is None and not linearizable(case['init'], events):
            v = vio('not-one-register', init=case['init'], history=[
                {k: x[k] for k in ('k', 's', 'e', 'v', 'opt', 'ok', 'task') if k in x} for x in events])
    return finish(case, out, v, {'faults': count(fired), 'reads_judged': judged}, log=[e['o'] for e in out['hist']], nontrivial=judged > 0)
