"""C08: no UPDATE or DELETE of all rows without consent."""
import io
from dst import spec, kernel
from dst.kernel import Sim, forked
from .common import *

ID = 'C08'
RUNS = {'quick': 22000, 'thorough': 600000}
WANT_COVER = False
RULE = ('one run = one thread gives, revokes, adds conditions (valid, empty, refused, interrupted), copies and extends an UPDATE or DELETE '
        'while 0-3 threads render it in every form; every rendering must be explained by some state the reference model (condition?, '
        'consent?) could be in during it; distinct = distinct event-sequence hash; non-trivial = at least one rendering was judged')
STUBS = ['interrupt / MemoryError raised by the trace function inside a call']
CONFIRM = {'update': 'ConfirmUpdateAllException', 'delete': 'ConfirmDeleteAllException'}
EMPTY = [{'m': 'where', 'f': 'pos', 'a': []}, {'m': 'where', 'f': 'pos', 'a': [['dict', []]]}, {'m': 'where', 'f': 'pos', 'a': [['l', []]]},
         {'m': 'where', 'f': 'pos', 'a': [['Q', []]]}, {'m': 'where', 'f': 'pos', 'a': [['Q', []], ['Q', []]]},
         {'m': 'where', 'f': 'pos', 'a': [['tup', []]]}, {'m': 'where', 'f': 'pos', 'a': [['Qq', []]]}]
BADW = [{'m': 'where', 'f': 'pos', 'a': [['bad', 'obj']]}, {'m': 'where', 'f': 'two', 'items': [['a', ['bad', 'obj']]]},
        {'m': 'where', 'f': 'mixed', 'items': [['a', 1], ['b']]}, {'m': 'where', 'f': 'kw', 'items': [['a', ['bad', 'cplx']], ['b', 1]]},
        {'m': 'where', 'f': 'listpairs', 'items': [['a', 1], ['b', 2, 3]]}, {'m': 'where', 'f': 'kw', 'items': [['a', 1], ['b', ['bad', 'set']]]},
        {'m': 'where', 'f': 'two', 'items': [['a', ['gen', [1, 2], 1, 'Boom']]]}, {'m': 'where', 'f': 'pos', 'a': ['a']},
        {'m': 'where', 'f': 'two', 'items': [['a', ['rel', 'IN', ['gen', [1, 2], 1, 'TypeError']]]]},
        {'m': 'where', 'f': 'two', 'items': [['a', ['rel', 'LIKE', 5]]]}, {'m': 'where', 'f': 'two', 'items': [[['bad', 'flt'], 1]]}]
LOOKS = ['str', 'str', 'repr', 'tosql', 'fmt', 'join2', 'brace', 'fstr', 'exists', 'col', 'V', 'C', 'print']


def generate(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, depth=0)
    g.subs = g.objs = g.badlists = False
    kind = r.choice(['update', 'delete'])
    acts = []
    w = r.choice([0.05, 0.15, 0.3])
    for _ in range(r.randint(1, 9)):
        x = r.random()
        if x < w:
            op = g.where_op() if r.random() < 0.7 else {'m': 'where', 'f': 'pos', 'a': [['Q', [['a', 1]]]]}
            acts.append(['where', op, r.random() < 0.3 and r.choice([r.randint(1, 40), r.randint(1, 300)])])
        elif x < 0.36:
            acts.append(['empty', r.choice(EMPTY), 0])
        elif x < 0.5:
            acts.append(['bad', r.choice(BADW), 0])
        elif x < 0.68:
            acts.append(['allow', {'m': 'allow_%s_all' % kind, 'f': 'pos', 'a': []}, r.random() < 0.3 and r.randint(1, 4)])
        elif x < 0.8:
            acts.append(['forbid', {'m': 'forbid_%s_all' % kind, 'f': 'pos', 'a': []}, r.random() < 0.3 and r.randint(1, 4)])
        elif x < 0.88:
            acts.append(['copy', None, 0])
        elif x < 0.91:
            acts.append(['look', None, 0])
        elif x < 0.925:
            acts.append(['live', None, 0])
        elif x < 0.94:
            acts.append(['fill', None, 0])
        elif x < 0.96:
            acts.append(['churn', r.choice(['yes', 'cond']), 0])
        else:
            ops = g.update_op() if kind == 'update' else g.delete_op()
            for op in ops:
                if op['m'] not in ('where', 'allow_update_all', 'forbid_update_all', 'allow_delete_all', 'forbid_delete_all'):
                    acts.append(['other', op, 0])
    readers = [{'looks': [r.choice(LOOKS) for _ in range(r.randint(1, 4))]} for _ in range(r.choice([0, 1, 1, 2, 3]))]
    sched = gen_sched(r)
    if any(a[2] for a in acts):
        sched['opcode'] = False
    return dict(backend=b, kind=kind, acts=acts, tasks=readers, sched=sched)


def render(q, how):
    if how == 'repr':
        return spec.outcome(lambda: repr(q))
    if how == 'tosql':
        return spec.outcome(lambda: q.tosql())
    if how == 'fmt':
        return spec.outcome(lambda: '%s' % q)
    if how == 'brace':
        return spec.outcome(lambda: '{}'.format(q))
    if how == 'fstr':
        return spec.outcome(lambda: f'{q}' + f'{q!r}')
    if how == 'print':
        def prt():
            out = io.StringIO()
            print(q, file=out)
            return out.getvalue()
        return spec.outcome(prt)
    if how in ('exists', 'V', 'C'):
        return spec.outcome(lambda: str(getattr(sp(), how)(q)))
    if how == 'col':
        return spec.outcome(lambda: str(sp().select((q, 'al'))))
    if how == 'join2':
        return spec.outcome(lambda: '; '.join(map(str, [q])))
    return spec.text(q)


def bystanders(s):
    """Statements nobody touches: two without consent, two with, two with a condition."""
    return [['update', 'no', s.update('t5').set(z=1)], ['delete', 'no', s.delete_from('t5')],
            ['update', 'yes', s.update('t5').set(z=1).allow_update_all()], ['delete', 'yes', s.delete_from('t5').allow_delete_all()],
            ['update', 'cond', s.update('t5').set(z=1).where(a=1)], ['delete', 'cond', s.delete_from('t5').where(a=1)]]


def judge_bystanders(rows, when):
    for kind, what, o in rows:
        if what == 'no':
            good = o == ['exc', CONFIRM[kind]]
        else:
            good = o[0] == 'ok' and (' WHERE ' in o[1]) == (what == 'cond')
        if not good:
            return vio('untouched-statement-changed', kind=kind, consent=what, when=when, got=o)
    return None


def simulate(case):
    env = start(case)
    s = env.sp
    env._Qq = lambda items: s.Q(s.Q(), s.Q())
    q = s.update('t1').set(z=1) if case['kind'] == 'update' else s.delete_from('t1')
    others = bystanders(s)
    box = [0]
    objs = [q]
    clock = [0]
    hist, reads, churned, live = [], [], [], {}

    def tick():
        clock[0] += 1
        return clock[0]

    def builder(task):
        for a in case['acts']:
            k, op, at = a
            obj = objs[box[0]]
            ev = {'k': k, 'obj': box[0], 's': tick(), 'e': None, 'o': None, 'fired': None}
            hist.append(ev)
            if k == 'copy':
                o = spec.outcome(lambda: objs.append(obj.copy()))
                ev['o'] = o
                if o[0] == 'ok':
                    ev['new'] = len(objs) - 1
                    box[0] = len(objs) - 1
            elif k == 'live':           # a condition object, still empty
                live[box[0]] = s.Q()
                ev['o'] = spec.outcome(lambda: (obj.where(live[box[0]]), None)[1])
            elif k == 'fill':           # ... gets its first condition only now
                if box[0] in live:
                    ev['o'] = spec.outcome(lambda: (live[box[0]].where(f=1), None)[1])
                else:
                    ev['k'] = 'nothing'
            elif k == 'churn':          # statements that come and go
                for i in range(3):
                    for kind, what, o in bystanders(s):
                        if what == op:
                            spec.text(o)
                    del o
                    churned.extend([kind, what, spec.text(o)] for kind, what, o in bystanders(s) if what == 'no')
            elif k == 'look':
                rd = {'obj': box[0], 's': tick(), 'o': render(obj, 'str'), 'e': tick()}
                reads.append(rd)
            else:
                if at:
                    task.tracer.arm(at, 'interrupt')
                try:
                    ev['o'] = spec.outcome(lambda: (spec.apply(obj, op, env), None)[1])
                finally:
                    if at:
                        ev['fired'] = task.tracer.fired
                        task.tracer.disarm()
            ev['e'] = tick()

    def reader(t):
        def fn(task):
            for how in t['looks']:
                i = box[0]
                rd = {'obj': i, 's': tick(), 'e': None, 'o': None}
                rd['o'] = render(objs[i], how)
                rd['e'] = tick()
                reads.append(rd)
        return fn
    sim = Sim([builder] + [reader(t) for t in case['tasks']], case['sched'], cover=cover_set(globals()))
    sim.run()
    if not sim.aborted:
        for i in range(len(objs)):
            for how in sorted(set(LOOKS)):
                reads.append({'obj': i, 's': tick(), 'o': render(objs[i], how), 'e': tick()})
            c = spec.outcome(lambda: str(objs[i].copy()))
            reads.append({'obj': i, 's': tick(), 'o': c, 'e': tick()})
    old = new = None
    if not sim.aborted:
        old = [[k, w, spec.text(o)] for k, w, o in others]
        new = [[k, w, spec.text(o)] for k, w, o in bystanders(s)]
    return sim_result(sim, None, hist=hist, reads=reads, old=old, new=new, churned=churned)


def timeline(hist):
    """Per object: list of (time, set of possible (condition, consent) states from then on)."""
    tl = {0: [(0, {(False, False)})]}
    for ev in hist:
        o = ev['obj']
        cur = tl[o][-1][1]
        ok = ev['o'] is None or ev['o'][0] == 'ok'
        if ev['k'] == 'copy':
            if ok and 'new' in ev:
                tl[ev['new']] = [(0, set(cur))]
            continue
        if ev['k'] in ('where', 'fill'):
            new = {(True, al) for _, al in cur}
        elif ev['k'] == 'allow':
            new = {(c, True) for c, _ in cur}
        elif ev['k'] == 'forbid':
            new = {(c, False) for c, _ in cur}
        else:
            continue
        if ev['fired']:
            new = new | cur
        elif not ok:
            new = cur
        tl[o].append((ev['s'], cur | new))
        tl[o].append((ev['e'], new))
    return tl


def execute(case):
    out = forked(simulate, case)
    v = None
    judged = 0
    fired = []
    if out['aborted']:
        v = vio('no-progress', why=out['aborted'])
    else:
        tl = timeline(out['hist'])
        v = judge_bystanders(out['churned'], 'made after others had gone') or judge_bystanders(out['old'], 'made before') or judge_bystanders(out['new'], 'made after')
        for ev in out['hist']:
            if ev['fired']:
                fired.append('interrupted:' + ev['k'])
                if ev['o'][0] == 'ok':
                    v = v or vio('interrupt-swallowed', event=ev)
            elif ev['o'] is not None and ev['o'][0] != 'ok':
                fired.append('refused:' + ev['k'])
            if ev['k'] in ('allow', 'forbid', 'where', 'copy', 'live', 'fill') and not ev['fired'] and ev['o'] is not None and ev['o'][0] != 'ok' \
                    and not (ev['k'] == 'where'):
                v = v or vio('call-failed', event=ev)
        for rd in out['reads']:
            states = set()
            prev = None
            for t, st in tl[rd['obj']]:
                if t <= rd['s']:
                    prev = st
                elif t <= rd['e']:
                    states |= st
            states |= prev
            o = rd['o']
            judged += 1
            if o[0] == 'exc':
                good = o[1] == CONFIRM[case['kind']] and (False, False) in states
                cls = 'refused-without-reason'
            elif ' WHERE ' in o[1]:
                good = any(c for c, _ in states)
                cls = 'condition-from-nowhere'
            else:
                good = (False, True) in states
                cls = 'all-rows-without-consent'
            if not good and v is None:
                v = vio(cls, rendered=o, possible_states=sorted(states), history=[
                    [e['k'], e['s'], e['e'], e['o'], e['fired']] for e in out['hist'] if e['obj'] == rd['obj']], window=[rd['s'], rd['e']])
    return finish(case, out, v, {'faults': count(fired), 'renderings_judged': judged, 'kinds': {case['kind']: 1}},
                  log=[rd['o'] for rd in out['reads']], nontrivial=judged > 0)
