import json

from dst import kernel, spec
from dst.kernel import Sim, forked


def sp():
    import sqlpuzzle
    return sqlpuzzle


def gen_sched(r, tasks=2):
    x = r.random()
    s = {'seed': r.getrandbits(40), 'opcode': r.random() < 0.08}
    if x < 0.3:
        s.update(mode='rare', p=r.choice([0.1, 0.3, 0.6, 1.0]))
    elif x < 0.7:
        s.update(mode='rand', p=r.choice([0.01, 0.03, 0.1, 0.1] if s['opcode'] else [0.01, 0.03, 0.1, 0.3, 0.5]))
    else:
        s.update(mode='pct', d=r.randint(1, 4), k=r.choice([60, 200, 600, 2000]))
    return s


def explicit(case, switches, opcode):
    """The same case with the schedule written out."""
    import json
    c = json.loads(json.dumps(case))
    c['sched'] = {'mode': 'list', 'sw': switches, 'opcode': opcode}
    return c


def start(case, salted=False, **kw):
    """Fresh environment in this (forked) process."""
    s = sp()
    s.configure(case.get('backend', 'sql'))
    return spec.Env(s, salted=salted, **kw)


def snapshot(q, env, twin=None):
    """Everything a caller can see of q, as JSON."""
    out = [spec.text(q), spec.outcome(lambda: repr(q))]
    if hasattr(q, 'has'):
        def h(*a):
            o = spec.outcome(lambda: bool(q.has(*a)))
            return str(int(o[1])) if o[0] == 'ok' else o[1]
        out.append('has:' + ''.join(h(p) for p in spec.PARTS)
                   + ' ' + ''.join(h(p, v) for p in ('where', 'columns', 'tables') for v in ('a', 't1')))
    return out


def case_hash(case):
    from dst.engine import derive
    return derive(json.dumps({k: v for k, v in case.items() if k != '_run'}, sort_keys=True))


def count(items):
    d = {}
    for x in items:
        d[x] = d.get(x, 0) + 1
    return d


def sim_result(sim, results, **kw):
    d = dict(results=results, aborted=sim.aborted, switches=sim.switches, hash=sim.hash & ((1 << 63) - 1),
             steps=sim.total, nswitch=sim.nswitch)
    if sim.cover is not None:
        d['cover'] = sorted(sim.cover)
    d.update(kw)
    return d


def finish(case, out, violation, stats=None, log=None, nontrivial=True):
    st = {'steps': out.get('steps', 0), 'probes': {'context_switches': out.get('nswitch', 0),
                                                   'runs_with_switch': 1 if out.get('nswitch') else 0}}
    for k, v in (stats or {}).items():
        if isinstance(v, dict) and isinstance(st.get(k), dict):
            st[k].update(v)
        else:
            st[k] = v
    res = dict(violation=violation, stats=st, hash=out.get('hash'), log=log, nontrivial=nontrivial, cover=out.get('cover', ()))
    if violation is not None and 'sched' in case:
        if case['sched'].get('mode') != 'list':
            res['replay'] = explicit(case, out['switches'], case['sched'].get('opcode', False))
    return res


def vio(cls, **detail):
    return dict({'class': cls}, **detail)


def spread(r, n):
    """n numbers all over [0, 1), in random order."""
    out = [(i + r.random()) / n for i in range(n)]
    r.shuffle(out)
    return out


def gen_backend(r):
    return r.choice(['sql', 'sql', 'mysql', 'postgresql', 'sqlite'])


def cover_set(mod_globals):
    return set() if mod_globals.get('WANT_COVER') else None


def twist(r, x, p=0.3):
    """A near twin: values that compare equal but are not the same, other aliases, other order."""
    if isinstance(x, dict):
        d = {}
        for k, v in x.items():
            if k in ('kind', 'm', 'f', 'n', 'ctor', 'on'):
                d[k] = v
            else:
                d[k] = twist(r, v, p)
        return d
    if isinstance(x, list):
        if x and x[0] in ('l', 'tup') and len(x) == 2 and isinstance(x[1], list) and r.random() < p / 2 and x[0] == 'l':
            return ['tup', twist(r, x[1], p)]
        if x and x[0] == 'gc' and len(x) == 4:
            return ['gc', x[1], r.choice([[], ['b'], x[2]]) if r.random() < p else x[2], r.choice([None, '-', '+']) if r.random() < p else x[3]]
        if x and x[0] == 'fn' and len(x) > 2 and r.random() < p:
            if x[1] in ('sum', 'avg', 'count', 'max', 'min'):
                return ['fn', x[1] + '_distinct'] + x[2:]
            if x[1] == 'convert':
                return x[:3] + [r.choice(['char', 'unsigned', 'date'])]
            return x
        if x and x[0] == 'en':
            return x[1] if r.random() < p else x
        if x and x[0] == 'dt' and x[1] in spec.DTZ:
            return ['dt', r.choice(spec.DTZ)] if r.random() < p else x
        if x and x[0] in ('dec', 'by', 'd', 'dt', 'range', 'C', 'R', 'bad', 'gc', 'fn', 'sub', 'sh'):
            return x
        return [twist(r, y, p) for y in x]
    if r.random() >= p:
        return x
    if isinstance(x, (int, float)) and not isinstance(x, str) and x in (0, 1):
        if x == 0 and isinstance(x, float) and r.random() < 0.4:
            return -x
        opts = [True, 1.0, ['dec', '1'], 1] if x == 1 else [False, 0.0, -0.0, ['dec', '0'], ['dec', '-0'], 0]
        return r.choice([o for o in opts if type(o) is not type(x)])
    if isinstance(x, str) and x in ('a', 'b', 'A', 'B', '\u00e9') or x in spec.LONG:
        return x.swapcase() if r.random() < 0.5 or x not in spec.LONG else r.choice(spec.LONG)
    if x in spec.ALIASES:
        return r.choice(spec.ALIASES)
    return x
