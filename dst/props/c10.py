"""C10: the same calls give byte-identical SQL in every process."""
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from dst import spec, kernel
from dst.kernel import forked
from .common import *

ID = 'C10'
RUNS = {'quick': 12100, 'thorough': 330000}
WANT_COVER = False
RULE = ('one run = one program executed plainly and under several simulated environments (string hash salt, insertion order of dictionaries, '
        'keyword arguments and sets, heap layout), texts compared byte for byte; distinct = distinct case; non-trivial = some order really '
        'differed or string hashes were salted; plus whole batches recomputed in fresh interpreters under other PYTHONHASHSEEDs')
STUBS = ['hash of string arguments (salted by the seed)', 'insertion order of dict, keyword and set arguments', 'heap noise']


def setify(r, v):
    """Put sets where collections are accepted."""
    if isinstance(v, list):
        if v and v[0] == 'l' and r.random() < 0.3:
            return ['rel', 'IN', ['set', uniq(v[1])]] if v[1] else v
        if v and v[0] == 'rel' and v[1] in ('IN', 'NOT_IN') and isinstance(v[2], list) and v[2] and v[2][0] in ('l', 'tup'):
            return ['rel', v[1], collection(r, v[2][1])] if v[2][1] and r.random() < 0.7 else v
        if v and v[0] in ('gen', 'it', 'bi', 'tup', 'sub', 'ex'):
            return v
    return v


def collection(r, items):
    items = uniq(items)
    if r.random() < 0.2:
        items = items + [['to', t] for t in r.sample(['u1', 'u2', 'NOW()', 'u10', "'q'"], r.randint(1, 4))]
    if r.random() < 0.15:
        items = items + [['C', t] for t in r.sample(['u1', 'u2', 'NOW()', 'u10', "'q'"], r.randint(1, 4))]
    k = r.random()
    if k < 0.6 or len(items) < 2:
        return [r.choice(['set', 'fset']), items]
    if k < 0.75:
        n = r.randint(1, len(items) - 1)
        return [r.choice(['set', 'fset', 'l']), items[:n] + [['fset', items[n:]]] + [['fset', r.sample(['x', 'yy', 'z', 'w'], 2)]] * r.randint(0, 1)]
    return [r.choice(['dict', 'dkeys', 'ditems'] if k < 0.9 else ['dict', 'dkeys']), [[x, r.choice([1, 'v', None])] for x in items]]


def uniq(items):
    """Items that stay distinct inside a set."""
    out, seen = [], set()
    for x in items:
        if isinstance(x, list) and x and x[0] in ('l', 'tup', 'gen', 'it', 'bi', 'dict', 'dkeys', 'ditems', 'set', 'fset', 'V'):
            continue
        k = 1 if x is True else 0 if x is False else x if isinstance(x, (int, float)) else json.dumps(x)
        if isinstance(x, list) and x and x[0] == 'dec':
            k = float(x[1])
        if isinstance(x, list) and x and x[0] == 'en':
            k = json.dumps(x[1])
        if isinstance(x, list) and x and x[0] == 'dt' and len(x[1]) > 19:
            k = 'one moment'
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def walk(r, x):
    if isinstance(x, dict):
        return {k: walk(r, v) for k, v in x.items()}
    if isinstance(x, list):
        return setify(r, [walk(r, y) for y in x])
    return x


NAMES = ['id', 'ID', 'Id', 'iD', 'a', 'A', 'a1', 'a10', 'a2', 'a_', '_a', 'ab', 'Ab', 'aB', 'b', 'B', '\u00e9', '\u00c9', 'z', 'Z9', 'z10', 'bb', 'aaa']


def rename(r, x):
    """Confusable names where names come in dictionaries."""
    def names(items):
        if r.random() < 0.3 or len(items) > 8 or any(not isinstance(it, list) or not it or not isinstance(it[0], str) for it in items):
            return
        near = r.choice([NAMES, ['id', 'ID', 'Id', 'iD', 'x', 'X', 'ab', 'Ab'], ['a', 'A', 'b', 'B', 'ab', 'Ab', 'aB', 'AB']])
        for it, nm in zip(items, r.sample(near, len(items))):
            it[0] = nm
    if isinstance(x, dict):
        d = {k: rename(r, v) for k, v in x.items()}
        if d.get('f') in ('kw', 'dict', 'dictkw', 'listpairs') and d.get('m') not in ('from_', 'from_tables'):
            names(d['items'])
        return d
    if isinstance(x, list):
        y = [rename(r, v) for v in x]
        if y and y[0] in ('dict', 'Q', 'Qd', 'not') and len(y) == 2 and isinstance(y[1], list) and y[1] and isinstance(y[1][0], list):
            names(y[1])
        return y
    return x


def generate(r):
    for _ in range(4):
        case = generate1(r)
        n = [0]
        permute(random.Random(1), case['prog'], n)
        if n[0] or case['variants'][0]['salt']:
            break
    return case


def generate1(r):
    b = gen_backend(r)
    g = spec.Gen(r, b, sets=True)
    g.fulljoin = True
    prog = g.program(r.choice([1, 2, 4, 7])) if r.random() < 0.85 else g.part()
    if prog['kind'] == 'insert':
        for _ in range(r.randint(0, 3)):
            prog['ops'].append(g.pairs_op('values', lambda: r.choice(spec.COLS), g.set_value, ['kw', 'dict', 'listpairs']))
        if r.random() < 0.5:
            prog['ops'] += g.odku()
    if prog['kind'] in ('select', 'select_from') and r.random() < 0.4:
        for _ in range(r.randint(2, 4)):
            prog['ops'].append({'m': r.choice(['distinct', 'sql_cache', 'high_priority', 'straight_join', 'sql_big_result', 'sql_calc_found_rows',
                                               'sql_buffer_result']), 'f': 'pos', 'a': []})
    debug = prog['kind'] == 'value' and prog['v'][0] in ('rel', 'rela', 'V') and '"rel' in json.dumps(prog['v'])
    prog = walk(r, prog)
    if debug and any('["%s"' % k in json.dumps(prog) for k in ('to', 'C', 'set', 'fset')):      # a bare relation prints reprs, not SQL
        return generate1(r)
    if r.random() < 0.5:
        prog = rename(r, prog)
    if prog['kind'] not in ('value', 'union') and r.random() < 0.15:
        prog = object_names(r, prog)
    return dict(backend=b, prog=prog, variants=[{'salt': r.choice([0, r.getrandbits(32) | 1, r.getrandbits(32) | 1]), 'perm': r.getrandbits(32), 'junk': r.randint(0, 40)}
                                                for _ in range(r.choice([1, 2, 3]))])


def keys_differ(items):
    keys = [json.dumps(it[0]) for it in items if isinstance(it, list) and it]
    return len(set(keys)) == len(keys)


def object_names(r, prog):
    """SQL objects where names are expected, also ones that compare equal to a name."""
    for op in prog['ops']:
        if op.get('f') in ('dict', 'listpairs') and op.get('m') in ('values', 'set', 'columns', 'order_by', 'group_by') and r.random() < 0.5:
            seen = set()
            for it in op['items']:
                t = it[0]
                if isinstance(t, str) and t not in seen and r.random() < 0.5:
                    it[0] = r.choice([['C', t], ['C', t], ['R', t], ['to', t]] if op['m'] != 'values' else [['C', t], ['C', t], ['R', t]])
                seen.add(t)
    return prog


def permute(r, x, n):
    if isinstance(x, dict):
        d = {k: permute(r, v, n) for k, v in x.items()}
        if d.get('f') == 'dictkw' and keys_differ(d['items'][:d['n']]) and keys_differ(d['items'][d['n']:]):
            a, b = d['items'][:d['n']], d['items'][d['n']:]
            r.shuffle(a)
            r.shuffle(b)
            n[0] += a + b != d['items']
            d['items'] = a + b
        if d.get('f') in ('kw', 'dict') and len(d['items']) > 1 and keys_differ(d['items']):
            before = list(d['items'])
            r.shuffle(d['items'])
            n[0] += before != d['items']
        return d
    if isinstance(x, list):
        y = [permute(r, v, n) for v in x]
        if y and y[0] in ('dict', 'dkeys', 'ditems', 'set', 'fset', 'Q', 'Qd', 'not') and len(y) == 2 and isinstance(y[1], list) and len(y[1]) > 1 \
                and (y[0] in ('set', 'fset') or keys_differ(y[1])):
            before = list(y[1])
            r.shuffle(y[1])
            n[0] += before != y[1]
        return y
    return x


def dictify(x):
    """Keyword arguments as dictionaries: the salt cannot reach the names of keyword arguments."""
    if isinstance(x, dict):
        d = {k: dictify(v) for k, v in x.items()}
        if d.get('f') == 'kw':
            d['f'] = 'dict'
        return d
    if isinstance(x, list):
        y = [dictify(v) for v in x]
        return ['Qd'] + y[1:] if y and y[0] == 'Q' and len(y) == 2 and isinstance(y[1], list) else y
    return x


def simulate_plain(case):
    env = start(case)
    q, log = spec.build(case['prog'], env)
    return [log, snapshot(q, env)]


def simulate_variant(case, var):
    spec.SaltedStr.salt = var['salt']
    r = random.Random(var['perm'])
    kernel.ADDRESSES.salt = r.getrandbits(36) | 1
    n = [0]
    prog = permute(r, case['prog'], n)
    if var['salt']:
        prog = dictify(prog)
    env = start(case, salted=bool(var['salt']))
    junk = [[object() for _ in range(i % 7)] for i in range(var['junk'] * 20)]
    del junk[::3]
    q, log = spec.build(prog, env)
    return [log, snapshot(q, env), n[0], len(junk)]


def execute(case):
    want = forked(simulate_plain, case)
    v, orders = None, 0
    for var in case['variants']:
        got = forked(simulate_variant, case, var)
        orders += got[2]
        if got[:2] != want and v is None:
            v = vio('environment-shows', variant=var, plain=want, varied=got[:2])
    return finish(case, {'hash': case_hash(case)}, v,
                  {'steps': len(case['variants']), 'faults': {'hash-salt': len(case['variants']), 'reordered-container': orders,
                                                              'heap-noise': len(case['variants'])},
                   'kinds': {case['prog']['kind']: 1}}, log=want, nontrivial=orders > 0 or any(var['salt'] for var in case['variants']))


def batch(seed, n):
    """Texts of n programs in this interpreter."""
    from dst.engine import derive
    kernel.ADDRESSES.salt = int(os.environ['PYTHONHASHSEED'])
    out = []
    for i in range(n):
        case = generate(random.Random(derive('hash', seed, i)))
        env = start(case)
        q, log = spec.build(case['prog'], env)
        out.append([log, snapshot(q, env)])
    return out


def interpreter(seed, n, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, '-m', 'dst', 'hashbatch', str(seed), str(n)], cwd=os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__)))), env=env, capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise kernel.HarnessError(p.stderr)
    return json.loads(p.stdout)


def extra(seed, tier):
    n, seeds = (3000, 15) if tier == 'quick' else (20000, 80)
    r = random.Random(seed)
    hs = [0] + [r.randrange(1, 1 << 32) for _ in range(seeds)]
    out = dict(stats={'faults': {'interpreter-hash-seed': seeds}}, coverage={'programs': n, 'hash_seeds': hs}, violation=None)
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        texts = list(pool.map(lambda h: interpreter(seed, n, h), hs))
    base = texts[0]
    for h, got in zip(hs[1:], texts[1:]):
        for i, (a, b) in enumerate(zip(base, got)):
            if a != b:
                out['case'] = {'extra': True, 'seed': seed, 'n': n, 'i': i, 'hashseed': h}
                out['violation'] = vio('hash-seed-shows', program=i, hashseed=h, seed0=a, other=b)
                return out
    return out


def execute_extra(case):
    base = interpreter(case['seed'], case['n'], 0)[case['i']]
    got = interpreter(case['seed'], case['n'], case['hashseed'])[case['i']]
    v = None if base == got else vio('hash-seed-shows', program=case['i'], hashseed=case['hashseed'], seed0=base, other=got)
    return {'violation': v}
