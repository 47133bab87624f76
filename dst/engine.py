"""Seeded search over simulated runs, minimisation, replay files and evidence."""
import hashlib
import importlib
import json
import mmap
import os
import random
import struct
import sys
import time
import traceback

from . import kernel

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MASK = (1 << 63) - 1


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big') & MASK


def prop(pid):
    return importlib.import_module('dst.props.%s' % pid.lower())


def run_case(mod, seed, idx):
    r = random.Random(derive('run', mod.ID, seed, idx))
    case = mod.generate(r)
    case['_run'] = idx
    return case, execute(mod, case)


def execute(mod, case):
    try:
        return mod.execute(case)
    except kernel.Hang as e:
        if not e.fn.startswith('sim'):
            raise
        try:
            return mod.execute(case)
        except kernel.Hang as e2:       # twice, while the same calls alone do end
            return dict(violation={'class': 'no-progress', 'why': 'the run never ends'}, hash=0)
    except kernel.Deadlock as e:
        return dict(violation={'class': 'no-progress', 'why': str(e)}, hash=0)
    except kernel.LibraryError as e:
        if not e.fn.startswith('sim'):
            raise
        tb = [l.strip() for l in str(e).strip().splitlines()]
        return dict(violation={'class': 'unexpected-exception', 'exception': tb[-1], 'trace': tb[-7:]}, hash=0)


def merge(total, stats):
    for k, v in stats.items():
        if isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            merge(total.setdefault(k, {}), v)


def worker(mod, seed, w, W, n, shared, fd, deadline):
    kernel.load()
    total, hashes, cover, samples = {}, set(), set(), []
    found = None
    digest = 0
    done = 0
    for idx in range(w, n, W):
        if idx > struct.unpack_from('q', shared, 0)[0]:
            break
        if time.time() > deadline:
            if idx * 4 < n:
                raise kernel.HarnessError('deadline passed long before the planned runs were done')
            break                       # reported: evaluations < planned_runs
        mod.WANT_COVER = idx % 97 == 0
        case, out = run_case(mod, seed, idx)
        done += 1
        merge(total, out.get('stats', {}))
        h = out.get('hash')
        digest = (digest + derive(idx, h, out.get('log'))) & MASK
        if out.get('nontrivial', True):
            hashes.add(h)
        for c in out.get('cover', ()):
            cover.add(tuple(c))
        if len(samples) < 1 and out.get('nontrivial', True):
            samples.append({'run': idx, 'case': case, 'observed': out.get('log')})
        if out.get('violation'):
            found = [idx, case, out]
            if struct.unpack_from('q', shared, 0)[0] > idx:
                struct.pack_into('q', shared, 0, idx)
            break
    data = json.dumps(dict(total=total, hashes=sorted(str(h) for h in hashes), cover=sorted(cover), samples=samples,
                           found=found, digest=digest, done=done)).encode()
    while data:
        k = os.write(fd, data)
        data = data[k:]


def search(mod, seed, n, W, deadline):
    shared = mmap.mmap(-1, 8)
    struct.pack_into('q', shared, 0, 1 << 62)
    procs = []
    for w in range(W):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(mod, seed, w, W, n, shared, wr, deadline)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    import select
    bufs = {r: [] for _, r in procs}
    open_ = set(bufs)
    while open_:
        rd, _, _ = select.select(list(open_), [], [])
        for r in rd:
            b = os.read(r, 1 << 16)
            if b:
                bufs[r].append(b)
            else:
                open_.discard(r)
                os.close(r)
    outs, bad = [], False
    for pid, r in procs:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad = True
        else:
            outs.append(json.loads(b''.join(bufs[r])))
    found = sorted([o['found'] for o in outs if o['found']], key=lambda x: x[0])
    if bad and not found:
        raise kernel.HarnessError('a worker failed')
    res = dict(total={}, hashes=set(), cover=set(), samples=[], digest=0, done=0, found=found[0] if found else None)
    for o in outs:
        merge(res['total'], o['total'])
        res['hashes'].update(o['hashes'])
        res['cover'].update(tuple(c) for c in o['cover'])
        res['samples'] += o['samples']
        res['digest'] = (res['digest'] + o['digest']) & MASK
        res['done'] += o['done']
    res['samples'].sort(key=lambda s: s['run'])
    return res


# ---------------------------------------------------------------- minimisation

DROP = {'ops', 'items', 'tasks', 'sw', 'looks', 'plan', 'attempts', 'history', 'a', 'ctor', 'actors', 'acts', 'shared', 'nested',
        'variants', 'faults', 'fracs', 'progs', 'copies', 'orig'}


def _paths(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k in DROP and isinstance(x[k], list) and x[k]:
                yield path + (k,)
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from _paths(y, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _edit(case, path, new):
    c = json.loads(json.dumps(case))
    t = _get(c, path[:-1])
    t[path[-1]] = new
    return c


def _simpler(v):
    if isinstance(v, list) and v and isinstance(v[0], str) and v[0] in (
            'dec', 'by', 'd', 'dt', 'tup', 'range', 'C', 'V', 'R', 'rel', 'rela', 'Q', 'Qd', 'qop', 'not', 'ex', 'fn', 'gc', 'sub', 'to'):
        return True
    return False


def _vpaths(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _vpaths(x[k], path + (k,))
    elif isinstance(x, list):
        if _simpler(x) and path:
            yield path
        pairs = path and path[-1] == 'items'
        for i, y in enumerate(x):
            if pairs and isinstance(y, list):           # [name, value]
                for j, z in enumerate(y):
                    yield from _vpaths(z, path + (i, j))
            elif i == 1 and x[0] in ('Q', 'Qd', 'Ql', 'not', 'notd', 'notl', 'dict', 'dkeys', 'ditems') and isinstance(y, list):
                for j, pair in enumerate(y):
                    for k, z in enumerate(pair if isinstance(pair, list) else ()):
                        yield from _vpaths(z, path + (i, j, k))
            else:
                yield from _vpaths(y, path + (i,))


def fresh_execute(pid, case):
    """Execute in a new interpreter: for violations that depend on the layout of memory."""
    import subprocess
    import tempfile
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(case, f, sort_keys=True)
    try:
        p = subprocess.run([sys.executable, '-m', 'dst', 'exec1', pid, f.name], cwd=VERIF, capture_output=True, text=True, timeout=300)
        return json.loads(p.stdout) if p.returncode == 0 else {}
    finally:
        os.unlink(f.name)


def minimise(mod, case, cls, budget=600, seconds=60, execute=execute):
    """Shrink while the same class of violation persists."""
    t0 = time.time()
    left = [budget]

    def bad(c):
        if left[0] <= 0 or time.time() - t0 > seconds:
            return False
        left[0] -= 1
        try:
            out = execute(mod, c)
        except kernel.HarnessError:
            return False
        except Exception:
            return False
        return bool(out.get('violation')) and out['violation']['class'] == cls

    changed = True
    while changed and left[0] > 0:
        changed = False
        for path in sorted(_paths(case), key=lambda p: (len(p), str(p))):
            try:
                lst = _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst))
            while size >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + size:]
                    c = _edit(case, path, cand)
                    if bad(c):
                        case, lst, changed = c, cand, True
                    else:
                        i += size
                size //= 2
        for path in list(_vpaths(case)):
            try:
                _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            for simple in (1, 'a'):
                c = _edit(case, path, simple)
                if bad(c):
                    case, changed = c, True
                    break
    return case, budget - left[0]


# ---------------------------------------------------------------- commands

def known_findings(pid):
    """Findings recorded (not repaired) for this property: class -> description."""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                sig, desc = rest.split(' ', 1)
                out[sig] = desc
    return out


def check(pid, tier, seed):
    mod = prop(pid)
    t0 = time.time()
    n = mod.RUNS[tier]
    W = int(os.environ.get('VERIF_WORKERS', '0')) or os.cpu_count() or 4
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(W, int(n * scale))
    print('SEED %d property=%s tier=%s runs=%d workers=%d repo=%s' % (seed, pid, tier, n, W, kernel.REPO), flush=True)
    res = search(mod, seed, n, W, t0 + (600 if tier == 'quick' else 7200))
    res['planned'] = n
    extra = None
    vio = None
    if res['found'] is None and hasattr(mod, 'extra'):
        extra = mod.extra(seed, tier)
        merge(res['total'], extra.get('stats', {}))
        if extra.get('violation'):
            res['found'] = [-1, extra['case'], extra]
    code = 0
    if res['found']:
        idx, case, out = res['found']
        if idx >= 0:
            kernel.load()
        v = out['violation']
        case = out.get('replay', case)
        used, how, small = 0, 'process', case
        if idx >= 0:
            def same(o):
                return (o.get('violation') or {}).get('class') == v['class']
            stable = all(same(execute(mod, case)) for _ in range(2))
            if stable:
                small, used = minimise(mod, case, v['class'])
                last = [execute(mod, small) for _ in range(2)]
                stable = all(same(o) for o in last)
                if stable:
                    v = last[0]['violation']
            if not stable:              # depends on where objects lie: a new interpreter for every execution
                small, how = case, 'interpreter'
                fresh = [fresh_execute(pid, case) for _ in range(2)]
                if all(same(o) for o in fresh):
                    small, used = minimise(mod, case, v['class'], execute=lambda m, c: fresh_execute(pid, c))
                    last = fresh_execute(pid, small)
                    if same(last):
                        v = last['violation']
                    else:
                        small, v = case, fresh[0]['violation']
                else:
                    how = 'unstable'
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.json' % (pid, seed, idx))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, run=idx, violation=v, case=small, minimise_executions=used, fresh=how,
                           replay_cmd='sh /verif/dst/run.sh replay %s' % path), f, indent=1, sort_keys=True)
        print(json.dumps(v, indent=1, ensure_ascii=False))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        code, vio = 1, v
    wall = time.time() - t0
    evidence(mod, tier, seed, res, extra, wall, vio)
    for sig, desc in known_findings(pid).items():
        print('KNOWN-FINDING: property=%s %s' % (pid, desc))
    print('%s property=%s runs=%d distinct=%d digest=%016x wall=%.1fs' % (
        'FAIL' if code else 'PASS', pid, res['done'], len(res['hashes']), res['digest'], wall), flush=True)
    return code


def evidence(mod, tier, seed, res, extra, wall, vio):
    src = os.path.join(kernel.PKG)
    files = {}
    for fn, line in res['cover']:
        if fn.startswith(src):
            files.setdefault(os.path.relpath(fn, kernel.REPO), set()).add(line)
    total = dict(res['total'])
    cov = dict(
        evaluations=res['done'],
        planned_runs=res['planned'],
        distinct_nontrivial=len(res['hashes']),
        rule=mod.RULE,
        samples=[json.loads(json.dumps(s)) for s in res['samples'][:2]],
        simulated_runs_per_hour=int(res['done'] / max(wall, 1e-6) * 3600),
        seeds='run i uses sha256(VERIF_SEED=%d, property, i)' % seed,
        simulated_steps=total.pop('steps', 0),
        simulated_time='no clock in the system under test; simulated time is counted in scheduling points (source lines or bytecodes): see simulated_steps',
        faults_injected=total.pop('faults', {}),
        probes=total.pop('probes', {}),
        counters=total,
        lines_reached_in_sampled_runs={k: len(v) for k, v in sorted(files.items())},
        real_code=['all of sqlpuzzle from %s' % kernel.REPO, "CPython's threads, copy, re, decimal, functools"],
        stubs=['thread scheduler (parks and releases real threads)', 'threading.Lock/RLock if created by sqlpuzzle'] + list(getattr(mod, 'STUBS', [])),
        event_log_digest='%016x' % res['digest'],
    )
    if extra:
        cov['cross_process'] = extra.get('coverage')
    ev = dict(property=mod.ID, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'threads are preempted only between source lines (in some runs: bytecodes) of sqlpuzzle and copy.py',
                  'seeded sampling: a clean batch is evidence, not proof'],
              wall_s=round(wall, 2), violations=1 if vio else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', mod.ID + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, 'evidence', mod.ID + '.json'))


def replay(path):
    d = json.load(open(path))
    mod = prop(d['property'])
    kernel.load()
    if d['run'] < 0 and hasattr(mod, 'execute_extra'):
        out = mod.execute_extra(d['case'])
    elif d.get('fresh', 'process') != 'process':
        out = fresh_execute(d['property'], d['case'])
    else:
        out = execute(mod, d['case'])
    v = out.get('violation')
    print(json.dumps(v, indent=1, ensure_ascii=False))
    if v and v == d['violation']:
        print('REPRODUCED exactly')
    elif v:
        print('REPRODUCED, with a different detail')
    if v:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('NOT REPRODUCED (the property holds on this case now)')
    return 0


def selftest(pids, n):
    """Same seed, same digest: other worker counts, other processes, other hash seeds."""
    import subprocess
    ok = True
    for pid in pids:
        seen = set()
        for hs, W in (('0', 8), ('0', 3), ('1', 8), ('12345', 5), ('777', 8), ('0', 1)):
            for seed in (1, 2):
                env = dict(os.environ, PYTHONHASHSEED=hs)
                r = subprocess.run([sys.executable, '-m', 'dst', 'digest', pid, str(seed), str(n), str(W)],
                                   cwd=VERIF, env=env, capture_output=True, text=True)
                if r.returncode:
                    print(r.stderr)
                seen.add((seed, r.stdout.strip()))
        good = len(seen) == 2
        ok = ok and good
        print('%s %s %s' % (pid, 'deterministic' if good else 'DIVERGES', sorted(seen)), flush=True)
    return 0 if ok else 2


def main(argv):
    cmd = argv[1]
    try:
        if cmd == 'check':
            tier = argv[3] if len(argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
            return check(argv[2], tier, int(os.environ.get('VERIF_SEED', '1')))
        if cmd == 'setup':              # nothing to build; fail early if the library cannot be loaded
            kernel.load()
            for i in range(1, 16):
                prop('C%02d' % i)
            print('ready: sqlpuzzle from', kernel.REPO)
            return 0
        if cmd == 'exec1':
            case = json.load(open(argv[3]))
            kernel.load()
            json.dump({'violation': execute(prop(argv[2]), case).get('violation')}, sys.stdout)
            return 0
        if cmd == 'replay':
            return replay(argv[2])
        if cmd == 'digest':
            res = search(prop(argv[2]), int(argv[3]), int(argv[4]), int(argv[5]), time.time() + 3600)
            print('%016x %d %s' % (res['digest'], res['done'], bool(res['found'])))
            return 0
        if cmd == 'selftest':
            return selftest(argv[3:] or ['C%02d' % i for i in range(1, 16)], int(argv[2]))
        if cmd == 'hashbatch':
            kernel.load()
            json.dump(prop('C10').batch(int(argv[2]), int(argv[3])), sys.stdout)
            return 0
        if cmd == 'one':        # run one generated case, for debugging
            kernel.load()
            mod = prop(argv[2])
            case, out = run_case(mod, int(argv[3]), int(argv[4]))
            print(json.dumps(case, indent=1)[:6000])
            print(json.dumps(out, indent=1)[:6000])
            return 0
        print('usage: check ID [tier] | replay FILE | selftest N [ID..]')
        return 2
    except BaseException:
        traceback.print_exc()
        return 2
