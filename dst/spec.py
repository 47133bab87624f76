"""Workload language: JSON descriptions of arguments, queries and observations.

A value spec is a plain JSON scalar or a tagged list; `Env.make` turns it into the real
argument.  A program describes how one query is built through the public API.  Everything
is generated from a random.Random handed in by the caller.
"""
import collections
import datetime
import decimal
import enum
import itertools

COLS = ['a', 'b', 'c', 'd', 'A', 't1.a', 't2.b', 'db.t1.c', '"q.x"', 't1."y z"']
KCOLS = ['a', 'b', 'c', 'd', 'e', 'B']
TABS = ['t1', 't2', 'user', 'db.t1']
ALIASES = ['x', 'y', 't9']
STRS = ['a', 'b', 'A', ' a ', '\u00e9', 'e\u0301', '1', '', "o'k", 'a\\b', 'l\nm', 'žluť', '%x%', '"a"', '"t1"."a"', '`a`', '`t1`.`a`', 'DESC']
INTS = [0, 1, 2, 7, -3, 10 ** 12]
FLTS = [0.0, 1.0, 2.5, -3.0, -0.0]
DECS = ['0', '1', '2.50', '-0', '2.5']
DATES = ['2020-01-01', '2011-05-25']
DTS = ['2020-01-01T00:00:00', '2011-05-25T19:33:20']
DTZ = ['2020-01-01T12:00:00+00:00', '2020-01-01T13:00:00+01:00', '2020-01-01T06:30:00-05:30']     # one moment
NAMED = enum.Enum('NAMED', {x: x for x in 'abA'}, type=str)         # equal to the strings, printed differently
BYTES = ['', '61', '00ff']
PARTS = ['where', 'tables', 'columns', 'select_options', 'distinct', 'sql_cache', 'order_by', 'group_by', 'limit',
         'values', 'having', 'into_outfile', 'references', 'on_duplicate_key_update', 'ignore', 'nothing']
LONG = ['a_rather_long_name_of_one_thing', 'a_rather_long_name_of_one_thinG', 'a_rather_long_name_of_other_thing',
        'x' * 40, 'x' * 41, 'y' * 70, 'y' * 33 + 'z' + 'y' * 36, 'name_%s' % ('0123456789' * 12), 'name_%s9' % ('0123456789' * 12)]
LCOLS = ['a', 'b', 't1.a'] + LONG + ['t1.' + LONG[0], LONG[1] + '.' + LONG[2]]
LSTRS = STRS + LONG + ['z' * 300, 'z' * 301, 'z' * 150 + 'y' + 'z' * 149, 'z' * 150 + 'x' + 'z' * 149, "q'" * 60, 'z' * 1100]
CROWD = ['k%d' % i for i in range(24)]
CROWD2 = ['common_prefix_of_names_%d' % i for i in range(24)]
BI = ['list', 'list', 'map', 'chain', 'slice', 'zip', 'hint', 'hint0', 'hintmore']
BACKENDS = ['sql', 'mysql', 'postgresql', 'sqlite']


class Boom(Exception):
    """Raised by a failing caller-supplied object."""


EXCS = {'Boom': Boom, 'TypeError': TypeError, 'ValueError': ValueError, 'KeyError': KeyError,
        'AttributeError': AttributeError, 'IndexError': IndexError, 'OSError': OSError,
        'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'GeneratorExit': GeneratorExit,
        'AssertionError': AssertionError, 'RuntimeError': RuntimeError, 'LookupError': LookupError,
        'UnicodeDecodeError': UnicodeError, 'StopIteration': StopIteration}


class Opaque:
    """Something no database knows."""

    def __repr__(self):
        return '<opaque>'


class SaltedStr(str):
    """A string whose hash the simulator decides (hash seed behind a seam)."""
    salt = 0

    def __hash__(self):
        h = 1469598103934665603 ^ (SaltedStr.salt * 1099511628211)
        for ch in self:
            h = ((h ^ ord(ch)) * 1099511628211) & ((1 << 61) - 1)
        return h

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __deepcopy__(self, memo):
        return self


class UserSql:
    """A caller's own SQL object: anything with tosql() is accepted by the library."""

    def __init__(self, env, text, fail_at=None, exc='Boom', hook=None):
        self._env, self._text, self._n = env, text, 0
        self._fail_at, self._exc, self._hook = fail_at, exc, hook

    def tosql(self):
        self._n += 1
        if self._env.hooks_on and self._hook is not None:
            self._env.run_hook(self._hook)
        if self._env.faults_on and self._fail_at is not None and self._n >= self._fail_at:
            self._env.fault_fired('user-object')
            self._env.last_exc = self._exc
            raise EXCS[self._exc]('user object failed')
        return self._text

    __str__ = tosql

    def __deepcopy__(self, memo):
        c = UserSql(self._env, self._text, self._fail_at, self._exc, self._hook)
        memo[id(self)] = c
        return c


class Stream:
    """Iterator with a read log; fails at item `fail_at` (0-based) when asked to."""

    def __init__(self, env, items, fail_at=None, exc='Boom', hook=None):
        self.env, self.items, self.fail_at, self.exc, self.hook = env, items, fail_at, exc, hook
        self.pos = 0
        self.ended = False
        self.pulls_after_end = 0
        self.failed = False
        env.streams.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        if self.ended:
            self.pulls_after_end += 1
            raise StopIteration
        if self.env.hooks_on and self.hook is not None:
            self.env.run_hook(self.hook)
        if self.env.faults_on and self.fail_at is not None and self.pos >= self.fail_at:
            self.failed = True
            self.env.fault_fired('stream:' + self.exc)
            raise EXCS[self.exc]('stream failed')
        if self.pos >= len(self.items):
            self.ended = True
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]

    def __deepcopy__(self, memo):
        raise TypeError('a stream cannot be copied')


class ListIterator:
    """A list's own iterator tells how much of it was read."""
    failed, pulls_after_end, fail_at = False, 0, None

    def __init__(self, env, items):
        self.items = items
        self.it = iter(list(items))
        env.streams.append(self)

    @property
    def pos(self):
        return len(self.items) - self.it.__length_hint__()

    @property
    def ended(self):
        return not self.it.__length_hint__()


class Hinted:
    """An iterator that also says, rightly or wrongly, how many items it has."""

    def __init__(self, st, n):
        self.st, self.n = st, n

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.st)

    def __length_hint__(self):
        return self.n


class FailingDict(dict):
    """A mapping whose items cannot all be read."""

    def __init__(self, env, pairs, fail_at, exc):
        super().__init__(pairs)
        self._e, self._fail_at, self._exc = env, fail_at, exc

    def _it(self, it):
        for n, x in enumerate(it):
            if self._e.faults_on and n >= self._fail_at:
                self._e.fault_fired('mapping')
                raise EXCS[self._exc]('mapping failed')
            yield x

    def __iter__(self):
        return self._it(super().__iter__())

    def items(self):
        return self._it(super().items())

    def keys(self):
        return self._it(super().keys())

    def values(self):
        return self._it(super().values())

    def __getitem__(self, k):
        return super().__getitem__(k)


class FailingList(list):
    def __init__(self, env, items, fail_at, exc):
        super().__init__(items)
        self._e, self._fail_at, self._exc = env, fail_at, exc

    def __iter__(self):
        for n, x in enumerate(list.__iter__(self)):
            if self._e.faults_on and n >= self._fail_at:
                self._e.fault_fired('list')
                raise EXCS[self._exc]('list failed')
            yield x


class OwnList(list):
    """A caller's own kind of list."""


class OwnDict(dict):
    """A caller's own kind of dictionary."""


class OwnSet(set):
    """A caller's own kind of set."""


class FailingKey(str):
    """A name whose comparisons fail (sorting of dictionary arguments compares names)."""

    def __new__(cls, env, text, exc):
        s = str.__new__(cls, text)
        s._e, s._exc = env, exc
        return s

    def __hash__(self):
        return str.__hash__(self)

    def __eq__(self, other):
        return str.__eq__(self, other)

    def _cmp(self, other):
        if self._e.faults_on:
            self._e.fault_fired('key')
            raise EXCS[self._exc]('comparison failed')
        return NotImplemented

    __lt__ = __gt__ = __le__ = __ge__ = _cmp


LIBOBJ = {'V', 'R', 'rel', 'rela', 'Q', 'Qd', 'Ql', 'notd', 'notl', 'qop', 'not', 'ex', 'fn', 'gc', 'sub'}


class Env:
    """Materialisation context of one execution."""

    def __init__(self, sp, shared=None, salted=False):
        self.sp = sp
        self.shared = shared or []
        self.salted = salted
        self.streams = []
        self.faults_on = True
        self.hooks_on = True
        self.fired = []
        self.hook = None
        self.containers = []
        self.inner = []
        self.keep = False

    def fault_fired(self, kind):
        self.fired.append(kind)

    def run_hook(self, spec):
        if self.hook is not None:
            self.hook(spec)

    def s(self, text):
        """Always a new object, like text that came from outside; it dies with its last user."""
        return SaltedStr(text) if self.salted else text[:-1] + text[-1:]

    def _own(self, c):
        if self.keep:
            self.containers.append(c)
        return c

    def make(self, v):
        if isinstance(v, str):
            return self.s(v)
        if not isinstance(v, list):
            return v * 1.0 if isinstance(v, float) else v
        tag = v[0]
        if self.keep and tag in LIBOBJ:
            n = len(self.containers)
            obj = getattr(self, '_' + tag)(*v[1:])
            self.inner += self.containers[n:]       # the library call that took these has returned
            return obj
        return getattr(self, '_' + tag)(*v[1:])

    # scalars
    def _dec(self, s): return decimal.Decimal(s)
    def _by(self, s): return bytes.fromhex(s)
    def _d(self, s): return datetime.date.fromisoformat(s)
    def _dt(self, s): return datetime.datetime.fromisoformat(s)
    # collections
    def _l(self, items): return self._own([self.make(x) for x in items])
    def _ls(self, items): return self._own(OwnList(self.make(x) for x in items))
    def _dq(self, items): return self._own(collections.deque(self.make(x) for x in items))
    def _ss(self, items): return self._own(OwnSet(self.make(x) for x in items))
    def _dd(self, items): return self._own(collections.defaultdict(list, [(self.make(k), self.make(x)) for k, x in items]))
    def _tup(self, items): return tuple(self.make(x) for x in items)
    def _range(self, n): return range(n)
    def _set(self, items): return self._own(set(self.make(x) for x in items))
    def _fset(self, items): return frozenset(self.make(x) for x in items)
    def _dkeys(self, items): return self._dict(items).keys()
    def _ditems(self, items): return self._dict(items).items()
    def _dict(self, items): return self._own({self.make(k): self.make(x) for k, x in items})

    def _gen(self, items, fail_at=None, exc='Boom', hook=None):
        st = Stream(self, [self.make(x) for x in items], fail_at, exc, hook)
        return (x for x in st)

    def _it(self, items, fail_at=None, exc='Boom', hook=None):
        return Stream(self, [self.make(x) for x in items], fail_at, exc, hook)

    def _en(self, name): return NAMED[name]

    def _bi(self, items, how):
        """Iterators made by Python itself."""
        items = [self.make(x) for x in items]
        if how == 'list':
            return ListIterator(self, items).it
        st = Stream(self, items)
        return {'map': lambda: map(lambda x: x, st), 'chain': lambda: itertools.chain(st, ()), 'zip': lambda: (x for x, in zip(st)),
                'slice': lambda: itertools.islice(st, None), 'hint': lambda: Hinted(st, len(items)), 'hint0': lambda: Hinted(st, 0),
                'hintmore': lambda: Hinted(st, len(items) + 3)}[how]()

    def _fdict(self, items, fail_at, exc):
        return FailingDict(self, [(self.make(k), self.make(x)) for k, x in items], fail_at, exc)

    def _flist(self, items, fail_at, exc):
        return FailingList(self, [self.make(x) for x in items], fail_at, exc)

    def _fkey(self, text, exc): return FailingKey(self, text, exc)
    # library objects
    def _C(self, s): return self.sp.C(self.s(s))
    def _V(self, v): return self.sp.V(self.make(v))
    def _R(self, s): return self.sp.R(self.make(s))
    def _rel(self, name, v): return getattr(self.sp.relations, name)(self.make(v))
    def _rela(self, name, vs): return getattr(self.sp.relations, name)(*[self.make(x) for x in vs])
    def _Q(self, items): return self.sp.Q(**{k: self.make(x) for k, x in items})
    def _Qd(self, items): return self.sp.Q(self._own({self.make(k): self.make(x) for k, x in items}))

    def _Ql(self, items): return self.sp.Q(self._own([(self.make(k), self.make(x)) for k, x in items]))
    def _notd(self, items): return self.sp.Not(self._own({self.make(k): self.make(x) for k, x in items}))
    def _notl(self, items): return self.sp.Not(self._own([(self.make(k), self.make(x)) for k, x in items]))

    def _qop(self, op, l, r):
        l, r = self.make(l), self.make(r)
        return l & r if op == '&' else l | r

    def _not(self, items): return self.sp.Not(**{k: self.make(x) for k, x in items})
    def _ex(self, prog): return self.sp.exists(build(prog, self)[0])
    def _fn(self, name, *args): return getattr(self.sp, name)(*[self.make(x) for x in args])

    def _gc(self, cols, order, sep):
        g = self.sp.group_concat(*[self.make(x) for x in cols])
        if order:
            g.order_by(*[self.make(x) for x in order])
        if sep is not None:
            g.separator(sep)
        return g

    def _fC(self, text, fail_at, exc):
        env = self

        class FailingSql(self.sp.C):
            n = 0

            def __str__(self):
                FailingSql.n += 1
                if env.faults_on and FailingSql.n >= fail_at:
                    env.fault_fired('sql-object')
                    raise EXCS[exc]('SQL object failed')
                return super().__str__()
        return FailingSql(text)

    def _sub(self, prog): return build(prog, self)[0]
    def _to(self, text, fail_at=None, exc='Boom', hook=None): return UserSql(self, text, fail_at, exc, hook)
    def _sh(self, i): return self.shared[i % len(self.shared)] if self.shared else self.sp.C('shared')

    def _bad(self, kind):
        return {'obj': Opaque(), 'flt': 1.5, 'cls': Env, 'dict': {}, 'bool': True, 'set': {1}, 'int': 3,
                'ntup': (1, 2, 3), 'cplx': 1j, 'none': None}[kind]


def call_args(op, env):
    f = op.get('f', 'pos')
    if f == 'pos':
        return [env.make(x) for x in op.get('a', ())], {}
    items = [[env.make(x) for x in it] for it in op['items']]
    ldict = {1: OwnDict, 2: lambda x: collections.defaultdict(list, x)}.get(op.get('cls'), dict)
    llist = OwnList if op.get('cls') else list
    if f == 'kw':
        return [], {str(k): v for k, v in items}
    if f == 'dict':
        return [env._own(ldict({it[0]: (it[1] if len(it) > 1 else None) for it in items}))], {}
    if f == 'fdict':
        return [FailingDict(env, [(it[0], it[1]) for it in items], op['fail_at'], op['exc'])], {}
    if f == 'listpairs':
        return [env._own(llist([tuple(it) for it in items]))], {}
    if f == 'flist':
        return [FailingList(env, [tuple(it) for it in items], op['fail_at'], op['exc'])], {}
    if f == 'lists':
        return [env._own(llist(it)) for it in items], {}
    if f == 'mixed':
        return [it[0] if len(it) == 1 else tuple(it) for it in items], {}
    if f == 'two':
        return list(items[0]), {}
    if f == 'mixkw':            # some positional, some keyword
        n = op.get('n', 1)
        return ([it[0] if len(it) == 1 else tuple(it) for it in items[:n]],
                {str(it[0]): (it[1] if len(it) > 1 else None) for it in items[n:]})
    if f == 'dictkw':           # a dictionary and named arguments
        n = op.get('n', 1)
        return ([env._own(ldict({it[0]: (it[1] if len(it) > 1 else None) for it in items[:n]}))],
                {str(it[0]): (it[1] if len(it) > 1 else None) for it in items[n:]})
    raise ValueError(f)


def call(q, m, args, kwds):
    if m.endswith('='):             # an attribute that can be set (the sides of a union, the argument of a function)
        if not isinstance(getattr(type(q), m[:-1], None), property):
            raise AttributeError(m)
        return setattr(q, m[:-1], *args)
    return getattr(q, m)(*args, **kwds)


def apply(q, op, env):
    args, kwds = call_args(op, env)
    return call(q, op['m'], args, kwds)


def exc_name(e):
    n = type(e).__name__
    return n


class Broken:
    """Stands for a query whose constructor raised."""

    def __init__(self, exc):
        self.__dict__['exc'] = exc

    def _fail(self, *a, **k):
        raise BrokenQuery(self.__dict__['exc'])
    __str__ = __repr__ = tosql = copy = has = _fail

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self._fail


class BrokenQuery(Exception):
    pass


def new_query(prog, env, args=None):
    try:
        return _new_query(prog, env, args)
    except Exception as e:
        return Broken(exc_name(e))


def ctor_args(prog, env):
    return [env.make(x) for x in prog.get('ctor', ())], {a: env.make(x) for a, x in prog.get('ctorkw', ())}


def _new_query(prog, env, args=None):
    sp, k = env.sp, prog['kind']
    c, kw = args or ctor_args(prog, env)
    if k == 'select':
        return sp.select(*c, **kw)
    if k == 'select_from':
        return sp.select_from(*c, **kw)
    if k == 'insert':
        return sp.insert_into(*c) if c else sp.insert()
    if k == 'update':
        return sp.update(*c)
    if k == 'delete_from':
        return sp.delete_from(*c, **kw)
    if k == 'delete':
        return sp.delete(*c)
    if k == 'union':
        l, r = build(prog['l'], env)[0], build(prog['r'], env)[0]
        return l & r if prog['op'] == '&' else l | r
    if k == 'value':
        return env.make(prog['v'])
    raise ValueError(k)


def build(prog, env, ops=None):
    """Make the query and apply its operations; a raising operation is logged and skipped."""
    q = new_query(prog, env)
    log = []
    for op in (prog.get('ops', ()) if ops is None else ops):
        try:
            apply(q, op, env)
            log.append('ok')
        except Exception as e:
            log.append(exc_name(e))
    return q, log


def outcome(fn):
    try:
        return ['ok', fn()]
    except BaseException as e:
        if type(e).__name__ in ('SimAbort', 'HarnessError'):
            raise
        return ['exc', exc_name(e)]


def text(q):
    return outcome(lambda: str(q))


# ---------------------------------------------------------------- observations

def look(q, rd, env, twin=None):
    """One observation; returns a JSON-able outcome."""
    k = rd[0]
    sp = env.sp

    def go():
        if k == 'str':
            return str(q)
        if k == 'repr':
            return repr(q)
        if k == 'tosql':
            return q.tosql()
        if k == 'fmt':
            return '{}'.format(q)
        if k == 'pct':
            return '%s|%r' % (q, q)
        if k == 'has':
            return bool(q.has(*rd[1:]))
        if k == 'hash':
            return hash(q) == hash(q)
        if k == 'eq':
            return bool(q == (twin if twin is not None else q))
        if k == 'ne':
            return bool(q != (twin if twin is not None else 'zzz'))
        if k == 'eqr':
            return bool((twin if twin is not None else q) == q)
        if k == 'lt2':
            t = twin if twin is not None else sp.C('SELECT 5')
            return [bool(q < t), bool(t <= q), bool(q > t), bool(t >= q)]
        if k == 'sorted2':
            return [str(x) for x in sorted([q, twin if twin is not None else q, sp.C('B')], reverse=True)]
        if k == 'lt':
            return bool(q < 'SELECT "m"')
        if k == 'eqs':
            return bool(q == 'SELECT 1')
        if k == 'copy':
            c = q.copy()
            return str(c)
        if k == 'copyeq':
            return bool(q.copy() == q)
        if k == 'from':
            return str(sp.select_from((q, 'al')))
        if k == 'col':
            return str(sp.select((q, 'al')))
        if k == 'join':
            return str(sp.select_from('t1').left_join((q, 'al')).on('x', 'y'))
        if k == 'in':
            return str(sp.select_from('t1').where(a=sp.relations.IN(q)))
        if k == 'cond':
            return str(sp.select_from('t1').where('a', q))
        if k == 'exists':
            return str(sp.exists(q))
        if k == 'where':
            return str(sp.select_from('t1').where(q))
        if k == 'union':
            return str(q | sp.select('u')) + '/' + str(q & sp.select_from('u'))
        if k == 'qop':
            return str(q & sp.Q(z=1)) + '/' + str(sp.Q(z=1) | q)
        if k == 'sorted':
            return [str(x) for x in sorted([q, 'M', sp.C('B')])]
        raise ValueError(k)
    return outcome(go)


def known(prog):
    """(part, value) pairs that a query built by prog may really have."""
    names = {'where': 'where', 'having': 'having', 'columns': 'columns', 'from_': 'tables', 'from_tables': 'tables',
             'from_table': 'tables', 'order_by': 'order_by', 'group_by': 'group_by', 'values': 'values', 'set': 'values',
             'table': 'tables', 'into': 'tables', 'on_duplicate_key_update': 'on_duplicate_key_update'}
    out = []
    if prog['kind'] in ('select_from', 'update', 'delete_from', 'insert'):
        out += [['tables', x] for x in prog.get('ctor', ()) if isinstance(x, str)]
    elif prog['kind'] in ('select', 'delete'):
        out += [['columns' if prog['kind'] == 'select' else 'tables', x] for x in prog.get('ctor', ()) if isinstance(x, str)]
    for op in prog.get('ops', ()):
        if op['m'] in names:
            got = [it[0] for it in op.get('items', ()) if it] + list(op.get('a', ()))
            out += [[names[op['m']], x] for x in got if isinstance(x, str)]
        elif op['m'] in ('distinct', 'all', 'sql_cache', 'straight_join', 'high_priority', 'distinctrow'):
            out.append(['select_options', op['m']])
    return out


def gen_look(r, kind, embed=True, prog=None):
    if prog is not None and r.random() < 0.12:
        k = known(prog)
        if k:
            return ['has'] + r.choice(k)
    base = [['str'], ['str'], ['str'], ['repr'], ['tosql'], ['fmt'], ['pct'], ['has', r.choice(PARTS)],
            ['has', r.choice(PARTS), r.choice(['a', 'b', 't1', 'distinct', 't2'])],
            ['hash'], ['eq'], ['ne'], ['lt'], ['eqs'], ['copy'], ['copyeq'], ['sorted'], ['eqr'], ['lt2'], ['sorted2']]
    if kind == 'value':
        base = [['str'], ['str'], ['repr'], ['tosql'], ['fmt'], ['hash'], ['eq'], ['ne'], ['lt'], ['copy'], ['copyeq'], ['eqr'], ['lt2'], ['sorted2']]
        emb = [['col'], ['where'], ['cond']]
    elif kind in ('select', 'select_from', 'union'):
        emb = [['from'], ['col'], ['join'], ['in'], ['cond'], ['exists'], ['union']]
    else:
        emb = []
    return r.choice(base + emb) if embed else r.choice(base)


# ---------------------------------------------------------------- generators

def part_ops(r, g, v):
    """Calls that go on building a part."""
    if v[0] == 'gc':
        return [r.choice([{'m': 'order_by', 'f': 'mixed', 'items': [['b', 'desc']]}, {'m': 'separator', 'f': 'pos', 'a': ['+']}])]
    if v[0] in ('Q', 'Qd', 'Ql') and r.random() < 0.6:
        return [g.where_op() for _ in range(r.choice([1, 1, 2]))]
    if v[0] == 'fn' and v[1] != 'concat' and r.random() < 0.2:
        return [expr_op(r, g)]
    if v[0] == 'fn' and v[1] == 'convert':
        return [{'m': 'to', 'f': 'pos', 'a': [r.choice(['signed', 'char', 'binary'])]}] if r.random() < 0.6 else []
    if v[0] == 'fn' and v[1] != 'concat':
        return [{'m': 'distinct', 'f': 'pos', 'a': r.choice([[], [True], [False]])}] if r.random() < 0.6 else []
    return []

def expr_op(r, g):
    return {'m': 'expr=', 'f': 'pos', 'a': [r.choice(['b', 't1.c', ['l', ['a', 'b']], ['C', 'x + 1'], ['tup', ['d', 'b']]])]}


class Gen:
    """All choices come from r; `feat` (swarm) switches feature groups off per run."""

    def __init__(self, r, backend='sql', streams=True, user=True, sets=False, depth=2, objcols=True, big=None):
        self.r, self.backend = r, backend
        self.streams, self.user, self.sets = streams, user, sets
        self.depth = depth
        self.objcols = objcols
        self.subs = r.random() < 0.7
        self.fns = r.random() < 0.7
        self.objs = r.random() < 0.8
        self.shared = 0
        self.badlists = r.random() < 0.15
        self.dupjoin = r.random() < 0.7
        self.cols, self.kcols, self.tabs, self.aliases, self.strs = COLS, KCOLS, TABS, ALIASES, STRS
        self.longlists = 0
        if big is None:
            big = r.random() < 0.1
        if big:                             # long names, long strings, long lists
            self.cols, self.kcols, self.tabs, self.aliases, self.strs = LCOLS, LONG, LONG[:4] + ['t1'], LONG[3:], LSTRS
            self.longlists = r.choice([0.1, 0.4])
        self.crowd = 0 if big or r.random() > 0.06 else r.choice([0.3, 0.8])     # many columns, conditions, joins, rows
        if self.crowd:
            crowd = CROWD if r.random() < 0.6 else CROWD2
            self.cols, self.kcols = COLS[:6] + crowd, KCOLS + crowd
            self.tabs, self.aliases = TABS + ['u%d' % i for i in range(20)], ALIASES + ['z%d' % i for i in range(12)]

    def count(self, lo, hi):
        if self.crowd and self.r.random() < self.crowd:
            return self.r.choice([hi + 1, hi + 3, 8, 9, 12, 17])
        return self.r.randint(lo, hi)

    # values
    def scalar(self):
        r = self.r
        return r.choice([
            lambda: r.choice(self.strs), lambda: r.choice(self.strs), lambda: r.choice(INTS), lambda: r.choice(FLTS),
            lambda: ['dec', r.choice(DECS)], lambda: r.random() < 0.5, lambda: ['d', r.choice(DATES)],
            lambda: ['dt', r.choice(DTS if r.random() < 0.7 else DTZ)], lambda: ['en', r.choice('abA')] if r.random() < 0.25 else r.choice(INTS),
        ])()

    def items(self, lo=1, hi=4):
        r = self.r
        if self.longlists and r.random() < self.longlists:
            n = r.choice([17, 33, 50, 65, 101, 129, 260])
            out = [self.scalar() for _ in range(r.randint(1, 6))]
            out += list(range(n - len(out))) if r.random() < 0.5 else ['s%d' % i for i in range(n - len(out))]
        else:
            out = [self.scalar() for _ in range(r.randint(lo, hi))]
        if r.random() < 0.2:
            out.insert(r.choice([len(out), r.randint(0, len(out))]), None)
        return out

    def collection(self):
        r = self.r
        lo = 0 if self.badlists else 1
        x = r.random()
        if x < 0.35:
            return ['l', self.items(lo)]
        if x < 0.55:
            return ['tup', self.items(lo)]
        if x < 0.65:
            return ['range', r.randint(1, 4)]
        if self.streams:
            return ['gen', self.items(lo)]
        return ['l', self.items(lo)]

    def relation(self):
        r = self.r
        n = r.choice(['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'LIKE', 'NOT_LIKE', 'REGEXP', 'IN', 'NOT_IN', 'IS', 'IS_NOT', 'IN', 'NOT_IN'])
        if n in ('IN', 'NOT_IN'):
            x = r.random()
            if x < 0.1:
                return ['rel', n, [r.choice(['l', 'tup']), r.choice([[None, 1], [1, None, 'b'], [None], ['a', None]])]]
            if x < 0.2:
                return ['rela', n, self.items(2, 4)]
            if x < 0.4 and self.streams:
                return ['rel', n, ['bi', self.items(), r.choice(BI)] if r.random() < 0.2 else [r.choice(['gen', 'it']), self.items()]]
            if self.sets and x < 0.7:
                return ['rel', n, [r.choice(['set', 'fset']), self.uniq()]]
            return ['rel', n, ['l', self.items()]]
        if n in ('IS', 'IS_NOT'):
            return ['rel', n, r.choice([None, True, False])]
        if n in ('LIKE', 'NOT_LIKE', 'REGEXP'):
            return ['rel', n, r.choice(self.strs)]
        while True:
            v = self.scalar()
            if v is None or (isinstance(v, bool) and n not in ('EQ', 'NE')):
                continue
            return ['rel', n, v]

    def uniq(self, n=None):
        r = self.r
        return r.sample(['a', 'b', 'cc', 'd', 'e1', "o'k", 'zz', 'q', '7', 'm'], n or r.randint(2, 5))

    def cond_value(self, depth=None):
        r = self.r
        depth = self.depth if depth is None else depth
        x = r.random()
        if x < 0.4:
            return self.scalar()
        if x < 0.5:
            return None
        if x < 0.65:
            return self.collection()
        if x < 0.8:
            return self.relation()
        if not self.objs:
            return self.scalar()
        c = r.random()
        if c < 0.2:
            return ['C', r.choice(['NOW()', 'x + 1'])]
        if c < 0.45:
            return ['V', r.choice([self.scalar, self.collection, lambda: None])()]
        if c < 0.6:
            return ['R', r.choice(self.cols)]
        if c < 0.7 and self.user:
            return ['to', r.choice(['MYFN()', 'a - 1'])]
        if c < 0.75 and self.sets:
            return ['V', [r.choice(['set', 'fset']), self.uniq()]]
        if depth > 0 and self.subs:
            return ['sub', self.small_select(depth - 1)]
        return ['V', self.scalar()]

    def set_value(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return self.scalar()
        if x < 0.78:
            return None
        if x < 0.86:
            return ['by', r.choice(BYTES)]
        if not self.objs:
            return self.scalar()
        return r.choice([['C', 'x + 1'], ['R', r.choice(self.cols)], ['V', self.scalar()], ['to', 'MYFN()'] if self.user else 1])

    def function(self):
        r = self.r
        n = r.choice(['avg', 'avg_distinct', 'count', 'count_distinct', 'max', 'max_distinct', 'min', 'min_distinct',
                      'sum', 'sum_distinct', 'concat', 'gc', 'convert', 'count0', 'avgl'])
        c = r.choice(self.cols)
        if n == 'concat':
            return ['fn', 'concat'] + r.sample(self.kcols, self.count(1, 2))
        if n == 'gc':
            return ['gc', [c, r.choice(self.kcols)], r.choice([[], [c], [['tup', [c, 'desc']]]]), r.choice([None, '-', "'"])]
        if n == 'convert':
            return ['fn', 'convert', c, r.choice(['unsigned', 'char'])]
        if n == 'count0':
            return ['fn', 'count']
        if n == 'avgl':
            return ['fn', 'sum', ['l', [c, 'b']]]
        return ['fn', n, c]

    def column(self):
        r = self.r
        x = r.random()
        if x < 0.6 or not self.objs:
            return r.choice(self.cols + ['*', 't1.*'])
        if x < 0.8 and self.fns:
            return self.function()
        if x < 0.85:
            return ['C', r.choice(['IFNULL(a, 1)', 'NOW()'])]
        if x < 0.9:
            return ['V', self.scalar()]
        if x < 0.93:
            return r.choice([1, 2])
        if x < 0.96 and self.user:
            return ['to', 'MYFN(a)']
        if self.subs:
            return ['sub', self.small_select(0)]
        return 'a'

    def q(self, depth=2):
        r = self.r
        x = r.random()
        if depth > 0 and x < (0.8 if self.crowd else 0.5):
            return ['qop', r.choice('&|'), self.q(depth - 1), self.q(depth - 1)]
        return [r.choice(['Q', 'Q', 'Qd']), [[c, self.cond_value(0)] for c in r.sample(self.kcols, self.count(1, 2))]]

    def small_select(self, depth=0):
        r = self.r
        ops = []
        if r.random() < 0.6:
            ops.append({'m': 'where', 'f': 'kw', 'items': [[r.choice(self.kcols), self.cond_value(depth)]]})
        if r.random() < 0.3:
            ops += self.join_ops()
        if r.random() < 0.2:
            ops.append({'m': 'limit', 'f': 'pos', 'a': [r.randint(1, 5)]})
        return {'kind': 'select_from', 'ctor': [r.choice(self.tabs)], 'ops': ops}

    # operations
    def pairs_op(self, m, colgen, valgen, forms, lo=1, hi=3, kw=True):
        r = self.r
        f = r.choice(forms)
        n = self.count(lo, hi)
        if f == 'two':
            return {'m': m, 'f': f, 'items': [[colgen(), valgen()]]}
        if f in ('kw', 'dict'):
            cols = r.sample(self.kcols, n)
            op = {'m': m, 'f': f, 'items': [[c, valgen()] for c in cols]}
            if f == 'dict' and n > 1 and r.random() < 0.15:
                op.update(f='dictkw', n=r.randint(1, n - 1))
            return op
        return {'m': m, 'f': f, 'items': [[colgen(), valgen()] for _ in range(n)]}

    def condcol(self):
        r = self.r
        x = r.random()
        if x < 0.88 or not (self.objs and self.fns and self.objcols):
            return r.choice(self.cols)
        return self.function()

    def where_op(self, m='where'):
        r = self.r
        x = r.random()
        if x < 0.12 and self.objs:
            return {'m': m, 'f': 'pos', 'a': [self.q()]}
        if x < 0.17 and self.objs:
            return {'m': m, 'f': 'pos', 'a': [r.choice([['C', 'x = 1'], ['not', [['a', 1]]], ['to', 'MYFN() = 1'] if self.user else ['C', 'y']])]}
        if x < 0.2 and self.subs and self.objs:
            return {'m': m, 'f': 'pos', 'a': [['ex', self.small_select(0)]]}
        if x < 0.24 and self.objs:
            return {'m': m, 'f': 'pos', 'a': [self.q(1), self.q(1)]}
        if self.shared and x < 0.3:
            return {'m': m, 'f': 'two', 'items': [['a', ['sh', r.randrange(self.shared)]]]}
        return self.pairs_op(m, self.condcol, self.cond_value, ['kw', 'dict', 'listpairs', 'mixed', 'two', 'two', 'lists'])

    def join_arg(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.choice(self.tabs)
        if x < 0.7:
            return ['tup', [r.choice(self.tabs), r.choice(self.aliases)]]
        if x < 0.9 or not self.subs:
            return ['dict', [[r.choice(self.tabs), r.choice(self.aliases)]]]
        if x < 0.95:
            return ['dict', [[['sub', {'kind': 'select_from', 'ctor': ['t2'], 'ops': []}], 'z']]]
        return ['tup', [['sub', {'kind': 'select_from', 'ctor': ['t2'], 'ops': []}], 'z']]

    def join_ops(self):
        r = self.r
        ops = []
        kinds = ['join', 'inner_join', 'left_join', 'right_join']
        if getattr(self, 'fulljoin', False) and self.backend == 'postgresql':
            kinds.append('full_join')
        n = r.choice([3, 4, 6, 9]) if self.crowd and r.random() < self.crowd else r.randint(1, 2)
        for _ in range(n):
            arg, on = self.join_arg(), self.on_op()
            k = r.choice(kinds)
            ops.append({'m': k, 'f': 'pos', 'a': [arg]})
            if r.random() < 0.8:
                ops.append(on)
            else:
                on = None
            if self.dupjoin and r.random() < 0.5:
                k2 = r.choice(kinds)
                ops.append({'m': k2, 'f': 'pos', 'a': [arg]})
                if on is not None:
                    ops.append(on)
        return ops

    def on_op(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return {'m': 'on', 'f': 'two', 'items': [[r.choice(self.cols), r.choice(self.cols)]]}
        if x < 0.6:
            return {'m': 'on', 'f': 'two', 'items': [[r.choice(self.cols), ['rel', r.choice(['GT', 'LE', 'NE']), r.choice(self.cols)]]]}
        return self.where_op('on')

    def order_op(self, m):
        r = self.r
        f = r.choice(['mixed', 'mixed', 'kw', 'dict', 'lists'])
        srt = lambda: r.choice(['asc', 'desc', 'DESC', None])
        if f in ('kw', 'dict'):
            return {'m': m, 'f': f, 'items': [[c, srt()] for c in r.sample(self.kcols, self.count(1, 3))]}
        col = lambda: r.choice(self.kcols + self.cols + [1]) if r.random() < 0.85 or not (self.fns and self.objs) else self.function()
        items = [[col()] if r.random() < 0.5 and f == 'mixed' else [col(), srt()] for _ in range(self.count(1, 3))]
        return {'m': m, 'f': f, 'items': items}

    def columns_op(self):
        r = self.r
        f = r.choice(['mixed', 'mixed', 'kw', 'dict', 'mixkw'])
        if f in ('kw', 'dict'):
            return {'m': 'columns', 'f': f, 'items': [[c, r.choice(self.aliases + [None])] for c in r.sample(self.kcols, self.count(1, 3))]}
        if f == 'mixkw':
            return {'m': 'columns', 'f': f, 'n': 1, 'items': [[self.column()], [r.choice(self.kcols), r.choice(self.aliases)]]}
        items = [[self.column()] if r.random() < 0.6 else [self.column(), r.choice(self.aliases)] for _ in range(self.count(1, 3))]
        return {'m': 'columns', 'f': f, 'items': items}

    def from_op(self, m='from_'):
        r = self.r
        f = r.choice(['mixed', 'mixed', 'kw', 'dict'])
        if f in ('kw', 'dict'):
            return {'m': m, 'f': f, 'items': [[t, r.choice(self.aliases)] for t in r.sample(['t1', 't2', 'user'] if self.tabs is TABS else self.tabs, r.randint(1, 2))]}
        items = []
        for _ in range(self.count(1, 3)):
            t = r.choice(self.tabs) if r.random() < 0.85 or not self.subs else ['sub', self.small_select(0)]
            items.append([t] if r.random() < 0.6 and isinstance(t, str) else [t, r.choice(self.aliases)])
        return {'m': m, 'f': f, 'items': items}

    def select_op(self, state):
        r = self.r
        k = r.choice(['columns', 'from_', 'join', 'join', 'where', 'where', 'where', 'having', 'group_by', 'order_by',
                      'limit', 'offset', 'outfile', 'option', 'option', 'for_update', 'from_table'])
        if k == 'columns':
            return [self.columns_op()]
        if k == 'from_':
            return [self.from_op(r.choice(['from_', 'from_tables']))]
        if k == 'from_table':
            return [{'m': 'from_table', 'f': 'pos', 'a': [r.choice(self.tabs)] + r.choice([[], [r.choice(self.aliases)]])}]
        if k == 'join':
            return self.join_ops()
        if k == 'where':
            return [self.where_op()]
        if k == 'having':
            return [self.where_op('having')]
        if k in ('group_by', 'order_by'):
            return [self.order_op(k)]
        if k == 'limit':
            return [{'m': 'limit', 'f': 'pos', 'a': r.choice([[5], [7, 3], [None], [2, None], [9, 0], [0], [0, 4], [10 ** 9, 3]])}]
        if k == 'offset':
            return [{'m': 'offset', 'f': 'pos', 'a': [r.choice([0, 4, None, 10 ** 7])]}]
        if k == 'outfile':
            return [{'m': r.choice(['into_outfile', 'into_outfile', 'fields_terminated_by', 'lines_terminated_by', 'optionally_enclosed_by']),
                     'f': 'pos', 'a': [r.choice(['/tmp/x', ',', "'"])]}]
        if k == 'option':
            return [{'m': r.choice(['sql_cache', 'sql_no_cache', 'all', 'distinct', 'distinct', 'distinctrow', 'sql_small_result',
                                    'sql_big_result', 'sql_buffer_result', 'sql_calc_found_rows', 'straight_join', 'high_priority']),
                     'f': 'pos', 'a': r.choice([[], [], [True], [False]])}]
        return [{'m': 'for_update', 'f': 'pos', 'a': r.choice([[], [False]])}]

    def ops(self, kind, n):
        r = self.r
        out = []
        while len(out) < n:
            if kind in ('select', 'select_from'):
                out += self.select_op(None)
            elif kind == 'insert':
                out += self.insert_op()
            elif kind == 'update':
                out += self.update_op()
            elif kind == 'union':
                out += self.union_op()
            else:
                out += self.delete_op()
        return out

    def union_op(self):
        r = self.r
        if r.random() < 0.4:
            return [{'m': 'union_type=', 'f': 'pos', 'a': [r.choice(['UNION', 'UNION ALL'])]}]
        return [{'m': r.choice(['query1=', 'query2=']), 'f': 'pos', 'a': [['sub', self.small_select(0)]]}]

    def insert_op(self):
        r = self.r
        x = r.random()
        if x < 0.02:
            return [{'m': 'values', 'f': 'pos', 'a': []}]
        if x < 0.75:
            rows = r.choice([4, 8, 16]) if self.crowd and r.random() < self.crowd / 2 else 1
            return [self.pairs_op('values', lambda: r.choice(self.cols), self.set_value, ['kw', 'dict', 'listpairs', 'mixed', 'kw']) for _ in range(rows)]
        if x < 0.82:
            return [{'m': 'ignore', 'f': 'pos', 'a': r.choice([[], [False]])}]
        if x < 0.85:
            return [{'m': 'into', 'f': 'pos', 'a': [r.choice(self.tabs)]}]
        return self.odku()

    def odku(self):
        r = self.r
        b = self.backend
        items = [[c, self.set_value()] for c in r.sample(self.kcols, self.count(1, 3))]
        if b == 'mysql':
            return [{'m': 'on_duplicate_key_update', 'f': r.choice(['kw', 'dict', 'listpairs']), 'items': items}]
        if b == 'postgresql':
            return [{'m': 'on_duplicate_key_update', 'f': 'pos', 'a': [r.choice(self.kcols), ['dict', items]]}]
        return [{'m': 'on_duplicate_key_update', 'f': 'pos', 'a': []}]

    def update_op(self):
        r = self.r
        k = r.choice(['set', 'set', 'set', 'where', 'where', 'join', 'ignore', 'allow', 'forbid', 'table', 'setC'])
        if k == 'set':
            return [self.pairs_op('set', lambda: r.choice(self.cols), self.set_value, ['kw', 'dict', 'listpairs', 'mixed', 'two'])]
        if k == 'setC':
            return [{'m': 'set', 'f': 'pos', 'a': [['C', 'x = x + 1']]}]
        if k == 'where':
            return [self.where_op()]
        if k == 'join':
            return self.join_ops_nofull()
        if k == 'ignore':
            return [{'m': 'ignore', 'f': 'pos', 'a': r.choice([[], [False]])}]
        if k == 'table':
            return [{'m': 'table', 'f': 'pos', 'a': [r.choice(self.tabs)]}]
        return [{'m': {'allow': 'allow_update_all', 'forbid': 'forbid_update_all'}[k], 'f': 'pos', 'a': []}]

    def join_ops_nofull(self):
        return [o for o in self.join_ops() if o['m'] != 'full_join']

    def delete_op(self):
        r = self.r
        k = r.choice(['from_', 'where', 'where', 'where', 'join', 'ignore', 'allow', 'forbid', 'delete'])
        if k == 'from_':
            if r.random() < 0.2:
                return [{'m': 'from_table', 'f': 'pos', 'a': [r.choice(self.tabs)] + r.choice([[], [r.choice(self.aliases)]])}]
            return [self.from_op(r.choice(['from_', 'from_tables']))]
        if k == 'where':
            return [self.where_op()]
        if k == 'join':
            return self.join_ops_nofull()
        if k == 'delete':
            return [{'m': 'delete', 'f': 'pos', 'a': [r.choice(self.tabs)]}]
        if k == 'ignore':
            return [{'m': 'ignore', 'f': 'pos', 'a': r.choice([[], [False]])}]
        return [{'m': {'allow': 'allow_delete_all', 'forbid': 'forbid_delete_all'}[k], 'f': 'pos', 'a': []}]

    def program(self, n=None, kinds=None):
        r = self.r
        kind = r.choice(kinds or ['select', 'select', 'select', 'select_from', 'select_from', 'insert', 'update', 'delete_from', 'delete', 'union'])
        n = r.randint(1, 7) if n is None else n
        if kind == 'union':
            return {'kind': 'union', 'op': r.choice('&|'), 'l': self.program(max(1, n // 2), ['select', 'select_from'] * 4 + ['union']),
                    'r': self.program(max(1, n // 2), ['select', 'select_from'] * 4 + ['union']), 'ops': self.ops('union', 1) if r.random() < 0.2 else []}
        ctorkw = []
        if kind == 'select':
            ctor = [self.column() for _ in range(r.randint(0, 2))]
            ops = [self.from_op()] if r.random() < 0.9 else []
            if r.random() < 0.1:
                pairs = [[c, r.choice(self.aliases)] for c in r.sample(self.kcols, r.randint(1, 2))]
                if r.random() < 0.5:
                    ctorkw = pairs
                else:
                    ctor = [['dict', pairs]]
        elif kind == 'select_from':
            ctor, ops = [r.choice(self.tabs)], []
            if r.random() < 0.1:
                pairs = [[t, r.choice(self.aliases)] for t in r.sample(['t1', 't2', 'user'] if self.tabs is TABS else self.tabs, r.randint(1, 2))]
                if r.random() < 0.5:
                    ctor, ctorkw = [], pairs
                else:
                    ctor = [['dict', pairs]]
        elif kind == 'insert':
            ctor, ops = [r.choice(self.tabs)], []
            if r.random() < 0.15:
                ctor, ops = [], [{'m': 'into', 'f': 'pos', 'a': [r.choice(self.tabs)]}]
        elif kind == 'update':
            ctor, ops = [r.choice(self.tabs)], []
            if r.random() < 0.7:
                ops.append({'m': 'where', 'f': 'kw', 'items': [['a', 1]]})
        elif kind == 'delete':
            ctor, ops = [t for t in [r.choice(self.tabs)] if r.random() < 0.7], [self.from_op()]
            if r.random() < 0.7:
                ops.append({'m': 'where', 'f': 'kw', 'items': [['a', 1]]})
        else:
            ctor, ops = [r.choice(self.tabs)], []
            if r.random() < 0.7:
                ops.append({'m': 'where', 'f': 'kw', 'items': [['a', 1]]})
        ops = ops + self.ops(kind, n)
        if ctorkw:
            return {'kind': kind, 'ctor': ctor, 'ctorkw': ctorkw, 'ops': ops}
        return {'kind': kind, 'ctor': ctor, 'ops': ops}

    def part(self):
        """A shareable part: condition, value, function, reference, custom SQL."""
        r = self.r
        v = r.choice([self.q, lambda: self.q(2), self.function, self.function,
                      lambda: ['V', self.cond_value(0)], lambda: ['V', self.collection()],
                      lambda: ['Q', [[r.choice(self.kcols), self.relation()] for _ in range(r.randint(1, 2))]],
                      lambda: ['V', r.choice(["o'k", 'a\\b', "\\'", self.scalar(), ['by', '00ff']])],
                      lambda: ['R', r.choice(self.cols)], lambda: ['C', 'x = 1'],
                      lambda: ['not', [['a', self.cond_value(0)], ['b', 2]]],
                      lambda: ['ex', self.small_select(0)]])()
        return {'kind': 'value', 'v': v}
