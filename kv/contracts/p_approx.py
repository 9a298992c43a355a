"""P05 nearest colour search"""
import z3

from kv.engine.harness import contract
from kv.engine import sym as S
import pytermor.color as C

A = C.Approximator


def dist(x, y):
    return sum((((x >> s) & 255) - ((y >> s) & 255)) ** 2 for s in (16, 8, 0))


def sym_methods(cls):
    for n, f in list(vars(cls).items()):
        if callable(f) and hasattr(f, '__code__'):
            f._kv_symbolic = True
    return cls


class Col:
    """an arbitrary registered colour"""
    def __init__(self, index, hex_value): self.index, self.hex_value = index, hex_value


KEY = z3.Function('table_key', z3.IntSort(), z3.IntSort())
CH = [z3.Function('channel_' + c, z3.IntSort(), z3.IntSort()) for c in 'rgb']


def channels(e):
    """channels of a 24-bit value (contract of the conversion, proved in P04)"""
    e = S.toz(e)
    r = []
    for f in CH:
        v = f(e)
        S.E().fact(z3.And(v >= 0, v <= 255))
        r.append(S.mknum(v))
    return tuple(r)


def sdist(a, b):
    return S.simp(sum((S.toz(x) - S.toz(y)) * (S.toz(x) - S.toz(y)) for x, y in zip(channels(a), channels(b))))


@sym_methods
class Table:
    """lookup table with any number n >= 0 of entries"""
    def __init__(self, n): self.n = n

    def family(self, f):
        bv = z3.Int(S.E().fresh_name('entry'))
        k = KEY(bv)
        fa = [z3.And(k >= 0, k <= 0xffffff)]
        return S.VList([S.Flat(bv, 0, self.n.e, [(z3.BoolVal(True), fa, [f(S.mknum(k), Col(S.mknum(bv), S.mknum(k)))])])])
    def items(self): return self.family(lambda k, c: (k, c))
    def keys(self): return self.family(lambda k, c: k)
    def values(self): return self.family(lambda k, c: c)
    def __iter__(self): return self.keys()
    def __len__(self): return self.n
    def copy(self): return Copy(self)

    def __getitem__(self, k):
        raise S.Unsupported('lookup in the table')


class Copy:
    def __init__(self, of): self.of = of


def attrs(obj, want):
    d = obj.__dict__
    if set(d) != set(want):
        raise S.Unsupported(f'representation of {type(obj).__name__} changed: {sorted(d)}')


def make(ctx, table, cache):
    a = object.__new__(A)
    attrs(A(), ['_lookup_table', '_approximation_cache'])
    a.__dict__.update({'_lookup_table': table, '_approximation_cache': cache})
    return a


def stub_channels(ctx):
    def h(*a, **k):
        x = a[-1] if a else k['hex_value']
        if not (isinstance(x, S.SInt) or isinstance(x, int)):
            raise S.Unsupported('channels of ' + repr(x))
        return channels(x)
    ctx.stub(C.Color.hex_value_to_rgb_channels, h)


@contract('P05.approximate', ['P05'], native=0)
def _(ctx):
    """a table of any size: the list is ordered by distance, complete up to the requested length, nothing else"""
    n = ctx.int('n', 0)
    x = ctx.int('x', 0, 0xffffff)
    m = ctx.int('max', 0)
    default = ctx.bool('default_max')
    stub_channels(ctx)
    t = Table(n)
    out, ex = ctx.attempt(A.approximate, make(ctx, t, {}), x, *([] if default else [m]))
    if default:
        m = S.mknum(z3.IntVal(1))
    if ctx.truth(n == 0):
        ctx.ensure(ex is not None or ctx.truth(ctx.len(out) == 0), 'no colour from an empty table')
        return
    if ex is not None:
        return ctx.fail('no exception', repr(ex))
    ctx.ensure_eq(ctx.len(out), ctx.min(n, m), 'as many as requested, or all')
    if ctx.truth(ctx.len(out) == 0):
        return
    i = ctx.int('i', 0)
    ctx.assume(i < ctx.len(out))
    t0 = ctx.int('t', 0)
    ctx.assume(t0 < n)
    e = S.seq_index(out, i)
    ctx.ensure(isinstance(e, Col), 'a registered colour')
    hx = S.toz(e.hex_value)
    ctx.ensure(S.mkbool(z3.And(S.toz(e.index) >= 0, S.toz(e.index) < n.e)), 'of the table')
    if not ctx.interp.sorts:
        # a single minimum was chosen some other way: not within reach of the sorted() contract
        raise S.Unsupported('the result does not come from sorted()')
    so = ctx.interp.sorts[-1]
    pi, key = so['pi'], so['key']
    # instances of the contract of sorted(): order of (i, j), and of the position u of entry t
    j = ctx.int('j', 0)
    ctx.assume(j < n)
    u = ctx.int('u', 0)
    ctx.assume(u < n)
    S.E().fact(pi(u.e) == t0.e)
    for q in (i, j, u):
        S.E().fact(z3.And(pi(q.e) >= 0, pi(q.e) < n.e))
    ki, kj, ku = (S.toz(key(pi(q.e))) for q in (i, j, u))
    S.E().fact(z3.And(z3.Implies(i.e <= j.e, ki <= kj), z3.Implies(j.e <= i.e, kj <= ki),
                      z3.Implies(i.e <= u.e, ki <= ku), z3.Implies(u.e <= i.e, ku <= ki)))
    S.E().fact(z3.And(z3.Implies(pi(i.e) == pi(j.e), i.e == j.e), z3.Implies(pi(i.e) == pi(u.e), i.e == u.e)))
    ctx.ensure(S.mkbool(z3.Implies(i.e == 0, sdist(S.mknum(hx), x) <= sdist(S.mknum(KEY(t0.e)), x))),
               'the first one is at least as near as any registered colour')
    if ctx.truth(j < ctx.len(out)):
        f = S.seq_index(out, j)
        ctx.ensure(S.mkbool(z3.Implies(i.e < j.e, sdist(S.mknum(hx), x) <= sdist(f.hex_value, x))), 'ordered by distance')
        ctx.ensure(S.mkbool(z3.Implies(i.e != j.e, S.toz(e.index) != S.toz(f.index))), 'no colour twice')


@sym_methods
class Cache:
    """cache in an arbitrary state that satisfies the invariant (every entry is the fresh answer of its key)"""
    def __init__(self, ctx, n): self.ctx, self.n, self.log, self.hit = ctx, n, [], {}
    def keys(self): return self
    def __len__(self): return self.n

    def __contains__(self, h):
        k = repr(h)
        if k not in self.hit:
            c = S.E().choose(2) == 1
            if c:
                S.E().assume(S.mkbool(S.toz(self.n) > 0))
            self.hit[k] = c
        return self.hit[k]

    def get(self, h, default=None):
        return Fresh(h) if self.__contains__(h) else default

    def __getitem__(self, h):
        if not self.__contains__(h):
            S.raise_py(KeyError(h))
        return Fresh(h)

    def __setitem__(self, h, v): self.log.append(('set', h, v))
    def clear(self): self.log.append(('clear',))
    def copy(self): raise S.Unsupported('copy of the cache')


@sym_methods
class Copied:
    """copy of the lookup table used as the new cache"""
    def __init__(self, n): self.n, self.log = n, []
    def __len__(self): return self.n
    def __setitem__(self, h, v): self.log.append(('set', h, v))


class Fresh:
    """the fresh answer for a value (element of the set of nearest colours, chosen by approximate)"""
    def __init__(self, h): self.h = h


@sym_methods
class Table2:
    def __init__(self, n): self.n, self.log, self.hit = n, [], {}
    def copy(self): return Copied(self.n)
    def __len__(self): return self.n
    def keys(self): return self

    def __contains__(self, h):
        k = repr(h)
        if k not in self.hit:
            self.hit[k] = S.E().choose(2) == 1
        return self.hit[k]

    def __setitem__(self, h, v): self.log.append(('set', h, v))


@contract('P05.cache', ['P05'], native=0)
def _(ctx):
    """find_closest from any state: the answer is the fresh one, and the cache invariant is kept; with an empty table
    nothing is cached"""
    n = ctx.int('n', 0)
    m = ctx.int('cached', 0)
    h = ctx.int('h', 0, 0xffffff)
    cache, table = Cache(ctx, m), Table2(n)
    ctx.assume(S.mkbool(z3.Implies(n.e == 0, m.e == 0)))     # an empty table has no answers to cache
    calls = []

    def approximate(self, x, max_results=1):
        calls.append(x)
        if ctx.truth(n == 0):
            S.raise_py(LookupError('empty'))
        return S.VList.of([Fresh(x)])
    ctx.stub(A.approximate, approximate)
    a = make(ctx, table, cache)
    r = ctx.call(A.find_closest, a, h)
    if ctx.truth(n == 0):
        ctx.ensure(r is C.NOOP_COLOR_INDEXED, 'nothing registered: the empty colour')
        ctx.ensure(not [e for e in cache.log if e[0] == 'set'], 'and it is not cached')
        new = a._approximation_cache
        ctx.ensure(new is cache or isinstance(new, Copied) and not new.log or isinstance(new, (dict, S.VDict)) and
                   not (new if isinstance(new, dict) else new.items_), 'and it is not cached')
        return
    ctx.ensure(isinstance(r, Fresh), 'the nearest registered colour', repr(r))
    ctx.ensure_eq(r.h, h, 'of this very value')
    new = a._approximation_cache
    if isinstance(new, (Cache, Copied)):
        logs = new.log
    else:
        raise S.Unsupported('another kind of cache')
    for e in logs:
        if e[0] == 'set':
            ctx.ensure(isinstance(e[2], Fresh), 'only answers are cached')
            ctx.ensure_eq(e[2].h, e[1], 'under their own value')
    ctx.ensure(not table.log and a._lookup_table is table, 'the table is not changed')


@contract('P05.register', ['P05'], native=0)
def _(ctx):
    """add_to_map from any state: a value new to the table is added and no answer from before survives"""
    n = ctx.int('n', 0)
    m = ctx.int('cached', 0)
    h = ctx.int('h', 0, 0xffffff)
    none = ctx.bool('none')
    cache, table = Cache(ctx, m), Table2(n)
    a = make(ctx, table, cache)
    col = Col(0, None if none else h)
    ctx.call(A.add_to_map, a, col)
    ctx.ensure(a._lookup_table is table, 'same table')
    if none:
        ctx.ensure(not table.log, 'the empty colour is not registered')
        return
    if table.__contains__(h) and not table.log:
        return
    ctx.ensure(len(table.log) == 1 and table.log[0][2] is col, 'registered')
    ctx.ensure_eq(table.log[0][1], h, 'under its value')
    new = a._approximation_cache
    if new is cache:
        ctx.ensure(bool(cache.log) and cache.log[-1] == ('clear',), 'the cached answers are dropped')
    elif isinstance(new, (dict, S.VDict)):
        ctx.ensure(not (new if isinstance(new, dict) else new.items_), 'the cached answers are dropped')
    else:
        raise S.Unsupported('another kind of cache')


# ---- the real palettes and random ones, whole histories (bounded)
def hexes(rng):
    base = [0, 0xffffff, 0x800000, 0x808080, 0x0000ff, 0xc0c0c0, 0x7f7f7f, 0x123456, 0x5f87af]
    v = rng.choice(base)
    if rng.random() < .6:
        v ^= 1 << rng.randrange(24)
    if rng.random() < .3:
        v = rng.randrange(1 << 24)
    return v


@contract('P05.history', ['P05'], native=2500, proof=False)
def _(ctx):
    """any history of registrations and searches on a scratch palette"""
    def gen():
        h = []
        for _ in range(ctx.rng.randrange(1, 14)):
            h.append([ctx.rng.choice(['add', 'find', 'find', 'list']), hexes(ctx.rng), ctx.rng.randrange(0, 6)])
        return h
    a, table = A(), {}
    for op, x, k in ctx._take('history', gen):
        if op == 'add':
            c = object.__new__(C.ColorIndexed256)
            for slot, v in (('_hex_value', x), ('_code', 17)):
                c.__dict__[slot] = v
            ctx.call(a.add_to_map, c)
            table.setdefault(x, c)
        elif not table:
            if op == 'find':
                ctx.ensure(ctx.call(a.find_closest, x) is C.NOOP_COLOR_INDEXED, 'nothing registered')
        elif op == 'find':
            r = ctx.call(a.find_closest, x)
            best = min(dist(x, q) for q in table)
            ctx.ensure(r.hex_value in table and table[r.hex_value] is r, 'a registered colour')
            ctx.ensure(dist(r.hex_value, x) == best, 'nearest', f'{x:06x}: {r.hex_value:06x} of {[f"{q:06x}" for q in table]}')
            ctx.ensure(ctx.call(a.find_closest, x) is r, 'the same answer again')
            ctx.ensure(ctx.call(a.approximate, x)[0] is r, 'the cached answer is the fresh one')
        else:
            r = ctx.call(a.approximate, x, k)
            ds = [dist(x, c.hex_value) for c in r]
            ctx.ensure(ds == sorted(dist(x, q) for q in table)[:k], 'ordered list of the nearest')


@contract('P05.palettes', ['P05'], native=2500, proof=False)
def _(ctx):
    """the registered palettes of the program"""
    x = ctx.int('x', 0, 0xffffff, rnd=hexes)
    cls = ctx.choice('palette', [C.ColorIndexed16, C.ColorIndexed256])
    k = ctx.choice('max', [1, 2, 5, 300])
    cols = [c for c in vars(C.Colors).values() if type(c) is cls]
    r = ctx.call(cls.find_closest, x)
    best = min(dist(x, c.hex_value) for c in cols)
    ctx.ensure(type(r) is cls and dist(r.hex_value, x) == best, 'nearest', f'{x:06x}: {r.hex_value:06x}')
    ls = ctx.call(cls._approximator.approximate, x, k)
    ctx.ensure([dist(c.hex_value, x) for c in ls] == sorted(dist(x, h) for h in {c.hex_value for c in cols})[:k], 'ordered list')
    for c in cols[:: 17]:
        ctx.ensure(ctx.call(cls.find_closest, c.hex_value).hex_value == c.hex_value, 'a registered value stands for itself')
