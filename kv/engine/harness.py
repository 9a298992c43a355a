"""Contracts are Python functions over a context: the same function is explored symbolically (proof), executed
natively on the values of a solver model (replay) and natively on random values (search and cross-check)."""
from __future__ import annotations

import os
import random
import time
import traceback

import z3

from . import sym as S
from .sym import *  # noqa
from .interp import Interp, SRC_BY_DECL

CONTRACTS: dict = {}


class Contract:
    def __init__(self, name, run, props, native=200, timeout_ms=8000, budget=240, bounded=False, proof=True,
                 title='', max_paths=20000, native_thorough=None, note=''):
        self.name, self.run, self.props, self.native = name, run, props, native
        self.timeout_ms, self.budget, self.bounded, self.proof = timeout_ms, budget, bounded, proof
        self.title, self.max_paths, self.note = title or (run.__doc__ or '').strip(), max_paths, note
        self.native_thorough = native_thorough


def contract(name, props, **kw):
    def deco(f):
        CONTRACTS[name] = Contract(name, f, props, **kw)
        return f
    return deco


class Skip(BaseException):
    """native run: an assumption does not hold"""


class Broken(Exception):
    """native run: an obligation does not hold"""
    def __init__(self, name, detail): super().__init__(f'{name}: {detail}'); self.oblig, self.detail = name, detail


# ---------------------------------------------------------------------------------------------- declared inputs
class In:
    name = ''
    def small(self): return []
    def value(self, m): return None


def mval(m, e):
    r = m.eval(e, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return r.numerator_as_long() / r.denominator_as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    raise ValueError(r)


class IntIn(In):
    def __init__(self, name, e): self.name, self.e = name, e
    def small(self): return [self.e] if self.e.sort() == INT else []
    def value(self, m): return mval(m, self.e)


class ChoiceIn(In):
    def __init__(self, name, k): self.name, self.k = name, k
    def value(self, m): return self.k


class SeqIn(In):
    def __init__(self, name, src, n, kind): self.name, self.src, self.n, self.kind = name, src, n, kind
    def small(self): return [self.n]
    def value(self, m):
        n = mval(m, self.n)
        if n > 4000:
            raise ValueError('too long')
        f = z3.Function(f'el_{self.src.name}', *[INT] * (len(self.src.args) + 1), INT)
        vals = []
        for i in range(n):
            v = mval(m, f(*self.src.args, z3.IntVal(i)))
            if not (self.src.lo <= v <= self.src.hi):
                v = self.src.lo + (v % (self.src.hi - self.src.lo + 1))
            if self.src.only and not any(a <= v <= b for a, b in self.src.only):
                v = self.src.only[0][0]
            vals.append(v)
        return bytes(vals) if self.kind == 'bytes' else ''.join(map(chr, vals)) if self.kind == 'str' else vals


class FnIn(In):
    """input computed by an arbitrary function of the model"""
    def __init__(self, name, f, small=()): self.name, self.f, self._s = name, f, list(small)
    def small(self): return self._s
    def value(self, m): return self.f(m)


# ---------------------------------------------------------------------------------------------- contexts
class SymCtx:
    symbolic = True

    def __init__(self):
        self.interp = Interp()
        S.E().weak = False

    @property
    def eng(self): return S.E()

    # inputs
    def int(self, name, lo=None, hi=None, rnd=None):
        e = z3.Int('in_' + name)
        if lo is not None:
            self.eng.add(e >= S.toz(lo))
        if hi is not None:
            self.eng.add(e <= S.toz(hi))
        self.eng.inputs.append(IntIn(name, e))
        return SInt(e)

    def real(self, name, rnd=None):
        e = z3.Real('in_' + name)
        self.eng.inputs.append(IntIn(name, e))
        return SReal(e)

    def num(self, name, lo, hi):
        """an integer of the program, generalised to any real in the range"""
        e = z3.Real('in_' + name)
        self.eng.add(z3.And(e >= lo, e <= hi))
        self.eng.inputs.append(FnIn(name, lambda m: int(mval(m, e))))
        return SReal(e)

    def loop(self, fn, make, **kw):
        from .loops import provider
        self.interp.loop_providers.append(provider(fn, lambda it, fr, node: make(it, fr, node), **kw))

    def stub(self, fn, handler):
        """use the contract of a callee instead of its body (the contract is proved by its own harness)"""
        self.interp.stub(fn, lambda it, a, k: handler(*a, **k))

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, values):
        k = self.eng.choose(len(values))
        self.eng.inputs.append(ChoiceIn(name, k))
        return values[k]

    def flag(self, name):
        """a boolean the program decides upon lazily"""
        e = z3.Bool('in_' + name)
        self.eng.inputs.append(IntIn(name, e))
        return SBool(e)

    def _seq(self, name, kind, minlen, maxlen, lo, hi, exact=None, only=None, tags=()):
        src = Source('in_' + name, kind, lo, hi, tags=tags, only=only)
        self.register(src)
        if exact is not None:
            n = z3.IntVal(exact) if isinstance(exact, int) else S.toz(exact)
        else:
            n = z3.Int('len_in_' + name)
            self.eng.add(n >= minlen)
            if maxlen is not None:
                self.eng.add(n <= maxlen)
        self.eng.inputs.append(SeqIn(name, src, n, kind))
        return src, n

    def register(self, src):
        SRC_BY_DECL[f'el_{src.name}'] = src

    def bytes(self, name, minlen=0, maxlen=None, lo=0, hi=255, exact=None, alphabet=None, only=None, tags=(), gen=None):
        src, n = self._seq(name, 'bytes', minlen, maxlen, lo, hi, exact, only, tags)
        return S.norm(Rope('bytes', [Slice(src, 0, n)]))

    def str(self, name, minlen=0, maxlen=None, lo=32, hi=0xd7ff, exact=None, alphabet=None):
        src, n = self._seq(name, 'str', minlen, maxlen, lo, hi, exact)
        return S.norm(Rope('str', [Slice(src, 0, n)]))

    def ints(self, name, minlen=0, maxlen=None, lo=0, hi=255):
        src, n = self._seq(name, 'list', minlen, maxlen, lo, hi)
        return VList([Slice(src, 0, n)])

    # program
    def call(self, f, *a, **k):
        """call that must not raise"""
        v, ex = self.attempt(f, *a, **k)
        if ex is not None:
            self.eng.fail('no exception', f'{type(ex).__name__}: {ex} from {getattr(f, "__qualname__", f)}', hard=True)
            raise Infeasible
        return v

    def attempt(self, f, *a, **k):
        try:
            return self.interp.call(f, [self.arg(x) for x in a], {n: self.arg(x) for n, x in k.items()}), None
        except PyExc as px:
            return None, px.exc

    def arg(self, x):
        if type(x) is list:
            return VList.of(x)
        return x

    def get(self, obj, attr): return self.interp.getattr(obj, attr)

    def set(self, obj, attr, v):
        d = obj.__dict__ if not isinstance(obj, type) else None
        old = getattr(obj, attr, _MISSING) if d is None else d.get(attr, _MISSING)
        if old is _MISSING and not hasattr(type(obj), attr):
            raise S.Unsupported(f'{type(obj).__name__} has no attribute {attr}: representation changed')

        def undo():
            if old is _MISSING:
                if d is None:
                    delattr(obj, attr)
                else:
                    d.pop(attr, None)
            elif d is None:
                setattr(obj, attr, old)
            else:
                d[attr] = old
        self.eng.undo_push(undo)
        if d is None:
            setattr(obj, attr, self.arg(v))
        else:
            d[attr] = self.arg(v)

    def lift(self, obj):
        """list attributes of a natively created object become symbolic lists with the same elements"""
        import collections
        for n, v in list(vars(obj).items()):
            if type(v) is list:
                self.set(obj, n, VList.of(v))
            elif isinstance(v, collections.deque):
                self.set(obj, n, VList.of(list(v), 'deque'))

    def make(self, proto, **attrs):
        """an object of the same class as the real object proto with the given attribute values"""
        if set(attrs) != set(proto.__dict__):
            raise S.Unsupported(f'{type(proto).__name__}: representation changed')
        o = object.__new__(type(proto))
        o.__dict__.update(attrs)
        return o

    # obligations
    def assume(self, c):
        self.eng.assume(c)
        if not self.eng.feasible():
            raise Infeasible

    def ensure(self, c, name, detail=''):
        c = self.interp.truth_value(c) if not isinstance(c, (SBool, bool)) and not z3.is_expr(c) else c
        self.eng.prove(c, name, detail)

    def ensure_eq(self, a, b, name): S.prove_eq(a, b, name)

    def fail(self, name, detail=''): self.eng.fail(name, detail, hard=True)

    def lang_empty(self, dfa, name, values, ok=None):
        """obligation over a regular language: it has no word; a shortest word is the counterexample"""
        self.eng.obligations += 1
        w = dfa.witness(ok)
        if w is None:
            self.eng.discharged += 1
            self.eng.used_assumptions.add('the automata engine kv/engine/rx.py decides languages of regular expressions '
                                          '(cross-checked against re)')
            return True
        shown = dfa.al.show(w)
        self.eng.failures.append(S.Failure(name, 'soft' if self.eng.weak else 'hard', f'counterexample {shown!r}', values(shown)))
        return False

    def cover(self, name): self.eng.cover(name)

    # helpers
    def truth(self, c): return self.interp.truth(c)
    def len(self, v): return S.seq_len(v)
    def items(self, v): return self.interp.iter_concrete(v)
    def list(self, vals): return VList.of(list(vals))
    def slice(self, v, a, b): return S.seq_slice(v, a, b)
    def min(self, a, b): return mknum(z3.If(S.toz(a) <= S.toz(b), S.toz(a), S.toz(b)))
    def max(self, a, b): return mknum(z3.If(S.toz(a) >= S.toz(b), S.toz(a), S.toz(b)))
    def And(self, *c): return S.sym_and(*c)
    def Or(self, *c): return S.sym_or(*c)
    def Not(self, c): return S.sym_not(c)
    def implies(self, a, b): return S.sym_implies(a, b)
    def eq(self, a, b): return self.interp.eq(a, b)
    def fmt(self, v, spec): return self.interp.format(v, spec)
    def entails(self, c): return self.eng.entails(c)
    def join(self, sep, vals): return self.interp.call(getattr(sep, 'join'), [vals])
    def map(self, f, vals):
        from .interp import _b_map
        if hasattr(f, '__code__'):
            f._kv_symbolic = True
        return _b_map(self.interp, f, vals)
    def op(self, name, a, b):
        import ast
        return self.interp.binop(getattr(ast, name)(), a, b)
    def cat(self, *vs): return S.cat(*vs)


_MISSING = object()


class NatCtx:
    symbolic = False

    def __init__(self, values=None, rng=None):
        self.values = values
        self.rng = rng or random.Random(0)
        self.used = {}
        self.undo = []
        self.checked = 0

    def _take(self, name, gen):
        if self.values is not None and name in self.values and self.values[name] is not None:
            v = self.values[name]
        else:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, rnd=None):
        def gen():
            if rnd is not None:
                return rnd(self.rng)
            a = lo if lo is not None else -1000
            b = hi if hi is not None else a + self.rng.choice([3, 20, 300, 70000])
            c = self.rng.random()
            if c < .15:
                return a
            if c < .3 and hi is not None:
                return b
            if c < .6:
                return min(b, a + self.rng.randrange(0, 12))
            return self.rng.randint(a, b)
        return self._take(name, gen)

    def real(self, name, rnd=None):
        return self._take(name, lambda: rnd(self.rng) if rnd else self.rng.choice(
            [0.0, self.rng.uniform(-10, 10), self.rng.uniform(-1e6, 1e6), float(self.rng.randint(-100, 100))]))

    def num(self, name, lo, hi): return self.int(name, lo, hi)

    def stub(self, fn, handler): pass
    def lift(self, obj): pass
    def loop(self, fn, make, **kw): pass

    def bool(self, name): return self.choice(name, [False, True])
    def flag(self, name): return self._take(name, lambda: self.rng.random() < .3)

    def choice(self, name, values):
        return values[self._take(name, lambda: self.rng.randrange(len(values)))]

    def _len(self, minlen, maxlen, exact):
        if exact is not None:
            return exact
        n = minlen + self.rng.choice([0, 1, 2, 3, 5, 8, 17])
        return n if maxlen is None else min(n, maxlen)

    def bytes(self, name, minlen=0, maxlen=None, lo=0, hi=255, exact=None, alphabet=None, only=None, tags=(), gen=None):
        if gen is not None:
            return self._take(name, lambda: gen(self.rng))
        if only is not None:
            alphabet = [x for a, b in only for x in range(a, b + 1)]

        def gen():
            n = self._len(minlen, maxlen, exact)
            if only or alphabet and self.rng.random() < .7:
                return bytes(self.rng.choice(alphabet) for _ in range(n))
            return bytes(self.rng.randint(lo, hi) for _ in range(n))
        return self._take(name, gen)

    def str(self, name, minlen=0, maxlen=None, lo=32, hi=0xd7ff, exact=None, alphabet=None):
        def gen():
            n = self._len(minlen, maxlen, exact)
            if alphabet and self.rng.random() < .8:
                return ''.join(self.rng.choice(alphabet) for _ in range(n))
            return ''.join(chr(self.rng.randint(lo, self.rng.choice([min(hi, max(lo, 127)), hi]))) for _ in range(n))
        return self._take(name, gen)

    def ints(self, name, minlen=0, maxlen=None, lo=0, hi=255):
        return self._take(name, lambda: [self.rng.randint(lo, hi) for _ in range(self._len(minlen, maxlen, None))])

    def call(self, f, *a, **k):
        v, ex = self.attempt(f, *a, **k)
        if ex is not None:
            src = raised_in(ex)
            raise Broken('no exception', f'{type(ex).__name__}: {ex} from {getattr(f, "__qualname__", f)} raised in {src}')
        return v

    def attempt(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except (Skip, Broken):
            raise
        except Exception as ex:  # noqa
            return None, ex

    def get(self, obj, attr): return getattr(obj, attr)

    def set(self, obj, attr, v):
        d = None if isinstance(obj, type) or not hasattr(obj, '__dict__') else obj.__dict__
        if d is None:
            old = obj.__dict__.get(attr, _MISSING) if hasattr(obj, '__dict__') else getattr(obj, attr, _MISSING)
            self.undo.append(lambda: delattr(obj, attr) if old is _MISSING else setattr(obj, attr, old))
            setattr(obj, attr, v)
        else:
            old = d.get(attr, _MISSING)
            self.undo.append(lambda: d.pop(attr, None) if old is _MISSING else d.__setitem__(attr, old))
            d[attr] = v

    def restore(self):
        while self.undo:
            self.undo.pop()()

    def assume(self, c):
        if not c:
            raise Skip

    def ensure(self, c, name, detail=''):
        self.checked += 1
        if not c:
            raise Broken(name, detail or 'condition is false')

    def ensure_eq(self, a, b, name):
        self.checked += 1
        if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))) \
                and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or not nat_eq(a, b):
            raise Broken(name, f'{a!r:.300} != {b!r:.300}')

    def fail(self, name, detail=''): raise Broken(name, detail)
    def cover(self, name): pass
    def truth(self, c): return bool(c)
    def len(self, v): return len(v)
    def items(self, v): return list(v)
    def list(self, vals): return list(vals)
    def slice(self, v, a, b): return v[a:b]
    def min(self, a, b): return min(a, b)
    def max(self, a, b): return max(a, b)
    def And(self, *c): return all(c)
    def Or(self, *c): return any(c)
    def Not(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def eq(self, a, b): return a == b
    def fmt(self, v, spec): return format(v, spec)
    def entails(self, c): return bool(c)
    def join(self, sep, vals): return sep.join(vals)
    def map(self, f, vals): return [f(v) for v in vals]
    def op(self, name, a, b):
        import operator
        return {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul}[name](a, b)
    def cat(self, *vs):
        r = vs[0]
        for v in vs[1:]:
            r = r + v
        return r


def nat_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nat_eq(x, y) for x, y in zip(a, b))
    if S.is_plain_object(a) and S.is_plain_object(b):
        return type(a) is type(b) and a.__dict__.keys() == b.__dict__.keys() and \
            all(nat_eq(a.__dict__[k], b.__dict__[k]) for k in a.__dict__)
    return a == b


# ---------------------------------------------------------------------------------------------- running
def raised_in(ex):
    """the innermost frame that belongs to the code or to the harness"""
    own = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) + os.sep
    repo = os.path.abspath(os.environ.get('KV_REPO', '/repo')) + os.sep
    r, tb = 'harness', ex.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(own):
            r = 'harness'
        elif f.startswith(repo):
            r = 'code'
        tb = tb.tb_next
    return r


def run_native(c: Contract, values=None, seed=0, timeout=10):
    """('ok'|'skip'|'broken', info, used)"""
    import signal
    ctx = NatCtx(values, random.Random(seed))

    class _TO(BaseException):
        pass

    def onalarm(*_):
        raise _TO()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        c.run(ctx)
        return 'ok', ctx.checked, ctx.used
    except Skip:
        return 'skip', 0, ctx.used
    except Broken as b:
        return 'broken', {'obligation': b.oblig, 'detail': str(b.detail)[:1000]}, ctx.used
    except _TO:
        return 'broken', {'obligation': 'termination', 'detail': f'no result within {timeout} s'}, ctx.used
    except RecursionError:
        return 'broken', {'obligation': 'no exception', 'detail': 'RecursionError'}, ctx.used
    except Exception as ex:  # noqa
        # raised outside ctx.call: by the code itself (then it is its failure) or by the contract
        if raised_in(ex) != 'code' or c.proof and not c.name.startswith('P'):
            raise
        return 'broken', {'obligation': 'no exception', 'detail': f'{type(ex).__name__}: {ex} raised in code'}, ctx.used
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.restore()


def native_search(c: Contract, n, seed, seconds):
    """first broken random run, or None; returns (found, ran, checked)"""
    t0 = time.time()
    ran = checked = 0
    for k in range(n):
        if time.time() - t0 > seconds:
            break
        st, info, used = run_native(c, None, seed * 1000003 + k)
        if st == 'skip':
            continue
        ran += 1
        if st == 'broken':
            return {'values': used, **info}, ran, checked
        checked += info
    return None, ran, checked


def run_symbolic(c: Contract, budget=None):
    def go():
        ctx = SymCtx()
        c.run(ctx)
    return S.explore(go, c.name, timeout_ms=c.timeout_ms, max_paths=c.max_paths, budget=budget or c.budget)
