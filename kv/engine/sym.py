"""Symbolic values and the path-exploring engine.

Values the interpreter works with: native Python values, SInt/SBool/SReal (z3 terms over mathematical integers and
reals), Rope (str/bytes whose parts may be symbolic slices, repetitions, formatted tokens or indexed families),
VList (mutable list/deque with the same kind of parts) and VDict.
Paths are explored by deterministic re-execution with a decision trail."""
from __future__ import annotations

import time

import re

import z3

INT = z3.IntSort()


class Unsupported(Exception):
    """the code or the value leaves the verified subset: the obligation is undecided, never a violation"""


class Infeasible(BaseException):
    """the current path is contradictory or was ended on purpose"""


class PathEnd(BaseException):
    """the path ended at a loop-back after its invariant was checked"""


class BudgetExceeded(Unsupported):
    pass


class Poison:
    """value of a variable that the loop summary says nothing about"""
    def __init__(self, why): self.why = why
    def __repr__(self): return f'<poison {self.why}>'


# ------------------------------------------------------------------------------------------------ scalars
def simp(e):
    return z3.simplify(e)


def toz(v):
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SReal):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        import fractions
        f = fractions.Fraction(v)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    if z3.is_expr(v):
        return v
    raise Unsupported(f'not a number: {v!r}')


def mknum(e):
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    if e.sort() == z3.RealSort():
        return SReal(e)
    return SInt(e)


def mkbool(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _isnum(o):
    return isinstance(o, (int, float, SInt, SReal, SBool))


def _pyfloat(o):
    return isinstance(o, (SReal, float))


class _Num:
    __slots__ = ('e',)

    def __init__(self, e): self.e = e

    def __hash__(self): raise Unsupported('hash of a symbolic number')

    def _bin(self, o, f, rev=False):
        if not _isnum(o):
            return NotImplemented
        a, b = toz(self), toz(o)
        if rev:
            a, b = b, a
        return mknum(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o):
        if isinstance(o, (str, bytes, Rope, VList, list, tuple)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (str, bytes, Rope, VList, list, tuple)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return mknum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o): return num_truediv(self, o)
    def __rtruediv__(self, o): return num_truediv(o, self)
    def __floordiv__(self, o): return num_floordiv(self, o)
    def __rfloordiv__(self, o): return num_floordiv(o, self)
    def __mod__(self, o): return num_mod(self, o)
    def __rmod__(self, o): return num_mod(o, self)
    def __divmod__(self, o): return num_floordiv(self, o), num_mod(self, o)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return mknum(r)
        raise Unsupported('power')

    def _cmp(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return mkbool(f(toz(self), toz(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if not _isnum(o):
            return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        if not _isnum(o):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self): return E().branch(self.e != 0)
    def __repr__(self): return f'<{self.e}>'


class SInt(_Num):
    __slots__ = ()

    def __and__(self, o): return bit_and(self, o)
    def __rand__(self, o): return bit_and(self, o)

    def __or__(self, o): return bit_or(self, o)
    def __ror__(self, o): return bit_or(self, o)
    def __xor__(self, o): raise Unsupported('xor')

    def __lshift__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            return self * (1 << o)
        raise Unsupported('shift by a symbolic amount')

    def __rshift__(self, o):
        if isinstance(o, int):
            return num_floordiv(self, 1 << o)
        raise Unsupported('shift by a symbolic amount')

    def __rlshift__(self, o): raise Unsupported('shift by a symbolic amount')
    def __invert__(self): return mknum(-self.e - 1)


class SReal(_Num):
    __slots__ = ()


class SDec(SReal):
    """decimal.Decimal made from a symbolic number (exact, as a real)"""
    __slots__ = ()


POW10 = z3.Function('pow10', INT, z3.RealSort())
EXP10 = z3.Function('exponent10', z3.RealSort(), INT)
SCALE10 = z3.Function('scale10', z3.RealSort(), INT, z3.RealSort())
CARRY = z3.Function('rounds_up_to_a_power_of_ten', z3.RealSort(), INT, INT)


def exp10(a):
    """the integer e with 10**e <= a < 10**(e + 1), for a > 0; 0 for 0"""
    a = simp(a)
    e = EXP10(a)
    eng = E()
    eng.fact(z3.Implies(a == 0, e == 0))
    for k in range(-6, 8):
        p = z3.RealVal(f'{10 ** k}') if k >= 0 else z3.RealVal(f'1/{10 ** -k}')
        eng.fact(z3.Implies(a > 0, (a >= p) == (e >= k)))
        eng.fact(z3.Implies(e == k, z3.And(POW10(e) == p, POW10(e + 1) == p * 10)))
    eng.fact(z3.Implies(a > 0, z3.And(POW10(e) <= a, a < POW10(e + 1), POW10(e) > 0)))
    n = simp(z3.Function('len_d', INT, INT)(real_floor(a)))
    eng.fact(z3.Implies(a >= 0, n == z3.If(e >= 0, e + 1, 1)))
    return e


def scale10(x, n):
    """x * 10**n"""
    x, n = simp(x), simp(n)
    if z3.is_int_value(n) and abs(n.as_long()) <= 40:
        k = n.as_long()
        return simp(x * z3.RealVal(str(10 ** k)) if k >= 0 else x * z3.RealVal(f'1/{10 ** -k}'))
    s = SCALE10(x, n)
    E().fact(z3.And((s > 0) == (x > 0), (s < 0) == (x < 0)))
    ax, as_ = simp(z3.If(x >= 0, x, -x)), simp(z3.If(s >= 0, s, -s))
    E().fact(z3.Implies(x != 0, exp10(as_) == exp10(ax) + n))
    E().fact(z3.Implies(x > 0, exp10(s) == exp10(x) + n))
    E().fact(z3.Implies(n == 0, s == x))
    return s


def fixed_text(x, d):
    """format(x, f'.{d}f') for x >= 0, d >= 0: correctly rounded, half to even"""
    x, d = simp(x), simp(d)
    e, c = exp10(x), CARRY(x, d)
    E().fact(z3.And(c >= 0, c <= 1, z3.Implies(e < 0, c == 0)))
    E().fact(z3.Implies(z3.And(e >= 0), (c == 1) == (x >= POW10(e + 1) - POW10(-d) / 2)))
    for k in range(0, 7):
        E().fact(z3.Implies(d == k, POW10(-d) == z3.RealVal(f'1/{10 ** k}')))
    n = z3.If(e < 0, 1, e + 1 + c) + z3.If(d > 0, d + 1, 0)
    return Tok('fixed', (x, d), simp(n), set('0123456789.'))


class SBool:
    __slots__ = ('e',)

    def __init__(self, e): self.e = e
    def __bool__(self): return E().branch(self.e)
    def __hash__(self): raise Unsupported('hash of a symbolic bool')
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.e == tob(o))
        if isinstance(o, (int, SInt)):
            return mkbool(toz(self) == toz(o))
        return False
    def __ne__(self, o): return sym_not(self.__eq__(o))
    def __add__(self, o): return mknum(toz(self) + toz(o))
    __radd__ = __add__
    def __mul__(self, o): return mknum(toz(self)) * o
    __rmul__ = __mul__
    def __and__(self, o): return sym_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return sym_or(self, o)
    __ror__ = __or__
    def __lt__(self, o): return mkbool(toz(self) < toz(o))
    def __gt__(self, o): return mkbool(toz(self) > toz(o))
    def __repr__(self): return f'<{self.e}>'


def tob(v):
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_expr(v):
        return v
    if isinstance(v, (SInt, SReal)):
        return v.e != 0
    return z3.BoolVal(bool(v))


def sym_not(v):
    if isinstance(v, SBool):
        return mkbool(z3.Not(v.e))
    return not v


def sym_and(*vs): return mkbool(z3.And(*[tob(v) for v in vs]))
def sym_or(*vs): return mkbool(z3.Or(*[tob(v) for v in vs]))
def sym_implies(a, b): return mkbool(z3.Implies(tob(a), tob(b)))


def num_floordiv(a, b):
    if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not (_pyfloat(a) or _pyfloat(b)):
        bz = simp(toz(b))
        if z3.is_int_value(bz):
            n = bz.as_long()
            if n == 0:
                raise_py(ZeroDivisionError('integer division or modulo by zero'))
            if n > 0:
                return mknum(toz(a) / bz)
            return mknum((-toz(a)) / z3.IntVal(-n))
        if E().branch(bz == 0):
            raise_py(ZeroDivisionError('integer division or modulo by zero'))
        if E().branch(bz > 0):
            return mknum(toz(a) / bz)
        return mknum((-toz(a)) / (-bz))
    q = num_truediv(a, b)
    return mknum(z3.ToReal(real_floor(toz(q)))) if isinstance(q, SReal) else q // 1


def real_floor(e):
    """floor of a real term: an integer constant q with q <= e < q + 1"""
    e = simp(e)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long() // e.denominator_as_long())
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    if z3.is_mul(e) and e.num_args() == 2 and z3.is_rational_value(e.arg(0)) and e.arg(0).numerator_as_long() == 1 \
            and z3.is_app_of(e.arg(1), z3.Z3_OP_TO_REAL):
        return simp(e.arg(1).arg(0) / e.arg(0).denominator_as_long())
    eng = E()
    if eng.bound:
        return z3.ToInt(e)
    k = e.get_id()
    if k not in eng.floors:
        eng.floors[k] = (e, z3.Int(eng.fresh_name('floor')))
    q = eng.floors[k][1]
    eng.fact(z3.And(z3.ToReal(q) <= e, e < z3.ToReal(q) + 1))
    return q


def num_mod(a, b):
    return a - num_floordiv(a, b) * b


def toreal(v):
    e = toz(v)
    return z3.ToReal(e) if e.sort() == INT else e


def num_truediv(a, b):
    bz = simp(toreal(b))
    if z3.is_rational_value(bz):
        if bz.numerator_as_long() == 0:
            raise_py(ZeroDivisionError('division by zero'))
    elif E().branch(bz == 0):
        raise_py(ZeroDivisionError('division by zero'))
    return SReal(simp(toreal(a) / bz))


def bit_and(a, b):
    if isinstance(b, SInt) and isinstance(a, int):
        a, b = b, a
    if not isinstance(b, int) or b < 0:
        raise Unsupported('bitwise and with a symbolic or negative mask')
    # decompose the mask in runs of ones; floor div / mod is exact for every (also negative) integer
    r = z3.IntVal(0)
    i = 0
    while b >> i:
        if (b >> i) & 1:
            j = i
            while (b >> j) & 1:
                j += 1
            r = r + ((a.e / z3.IntVal(1 << i)) % z3.IntVal(1 << (j - i))) * (1 << i)
            i = j
        else:
            i += 1
    return mknum(r)


def bit_or(a, b):
    if isinstance(a, int) and isinstance(b, SInt):
        a, b = b, a
    if isinstance(b, int) and b >= 0:
        return a + (b - bit_and(a, b))
    # disjoint operands: x | y == x + y when the bits cannot overlap: x a multiple of 2^k and 0 <= y < 2^k
    for x, y in ((a, b), (b, a)):
        for k in (8, 16, 24, 4):
            if E().entails(z3.And(toz(x) % (1 << k) == 0, toz(y) >= 0, toz(y) < (1 << k))):
                return a + b
    raise Unsupported('bitwise or of overlapping symbolic values')


# ------------------------------------------------------------------------------------------------ engine
_ENGINE = None


def E() -> 'Engine':
    return _ENGINE


class PyExc(BaseException):
    """an exception raised by the interpreted program"""
    def __init__(self, exc): self.exc = exc
    def __repr__(self): return f'PyExc({self.exc!r})'


def raise_py(exc):
    raise PyExc(exc)


class Failure:
    def __init__(self, name, kind, detail, inputs):
        self.name, self.kind, self.detail, self.inputs = name, kind, detail, inputs

    def __repr__(self):
        return f'Failure({self.name}, {self.kind}, {self.detail})'


class Engine:
    def __init__(self, name='', timeout_ms=8000, max_paths=20000, deadline=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.failures: list[Failure] = []
        self.undecided: list[str] = []
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.covers = {}
        self.used_assumptions = set()
        self.functions = {}
        self.solver = None
        self.reset_path([])

    # -- path management
    def reset_path(self, trail):
        self.owned = {}
        self.scope = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.trail = trail
        self.pos = 0
        self.alts = []
        self.counter = {}
        self.journal = []
        self.inputs = []          # declared inputs of this path (for concretisation)
        self.bound = []           # bound index variables of enclosing summaries
        self.guards = [[]]
        self.facts_seen = set()
        self.floors = {}
        self.facts_stack = [[]]
        self.nested_depth = 0
        self.lost = False         # a loop contract does not fit the loop: what follows from it is not conclusive
        self.weak = False         # an inferred invariant may be too weak: failures are not conclusive

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f'{base}!{n}' if n else base

    def fresh(self, base, sort=INT):
        """fresh constant; inside a summary it is a function of the bound index variables"""
        nm = self.fresh_name(base)
        if self.bound:
            f = z3.Function(nm, *[INT] * len(self.bound), sort)
            return f(*self.bound)
        return z3.Const(nm, sort)

    def add(self, e, guard=False):
        self.solver.add(e)
        if guard:
            self.guards[-1].append(e)

    def fact(self, e):
        """an assumption that is valid by construction (range of a byte, monotonicity of cut positions)"""
        e = simp(e)
        if z3.is_true(e):
            return
        k = e.get_id()
        if k in self.facts_seen:
            return
        self.facts_seen.add(k)
        self.solver.add(e)
        self.facts_stack[-1].append(e)

    def assume(self, c):
        e = tob(c)
        self.solver.add(e)
        self.guards[-1].append(e)

    def _check(self, *es):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded('time budget')
        t = time.time()
        self.queries += 1
        self.solver.push()
        for e in es:
            self.solver.add(e)
        r = self.solver.check()
        if r == z3.unknown:
            s2 = z3.SolverFor('QF_NRA')
            s2.set('timeout', self.timeout_ms)
            s2.add(*self.solver.assertions())
            r = s2.check()
            self.last_model = s2.model() if r == z3.sat else None
        else:
            self.last_model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def feasible(self, *es): return self._check(*es) != z3.unsat

    def entails(self, c):
        e = simp(tob(c))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._check(z3.Not(e)) == z3.unsat

    def branch(self, c) -> bool:
        e = simp(tob(c))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            self.add(e if d else z3.Not(e), guard=True)
            return d
        t = self.feasible(e)
        f = self.feasible(z3.Not(e)) if t else True
        if t and f:
            self.alts.append(self.trail[:self.pos] + [False])
        d = bool(t)
        self.trail = self.trail[:self.pos] + [d]
        self.pos += 1
        self.add(e if d else z3.Not(e), guard=True)
        return d

    def choose(self, n) -> int:
        """non-deterministic choice among n alternatives (all are explored)"""
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return d
        for k in range(1, n):
            self.alts.append(self.trail[:self.pos] + [k])
        self.trail = self.trail[:self.pos] + [0]
        self.pos += 1
        return 0

    # -- heap journal
    def undo_push(self, f): self.journal.append(f)

    scope = scope_no = 0

    def created(self, obj):
        """obj was created on this path: its attributes need no undo when set in the scope that created it"""
        self.owned[id(obj)] = (self.scope, obj)

    def is_own(self, obj):
        r = self.owned.get(id(obj))
        return r is not None and r[0] == self.scope and r[1] is obj

    def rollback(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    # -- nested exploration (summaries)
    def nested(self, fn, limit=400):
        """explore all paths of fn() from the current state without keeping its effects.
        Returns [(guards, facts, result)] where result is what fn returned, or the BaseException it ended with."""
        saved = (self.trail, self.pos, self.alts)
        out = []
        stack = [[]]
        base_counter = dict(self.counter)
        n = 0
        while stack:
            n += 1
            if n > limit:
                raise BudgetExceeded('too many paths in a loop body')
            tr = stack.pop()
            self.trail, self.pos, self.alts = tr, 0, []
            self.counter = dict(base_counter)
            mark = len(self.journal)
            self.solver.push()
            self.guards.append([])
            self.facts_stack.append([])
            seen = set(self.facts_seen)
            self.nested_depth += 1
            self.scope_no += 1
            outer_scope, self.scope = self.scope, self.scope_no
            keep = True
            res = None
            try:
                res = fn()
            except Infeasible:
                keep = False
            finally:
                self.nested_depth -= 1
                self.scope = outer_scope
                g = self.guards.pop()
                fa = self.facts_stack.pop()
                self.facts_seen = seen
                self.solver.pop()
                self.rollback(mark)
                stack.extend(self.alts)
                self.trail, self.pos, self.alts = saved
            if keep:
                out.append((g, fa, res))
        # fresh names used inside must not be reused after
        self.counter = {k: v + 1000 for k, v in self.counter.items()} if n else self.counter
        return out

    # -- obligations
    def prove(self, c, name, detail=''):
        self.obligations += 1
        e = simp(tob(c))
        if z3.is_true(e):
            self.discharged += 1
            self.trivial += 1
            return True
        r = self._check(z3.Not(e))
        if r == z3.unsat:
            self.discharged += 1
            return True
        if r == z3.unknown:
            self.undecided.append(f'{name}: solver unknown')
            return False
        self.failures.append(Failure(name, 'soft' if self.weak or inexact(e) else 'hard', detail or str(e)[:300], self.concretise(z3.Not(e))))
        return False

    def fail(self, name, detail, hard=False):
        """a structural mismatch (no arithmetic condition to negate)"""
        self.obligations += 1
        r = self._check()
        if r == z3.unsat:
            self.discharged += 1     # the path is contradictory
            return True
        self.failures.append(Failure(name, 'hard' if hard and not self.weak else 'soft', detail, self.concretise()))
        return False

    def ok(self, name):
        self.obligations += 1
        self.discharged += 1
        self.trivial += 1

    def cover(self, name):
        """vacuity guard: the point was reached on a feasible path"""
        if not self.covers.get(name):
            self.covers[name] = self._check() == z3.sat
        return self.covers[name]

    # -- concretisation of declared inputs
    def concretise(self, *extra):
        if not self.inputs or self.nested_depth:
            pass
        s = self.solver
        t = time.time()
        s.push()
        try:
            for e in extra:
                s.add(e)
            # prefer small models
            small = [c for inp in self.inputs for c in inp.small()]
            model = None
            for bound in (4, 40, None):
                s.push()
                if bound is not None:
                    for v in small:
                        s.add(z3.And(v <= bound, v >= -bound))
                r = s.check()
                if r == z3.sat:
                    model = s.model()
                s.pop()
                if model is not None:
                    break
            if model is None:
                return None
            res = {}
            for inp in self.inputs:
                try:
                    res[inp.name] = inp.value(model)
                except Exception as ex:  # noqa
                    res[inp.name] = None
            return res
        finally:
            s.pop()
            self.solver_time += time.time() - t


def explore(fn, name, timeout_ms=8000, max_paths=20000, budget=None) -> Engine:
    """explore every path of fn (which declares inputs, calls the code under check and states obligations)"""
    global _ENGINE
    eng = Engine(name, timeout_ms, max_paths, (time.time() + budget) if budget else None)
    prev = _ENGINE
    _ENGINE = eng
    stack = [[]]
    try:
        while stack:
            if eng.paths >= max_paths:
                eng.undecided.append('path budget exceeded')
                break
            tr = stack.pop()
            eng.reset_path(tr)
            eng.paths += 1
            try:
                fn()
            except (Infeasible, PathEnd):
                pass
            except Unsupported as ex:
                import traceback
                eng.undecided.append(f'{type(ex).__name__}: {ex}')
                eng.last_tb = traceback.format_exc()
                if isinstance(ex, BudgetExceeded):
                    eng.rollback(0)
                    break
            except RecursionError:
                eng.undecided.append('recursion too deep')
            finally:
                eng.rollback(0)
            stack.extend(eng.alts)
            if len(eng.undecided) > 30 or len(eng.failures) > 30:
                break
    finally:
        _ENGINE = prev
    return eng


# ------------------------------------------------------------------------------------------------ sequences
class Source:
    """an arbitrary sequence of integers (bytes, or code points of a str), possibly indexed by outer indices"""
    def __init__(self, name, kind, lo, hi, args=(), tags=(), only=None):
        self.name, self.kind, self.lo, self.hi, self.args, self.tags = name, kind, lo, hi, tuple(args), tuple(tags)
        self.only = only        # ranges every element lies in

    def elem(self, i):
        f = z3.Function(f'el_{self.name}', *[INT] * (len(self.args) + 1), INT)
        r = f(*self.args, toz(i))
        if isinstance(self.lo, int):
            E().fact(z3.And(r >= self.lo, r <= self.hi))
        if self.only:
            E().fact(z3.Or(*[z3.And(r >= a, r <= b) for a, b in self.only]))
        return r

    def key(self): return ('src', self.name) + tuple(_ek(a) for a in self.args)

    def subst(self, m):
        if not self.args:
            return self
        return Source(self.name, self.kind, self.lo, self.hi, [_sub(a, m) for a in self.args], self.tags, self.only)


def _ek(e):
    if isinstance(e, int):
        return str(e)
    if z3.is_expr(e):
        return simp(e).sexpr()
    return repr(e)


def _sub(e, m):
    if isinstance(e, int):
        return e
    return simp(z3.substitute(e, *m))


def _zi(v):
    if isinstance(v, int):
        return z3.IntVal(v)
    return toz(v)


class Part:
    def subst(self, m): return self


class Lit(Part):
    def __init__(self, v): self.v = v
    def length(self): return z3.IntVal(len(self.v))
    def key(self): return ('lit', self.v if isinstance(self.v, (str, bytes)) else tuple(vkey(x) for x in self.v))
    def subst(self, m):
        if isinstance(self.v, (str, bytes)):
            return self
        memo = m.memo if isinstance(m, Sub) else {}
        return Lit([vsubst(x, m, memo) for x in self.v])
    def __repr__(self): return repr(self.v)


class Sub(list):
    """substitution list with a memo for object copies"""
    def __init__(self, pairs):
        super().__init__(pairs)
        self.memo = {}


class Slice(Part):
    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, simp(_zi(lo)), simp(_zi(hi))
    def length(self): return simp(self.hi - self.lo)
    def key(self): return ('sl', self.src.key(), _ek(self.lo), _ek(self.hi))
    def subst(self, m): return Slice(self.src.subst(m), _sub(self.lo, m), _sub(self.hi, m))
    def __repr__(self): return f'{self.src.name}[{self.lo}:{self.hi}]'


class Rep(Part):
    def __init__(self, unit, n):
        self.unit, self.n = unit, simp(_zi(n))
    def length(self): return simp(z3.If(self.n > 0, self.n * len(self.unit), 0))
    def key(self): return ('rep', self.unit, _ek(self.n))
    def subst(self, m): return Rep(self.unit, _sub(self.n, m))
    def __repr__(self): return f'{self.unit!r}*({self.n})'


class Tok(Part):
    """result of formatting symbolic arguments (opaque text, never empty unless maybe_empty)"""
    def __init__(self, desc, args, length=None, chars=None):
        self.desc, self.args, self._len, self.chars = desc, tuple(args), length, chars
    def length(self):
        if self._len is None:
            f = z3.Function('len_' + self.desc, *[x.sort() if z3.is_expr(x) else INT for x in self._zargs()], INT)
            r = f(*self._zargs()) if self._zargs() else z3.Const('len_' + repr(self.key()), INT)
            E().fact(r >= 1)
            if self.desc in ('d', 'x') and len(self._zargs()) == 1 and self._zargs()[0].sort() == INT:
                n, base = self._zargs()[0], 10 if self.desc == 'd' else 16
                for k in range(1, 7):
                    E().fact(z3.And(z3.Implies(z3.And(n >= 0, n < base ** k), r <= k),
                                    z3.Implies(n >= base ** k, r >= k + 1),
                                    z3.Implies(z3.And(n < 0, n > -base ** k), r <= k + 1),
                                    z3.Implies(n <= -base ** k, r >= k + 2)))
                E().fact(z3.Implies(n < 0, r >= 2))
            return r
        return _zi(self._len)
    def _zargs(self): return [a for a in self.args if z3.is_expr(a)]
    def key(self): return ('tok', self.desc) + tuple(_ek(a) if z3.is_expr(a) else vkey(a) for a in self.args)
    def subst(self, m):
        return Tok(self.desc, [_sub(a, m) if z3.is_expr(a) else vsubst(a, m) for a in self.args],
                   _sub(self._len, m) if z3.is_expr(self._len) else self._len, self.chars)
    def __repr__(self): return f'<{self.desc}:{",".join(map(repr, self.args))}>'


class Sgr(Part):
    """one non-empty SGR sequence of an opaque style: invisible text"""
    def __init__(self, role, style):
        self.role, self.style = role, _zi(style)
    def length(self):
        f = z3.Function('sgrlen_' + self.role, INT, INT)
        r = f(self.style)
        E().fact(r >= 3)
        return r
    def key(self): return ('sgr', self.role, _ek(self.style))
    def subst(self, m): return Sgr(self.role, _sub(self.style, m))
    def __repr__(self): return f'<sgr {self.role} {self.style}>'


class Spread(Part):
    """a nested symbolic part inside a list template"""
    def __init__(self, part): self.part = part
    def length(self): return self.part.length()
    def key(self): return ('spread', self.part.key())
    def subst(self, m): return Spread(self.part.subst(m))
    def __repr__(self): return f'*{self.part}'


def unspread(t):
    """the parts of a list template"""
    out = []
    for x in t:
        if isinstance(x, Spread):
            out.append(x.part)
        elif out and isinstance(out[-1], Lit):
            out[-1] = Lit(out[-1].v + [x])
        else:
            out.append(Lit([x]))
    return out


def inexact(e):
    """the formula mentions the length of a family of which only bounds are known"""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith('flen_'):
            return True
        todo += x.children()
    return False


class Flat(Part):
    """concatenation of template(bv) for bv in [lo, hi); template by cases guarded by conditions on bv.
    A template is a Rope (string kinds) or a list of values (list kind)."""
    def __init__(self, bv, lo, hi, cases, lenpot=None, extra=()):
        self.bv, self.lo, self.hi = bv, simp(_zi(lo)), simp(_zi(hi))
        self.cases = cases          # [(guard z3, facts [z3], template)]
        self.lenpot = lenpot        # index z3 -> z3, potential of the length
        self.extra = extra

    def is_list(self): return not isinstance(self.cases[0][2], Rope)

    def tlen(self, t): return rlen(t) if isinstance(t, Rope) else simp(sum([p.length() for p in unspread(t)], z3.IntVal(0)))

    def length(self):
        if self.lenpot is not None:
            r = simp(self.lenpot(self.hi) - self.lenpot(self.lo))
            E().fact(z3.Implies(self.lo <= self.hi, r >= 0))
            return r
        ls = [simp(self.tlen(t)) for _, _, t in self.cases]
        if ls and all(z3.is_int_value(x) and x.as_long() == ls[0].as_long() for x in ls):
            return simp((self.hi - self.lo) * ls[0])
        if len(ls) == 1:
            # telescoping length a(bv+1) - a(bv)
            pot = telescope(ls[0], self.bv)
            if pot is not None:
                r = simp(pot(self.hi) - pot(self.lo))
                E().fact(z3.Implies(self.lo <= self.hi, r >= 0))
                return r
        k = repr(self.key(bounds=False))
        f = z3.Function('flen_%x' % (hash(k) & 0xffffffffff), INT, INT)
        r = simp(f(self.hi) - f(self.lo))
        if ls and all(z3.is_int_value(x) for x in ls):
            a, b = min(x.as_long() for x in ls), max(x.as_long() for x in ls)
            E().fact(z3.Implies(self.lo <= self.hi, z3.And(r >= a * (self.hi - self.lo), r <= b * (self.hi - self.lo))))
        else:
            least = min(sum(len(p.v) if isinstance(p, Lit) else 1 if isinstance(p, Tok) and p._len is None else 0 for p in t.parts)
                        for _, _, t in self.cases) if not self.is_list() else 0
            E().fact(z3.Implies(self.lo <= self.hi, r >= least * (self.hi - self.lo)))
        return r

    def unfold(self):
        """(parts of the first element, rest); the range is known not to be empty"""
        t = self.at(self.lo)
        rest = self.with_bounds(self.lo + 1, self.hi)
        parts = list(t.parts) if isinstance(t, Rope) else unspread(t)
        E().fact(self.length() == sum([p.length() for p in parts], rest.length()))
        return parts, rest

    def key(self, bounds=True):
        ph = z3.Int('?b%d' % _depth(self))
        m = Sub([(self.bv, ph)])
        cs = tuple((_ek(_sub(g, m)), tkey(tsubst(t, m))) for g, _, t in self.cases)
        return ('flat', cs) + ((_ek(self.lo), _ek(self.hi)) if bounds else ())

    def at(self, i):
        """instance of the template at index i (forks over the cases)"""
        i = simp(_zi(i))
        m = Sub([(self.bv, i)])
        if len(self.cases) > 1:
            for n, (g, facts, t) in enumerate(self.cases):
                gi = _sub(g, m)
                if n == len(self.cases) - 1:
                    E().add(gi, guard=True)
                    if not E().feasible():
                        raise Infeasible
                elif not E().branch(gi):
                    continue
                for f in facts:
                    E().fact(_sub(f, m))
                return tsubst(t, m)
        g, facts, t = self.cases[0]
        for f in facts:
            E().fact(_sub(f, m))
        return tsubst(t, m)

    def subst(self, m):
        # bound variable is globally unique, no capture
        return Flat(self.bv, _sub(self.lo, m), _sub(self.hi, m),
                    [(_sub(g, m), [_sub(f, m) for f in fs], tsubst(t, m)) for g, fs, t in self.cases],
                    self.lenpot if self.lenpot is None else _potsub(self.lenpot, m))

    def with_bounds(self, lo, hi):
        return Flat(self.bv, lo, hi, self.cases, self.lenpot)

    def __repr__(self): return f'Flat({self.bv} in [{self.lo},{self.hi}): {[c[2] for c in self.cases]})'


def _potsub(p, m):
    return lambda i: simp(z3.substitute(p(z3.Int('?pot')), *m, (z3.Int('?pot'), _zi(i)))) \
        if True else None


def _depth(flat):
    d = 0
    for _, _, t in flat.cases:
        ps = t.parts if isinstance(t, Rope) else []
        for p in ps:
            if isinstance(p, Flat):
                d = max(d, 1 + _depth(p))
    return d


def telescope(e, bv):
    """if e == p(bv+1) - p(bv) for some term p, return p (as a function)"""
    e = simp(e)
    cands = []

    def walk(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            cands.append(x)
        for c in x.children():
            walk(c)
    walk(e)
    for c in cands:
        d = simp(z3.substitute(c, (bv, bv + 1)) - c - e)
        if z3.is_int_value(d) and d.as_long() == 0:
            return lambda i, c=c: simp(z3.substitute(c, (bv, _zi(i))))
        if z3.is_int_value(d):
            k = -d.as_long()
            return lambda i, c=c, k=k: simp(z3.substitute(c, (bv, _zi(i))) + k * _zi(i))
    # sum of potentials: try greedy
    if len(cands) >= 2:
        import itertools
        base = [c for c in cands if str(simp(z3.substitute(c, (bv, bv + 1)))) != str(c)]
        for r in range(2, min(4, len(base)) + 1):
            for sub in itertools.combinations(base, r):
                tot = sum(sub[1:], sub[0])
                d = simp(z3.substitute(tot, (bv, bv + 1)) - tot - e)
                if z3.is_int_value(d):
                    k = -d.as_long()
                    return lambda i, c=tot, k=k: simp(z3.substitute(c, (bv, _zi(i))) + k * _zi(i))
    if z3.is_int_value(e):
        k = e.as_long()
        return lambda i: simp(k * _zi(i))
    return None


def tsubst(t, m):
    if isinstance(t, Rope):
        return Rope(t.kind, [p.subst(m) for p in t.parts])
    memo = m.memo if isinstance(m, Sub) else {}
    return [vsubst(x, m, memo) for x in t]


def tkey(t):
    if isinstance(t, Rope):
        return tuple(p.key() for p in t.parts)
    return tuple(vkey(x) for x in t)


class Rope:
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind = kind
        out = []
        for p in parts:
            if isinstance(p, Lit):
                if len(p.v) == 0:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].v + p.v)
                    continue
            elif isinstance(p, Slice):
                if p.lo.eq(p.hi):
                    continue
                if out and isinstance(out[-1], Slice) and out[-1].hi.eq(p.lo) and out[-1].src.key() == p.src.key():
                    out[-1] = Slice(p.src, out[-1].lo, p.hi)
                    continue
            elif isinstance(p, Rep):
                if z3.is_int_value(p.n):
                    v = p.unit * max(0, p.n.as_long())
                    if v:
                        if out and isinstance(out[-1], Lit):
                            out[-1] = Lit(out[-1].v + v)
                        else:
                            out.append(Lit(v))
                    continue
            elif isinstance(p, Flat):
                if p.lo.eq(p.hi):
                    continue
                if out and isinstance(out[-1], Flat) and out[-1].hi.eq(p.lo) and \
                        out[-1].key(False) == p.key(False):
                    q = out[-1]
                    out[-1] = Flat(q.bv, q.lo, p.hi, q.cases, q.lenpot)
                    continue
            out.append(p)
        self.parts = out

    def __add__(self, o): return cat(self, o)
    def __radd__(self, o): return cat(o, self)
    def __mul__(self, o): return seq_repeat(self, o)
    __rmul__ = __mul__
    def __hash__(self): raise Unsupported('hash of a symbolic string')
    def __eq__(self, o): return decide_eq(self, o)
    def __ne__(self, o): return sym_not(decide_eq(self, o))
    def __repr__(self): return f'Rope[{self.kind}]{self.parts}'
    def __bool__(self): return E().branch(rlen(self) > 0)
    def __len__(self): raise Unsupported('native len() of a symbolic string')


def empty_of(kind): return '' if kind == 'str' else b''


def kind_of(v):
    if isinstance(v, Rope):
        return v.kind
    if isinstance(v, str):
        return 'str'
    if isinstance(v, (bytes, bytearray)):
        return 'bytes'
    return None


def parts_of(v):
    if isinstance(v, Rope):
        return v.parts
    if isinstance(v, (str, bytes)):
        return [Lit(v)] if v else []
    raise Unsupported(f'not a string: {v!r}')


def norm(r):
    """native value if the rope is concrete"""
    if isinstance(r, Rope):
        if not r.parts:
            return empty_of(r.kind)
        if len(r.parts) == 1 and isinstance(r.parts[0], Lit):
            return r.parts[0].v
    return r


def cat(*vs):
    k = None
    for v in vs:
        kv = kind_of(v)
        if kv is None:
            raise_py(TypeError('can only concatenate strings'))
        if k is not None and k != kv:
            raise_py(TypeError('cannot concatenate str and bytes'))
        k = kv
    ps = []
    for v in vs:
        ps.extend(parts_of(v))
    return norm(Rope(k, ps))


def rlen(v):
    """length as a z3 term"""
    if isinstance(v, (str, bytes)):
        return z3.IntVal(len(v))
    if isinstance(v, Rope):
        r = z3.IntVal(0)
        for p in v.parts:
            r = r + p.length()
        return simp(r)
    if isinstance(v, VList):
        r = z3.IntVal(0)
        for p in v.parts:
            r = r + p.length()
        return simp(r)
    raise Unsupported(f'length of {type(v).__name__}')


def seq_len(v):
    if isinstance(v, (Rope, VList)):
        return mknum(rlen(v))
    if isinstance(v, VDict):
        return v.length()
    return len(v)


def seq_repeat(s, n):
    if isinstance(n, int) and not isinstance(s, (Rope, VList)):
        return s * n
    if isinstance(s, (Rope, str, bytes)):
        s = norm(s)
        if isinstance(n, int):
            return cat(*([s] * n)) if n > 0 else empty_of(kind_of(s))
        if isinstance(s, (str, bytes)):
            if not s:
                return s
            if len(s) > 1 and s == s[:1] * len(s):
                return norm(Rope(kind_of(s), [Rep(s[:1], mknum(toz(n) * len(s)))]))
            return norm(Rope(kind_of(s), [Rep(s, n)]))
        # a symbolic text repeated symbolically: indexed family with a constant template
        bv = z3.Int(E().fresh_name('?rep'))
        cnt = mknum(z3.If(toz(n) > 0, toz(n), 0))
        return norm(Rope(s.kind, [Flat(bv, 0, toz(cnt), [(z3.BoolVal(True), [], s)])]))
    if isinstance(s, (list, VList)) and isinstance(n, int):
        vals = list_values(s)
        return VList.of(vals * n)
    raise Unsupported('repetition')


def bytes_elem(v):
    """a one-byte rope/slice for integer v"""
    return v


def split_at(parts, n, what='slice'):
    """split a part list after n elements (z3 int, 0 <= n <= total known to the caller); forks when needed"""
    left, right = [], []
    n = simp(n)
    rest = list(parts)
    while rest:
        if z3.is_int_value(n) and n.as_long() == 0:
            break
        p = rest[0]
        ln = simp(p.length())
        if E().entails(n >= ln):
            left.append(p)
            n = simp(n - ln)
            rest.pop(0)
            continue
        if not E().entails(n < ln):
            if E().branch(n >= ln):
                left.append(p)
                n = simp(n - ln)
                rest.pop(0)
                continue
        # cut inside p
        if isinstance(p, Slice):
            left.append(Slice(p.src, p.lo, p.lo + n))
            rest[0] = Slice(p.src, p.lo + n, p.hi)
            n = z3.IntVal(0)
        elif isinstance(p, Lit):
            if not z3.is_int_value(n):
                # enumerate the cut position (concrete literal)
                k = None
                for c in range(len(p.v)):
                    if c == len(p.v) - 1 or E().branch(n == c):
                        k = c
                        break
                E().add(n == k, guard=True)
                if not E().feasible():
                    raise Infeasible
            else:
                k = n.as_long()
            left.append(Lit(p.v[:k]))
            rest[0] = Lit(p.v[k:])
            n = z3.IntVal(0)
        elif isinstance(p, Rep) and len(p.unit) == 1:
            left.append(Rep(p.unit, n))
            rest[0] = Rep(p.unit, p.n - n)
            n = z3.IntVal(0)
        elif isinstance(p, Flat):
            ls = [simp(p.tlen(t)) for _, _, t in p.cases]
            if all(z3.is_int_value(x) and x.as_long() == 1 for x in ls):
                left.append(p.with_bounds(p.lo, p.lo + n))
                rest[0] = p.with_bounds(p.lo + n, p.hi)
                n = z3.IntVal(0)
            elif all(z3.is_int_value(x) and x.as_long() == ls[0].as_long() > 1 for x in ls) and not E().entails(n < ls[0]):
                # elements of equal length
                q, k = simp(n / ls[0]), ls[0]
                left.append(p.with_bounds(p.lo, p.lo + q))
                rest[0] = p.with_bounds(p.lo + q, p.hi)
                n = simp(n - q * k)
            else:
                # unfold one element of the family (it is not empty: n < length)
                E().add(p.lo < p.hi, guard=True)
                if not E().feasible():
                    raise Infeasible
                tp, tail = p.unfold()
                rest[0:1] = tp + [tail]
        elif E().entails(n == 0):
            n = z3.IntVal(0)
        elif isinstance(p, Tok):
            tag = ('cut', p.key())
            left.append(Tok('cutl', (p, n), n))
            rest[0] = Tok('cutr', (p, n), simp(p.length() - n))
            n = z3.IntVal(0)
        else:
            raise Unsupported(f'cannot cut inside {p!r}')
    right = rest
    return left, right


def clamp_index(i, ln):
    """Python slice bound normalisation for bound i (native/SInt/None) and length ln (z3)"""
    i = toz(i)
    neg = E().branch(i < 0)
    if neg:
        i = simp(i + ln)
        if E().branch(i < 0):
            return z3.IntVal(0)
    if E().branch(i > ln):
        return ln
    return simp(i)


def seq_slice(v, lo, hi, step=None):
    if step not in (None, 1):
        if isinstance(v, (Rope, VList)):
            if isinstance(v, VList) and v.is_concrete():
                return VList.of(v.values()[slice(lo, hi, step)])
            raise Unsupported('slice with a step')
        return v[slice(lo, hi, step)]
    if not isinstance(v, (Rope, VList)) and not isinstance(lo, _Num) and not isinstance(hi, _Num):
        return v[lo:hi]
    if isinstance(v, (str, bytes)):
        k, parts = kind_of(v), parts_of(v)
    elif isinstance(v, Rope):
        k, parts = v.kind, v.parts
    elif isinstance(v, VList):
        k, parts = 'list', v.parts
    elif isinstance(v, (list, tuple)):
        k, parts = 'list', [Lit(list(v))]
    else:
        raise Unsupported(f'slice of {type(v).__name__}')
    total = z3.IntVal(0)
    for p in parts:
        total = total + p.length()
    total = simp(total)
    a = clamp_index(lo, total) if lo is not None else z3.IntVal(0)
    if hi is not None:
        b = clamp_index(hi, total)
        if not E().entails(a <= b):
            if E().branch(a > b):
                b = a
        l, _ = split_at(parts, b)
    else:
        l = parts
    _, r = split_at(l, a)
    if k == 'list':
        res = VList(r)
        return tuple(res.values()) if isinstance(v, tuple) else res
    return norm(Rope(k, r))


def seq_index(v, i):
    if isinstance(v, (list, tuple, str, bytes)) and isinstance(i, int):
        try:
            return v[i]
        except IndexError as ex:
            raise_py(ex)
    if isinstance(v, (str, bytes)):
        k, parts = kind_of(v), parts_of(v)
    elif isinstance(v, Rope):
        k, parts = v.kind, v.parts
    elif isinstance(v, VList):
        k, parts = 'list', v.parts
    elif isinstance(v, (list, tuple)):
        k, parts = 'list', [Lit(list(v))]
    else:
        raise Unsupported(f'index into {type(v).__name__}')
    total = simp(sum([p.length() for p in parts], z3.IntVal(0)))
    z = toz(i)
    if E().branch(z < 0):
        if k == 'list' and isinstance(v, VList) and isinstance(i, int) and parts and isinstance(parts[-1], Lit) \
                and len(parts[-1].v) >= -i:
            return parts[-1].v[i]
        z = simp(z + total)
    if E().branch(z3.Or(z < 0, z >= total)):
        raise_py(IndexError('index out of range'))
    _, r = split_at(parts, z)
    # first element of r
    while True:
        if not r:
            raise Infeasible
        p = r[0]
        if isinstance(p, Flat):
            if E().entails(p.lo >= p.hi):
                r = r[1:]
                continue
            tp, tail = p.unfold()
            r = tp + [tail] + r[1:]
            if isinstance(v, VList):
                # keep the unfolded form in the list itself
                if E().entails(z == 0):
                    v.set_parts(r)
            continue
        if E().entails(p.length() == 0):
            r = r[1:]
            continue
        if not E().entails(p.length() > 0):
            if E().branch(p.length() == 0):
                r = r[1:]
                continue
        break
    if k == 'list':
        if isinstance(r[0], Slice):
            return mknum(r[0].src.elem(r[0].lo))
        return r[0].v[0]
    if k == 'bytes':
        if isinstance(p, Lit):
            return p.v[0]
        if isinstance(p, Slice):
            return mknum(p.src.elem(p.lo))
        if isinstance(p, Rep):
            return p.unit[0]
        raise Unsupported('byte of an opaque token')
    l, _ = split_at(r, z3.IntVal(1))
    return norm(Rope('str', l))


class VList:
    """mutable list (or deque) of symbolic length; parts: Lit(list of values) | Flat (list templates) | Slice (ints)"""
    __slots__ = ('parts', 'cls', 'ident', 'maxlen')

    def __init__(self, parts=(), cls='list'):
        self.parts = self._norm(parts)
        self.cls = cls

    @staticmethod
    def _norm(parts):
        out = []
        for p in parts:
            if isinstance(p, Lit):
                if not p.v:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].v + list(p.v))
                else:
                    out.append(Lit(list(p.v)))
                continue
            if isinstance(p, (Flat, Slice)) and p.lo.eq(p.hi):
                continue
            if isinstance(p, Flat) and out and isinstance(out[-1], Flat) and out[-1].hi.eq(p.lo) and \
                    out[-1].key(False) == p.key(False):
                q = out[-1]
                out[-1] = Flat(q.bv, q.lo, p.hi, q.cases, q.lenpot)
                continue
            if isinstance(p, Slice) and out and isinstance(out[-1], Slice) and out[-1].hi.eq(p.lo) and \
                    out[-1].src.key() == p.src.key():
                out[-1] = Slice(p.src, out[-1].lo, p.hi)
                continue
            out.append(p)
        return out

    @classmethod
    def of(cls, values, kind='list'): return cls([Lit(list(values))], kind)

    def set_parts(self, parts):
        old = self.parts
        def undo(self=self, old=old):
            self.parts = old
        E().undo_push(undo)
        self.parts = self._norm(parts)

    def is_concrete(self): return all(isinstance(p, Lit) for p in self.parts)

    def values(self):
        if not self.is_concrete():
            raise Unsupported('list of symbolic length')
        return [x for p in self.parts for x in p.v]

    def copy(self): return VList(self.parts, self.cls)
    def __hash__(self): return id(self)
    def __repr__(self): return f'VList{self.parts}'
    def __bool__(self): return E().branch(rlen(self) > 0)
    def __eq__(self, o): return decide_eq(self, o)
    def __ne__(self, o): return sym_not(decide_eq(self, o))


def list_values(v):
    if isinstance(v, VList):
        return v.values()
    return list(v)


class VDict:
    """insertion-ordered dictionary whose keys may be symbolic"""
    def __init__(self, items=()): self.items_ = list(items)

    def _set(self, items):
        old = self.items_
        def undo(self=self, old=old):
            self.items_ = old
        E().undo_push(undo)
        self.items_ = items

    def find(self, k):
        for n, (kk, _) in enumerate(self.items_):
            c = decide_eq(kk, k)
            if c is None:
                if is_plain_object(kk) or is_plain_object(k):
                    if kk is not k and (is_plain_object(kk) and '__eq__' in type(kk).__dict__ or
                                        is_plain_object(k) and '__eq__' in type(k).__dict__):
                        raise Unsupported('objects with equality as dictionary keys')
                    c = kk is k
                else:
                    c = kk == k
            if c is True or (c is not False and E().branch(tob(c))):
                return n
        return None

    def get(self, k, d=None):
        n = self.find(k)
        return d if n is None else self.items_[n][1]

    def has(self, k): return self.find(k) is not None

    def put(self, k, v):
        n = self.find(k)
        it = list(self.items_)
        if n is None:
            it.append((k, v))
        else:
            it[n] = (it[n][0], v)
        self._set(it)

    def remove(self, k):
        n = self.find(k)
        if n is None:
            raise_py(KeyError(k))
        it = list(self.items_)
        v = it.pop(n)[1]
        self._set(it)
        return v

    def length(self): return len(self.items_)
    def __bool__(self): return bool(self.items_)
    def __repr__(self): return f'VDict{self.items_}'


# ------------------------------------------------------------------------------------------------ keys, substitution
def vkey(v):
    if isinstance(v, (SInt, SBool, SReal)):
        return ('z', _ek(v.e))
    if isinstance(v, Rope):
        return ('rope', v.kind) + tuple(p.key() for p in v.parts)
    if isinstance(v, VList):
        return ('vlist',) + tuple(p.key() for p in v.parts)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(vkey(x) for x in v)
    if isinstance(v, Part):
        return v.key()
    if z3.is_expr(v):
        return ('z', _ek(v))
    if v is None or isinstance(v, (int, str, bytes, float, bool)):
        return ('c', repr(v))
    if is_plain_object(v):
        if getattr(v, '_kv_style', None) is not None:
            st = v._kv_style
            return ('style', st[0], _ek(st[1]))
        return ('obj', type(v).__qualname__) + tuple((k, vkey(x)) for k, x in sorted(v.__dict__.items())
                                                     if not k.startswith('_kv'))
    return ('id', id(v))


def is_plain_object(v):
    import enum
    import types
    if isinstance(v, (type, types.FunctionType, types.MethodType, types.ModuleType, enum.Enum)):
        return False
    m = getattr(type(v), '__module__', '')
    return hasattr(v, '__dict__') and m.startswith(('kolombos', 'pytermor', 'kv.contracts', 'kv.oracle'))


def mentions(v, consts):
    """does the value mention one of the given z3 constants"""
    found = False
    ids = {c.get_id() for c in consts}
    seen = set()

    def we(x):
        nonlocal found
        if found or x.get_id() in seen:
            return
        seen.add(x.get_id())
        if x.get_id() in ids:
            found = True
            return
        for c in x.children():
            we(c)

    def wp(p):
        if isinstance(p, Lit):
            if not isinstance(p.v, (str, bytes)):
                for x in p.v:
                    wv(x)
        elif isinstance(p, Slice):
            we(p.lo); we(p.hi)
            for a in p.src.args:
                we(_zi(a))
        elif isinstance(p, Rep):
            we(p.n)
        elif isinstance(p, Tok):
            for a in p.args:
                if z3.is_expr(a):
                    we(a)
                else:
                    wv(a)
        elif isinstance(p, Sgr):
            we(p.style)
        elif isinstance(p, Flat):
            we(p.lo); we(p.hi)
            for g, _, t in p.cases:
                we(g)
                if isinstance(t, Rope):
                    wv(t)
                else:
                    for x in t:
                        wv(x)

    vseen = set()

    def wv(v):
        if isinstance(v, (SInt, SBool, SReal)):
            we(v.e)
        elif z3.is_expr(v):
            we(v)
        elif isinstance(v, Part):
            wp(v)
        elif isinstance(v, (Rope, VList)):
            for p in v.parts:
                wp(p)
        elif isinstance(v, (list, tuple)):
            for x in v:
                wv(x)
        elif isinstance(v, VDict):
            for a, b in v.items_:
                wv(a); wv(b)
        elif is_plain_object(v):
            if id(v) in vseen:
                return
            vseen.add(id(v))
            for x in v.__dict__.values():
                wv(x)
    wv(v)
    return found


def vsubst(v, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, SInt) or isinstance(v, SReal):
        return mknum(_sub(v.e, m))
    if isinstance(v, SBool):
        return mkbool(_sub(v.e, m))
    if isinstance(v, Rope):
        return norm(Rope(v.kind, [p.subst(m) for p in v.parts]))
    if isinstance(v, Part):
        return v.subst(m)
    if z3.is_expr(v):
        return _sub(v, m)
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], str) and z3.is_expr(v[1]):
            return (v[0], _sub(v[1], m))
        return tuple(vsubst(x, m, memo) for x in v)
    if isinstance(v, VList):
        if id(v) in memo:
            return memo[id(v)][0]
        r = VList([p.subst(m) for p in v.parts], v.cls)
        memo[id(v)] = (r, v)
        return r
    if is_plain_object(v):
        if id(v) in memo:
            return memo[id(v)][0]
        if not mentions(v, [a for a, _ in m]):
            return v
        r = object.__new__(type(v))
        memo[id(v)] = (r, v)
        for k, x in v.__dict__.items():
            r.__dict__[k] = vsubst(x, m, memo)
        return r
    return v


# ------------------------------------------------------------------------------------------------ equality
def first_elem_cond(p, ch):
    """z3 condition 'the first element of p is ch' for parts with known elements, or None"""
    o = ord(ch) if isinstance(ch, str) else ch
    if isinstance(p, Slice):
        return p.src.elem(p.lo) == o
    if isinstance(p, Tok) and p.desc == 'chr':
        return p.args[0] == o
    return None


def excludes(p, text):
    """True when the part certainly does not contain any character of text"""
    if isinstance(p, Slice) and p.src.only:
        return all(not any(a <= (ord(c) if isinstance(c, str) else c) <= b for a, b in p.src.only) for c in text)
    if isinstance(p, Slice) and isinstance(p.src.lo, int):
        return all(not (p.src.lo <= (ord(c) if isinstance(c, str) else c) <= p.src.hi) for c in text)
    if isinstance(p, Tok) and p.chars is not None:
        return all(c not in p.chars for c in text)
    return False


def decide_eq(a, b):
    """== as the interpreted program sees it: native bool or SBool"""
    a, b = norm(a), norm(b)
    if a is b:
        return True
    if isinstance(a, _Num) or isinstance(b, _Num) or isinstance(a, SBool) or isinstance(b, SBool):
        if (_isnum(a)) and (_isnum(b)):
            return mkbool(toz(a) == toz(b))
        return False
    if isinstance(a, Rope) or isinstance(b, Rope):
        if kind_of(a) is None or kind_of(a) != kind_of(b):
            return False
        return rope_eq_cond(a, b)
    if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
        pa = a.parts if isinstance(a, VList) else [Lit(a)]
        pb = b.parts if isinstance(b, VList) else [Lit(b)]
        if all(isinstance(p, Lit) for p in pa + pb):
            x = [v for p in pa for v in p.v]
            y = [v for p in pb for v in p.v]
            if len(x) != len(y):
                return False
            return sym_and(*[decide_eq(p, q) for p, q in zip(x, y)]) if x else True
        la = simp(sum([p.length() for p in pa], z3.IntVal(0)))
        lb = simp(sum([p.length() for p in pb], z3.IntVal(0)))
        if vkey(VList(pa)) == vkey(VList(pb)):
            return True
        if not E().branch(la == lb):
            return False
        if all(isinstance(p, Lit) for p in pb):
            pa, pb = pb, pa
        if all(isinstance(p, Lit) for p in pa):
            x = [v for p in pa for v in p.v]
            l, r = split_at(pb, z3.IntVal(len(x)))
            vl = VList(l)
            ys = []
            for n in range(len(x)):
                ys.append(seq_index(vl, n))
            return sym_and(*[decide_eq(p, q) for p, q in zip(x, ys)]) if x else True
        raise Unsupported('comparison of symbolic lists')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [decide_eq(x, y) for x, y in zip(a, b)]
        return sym_and(*r) if r else True
    if isinstance(a, (VList, VDict)) or isinstance(b, (VList, VDict)):
        if isinstance(a, VDict) and isinstance(b, (VDict, dict)):
            raise Unsupported('comparison of dictionaries')
        return False
    if type(a) in (str, bytes, int, float, bool, type(None)) and type(b) in (str, bytes, int, float, bool, type(None)):
        return a == b
    return None


def rope_eq_cond(a, b):
    pa, pb = list(parts_of(a)), list(parts_of(b))
    if vkey(a if isinstance(a, Rope) else Rope(kind_of(a), pa)) == vkey(b if isinstance(b, Rope) else Rope(kind_of(b), pb)):
        return True
    la, lb = rlen(a), rlen(b)
    c = simp(la == lb)
    if z3.is_false(c) or not E().branch(la == lb):
        return False
    # elementwise comparison against a literal
    for x, y in ((pa, pb), (pb, pa)):
        if all(isinstance(p, Lit) for p in y):
            lit = empty_of(kind_of(a))
            for p in y:
                lit = lit + p.v
            x = [p for p in x if not part_provably_empty(p)]
            if isinstance(lit, str):
                if len(x) == 1 and isinstance(x[0], Tok) and x[0].desc == 'd' and len(x[0]._zargs()) == 1:
                    # decimal text of a number
                    if not re.fullmatch('0|-?[1-9][0-9]*', lit):
                        return False
                    return mkbool(x[0]._zargs()[0] == int(lit))
                for p in x:
                    if isinstance(p, Lit) and p.v not in lit:
                        return False
                    if isinstance(p, Flat) and len(p.cases) == 1 and E().entails(p.lo < p.hi) and \
                            any(isinstance(q, Lit) and q.v not in lit for q in p.cases[0][2].parts):
                        return False
            conds = []
            rest = x
            for ch in lit:
                ch = ch if isinstance(ch, str) else ch
                l, rest = split_at(rest, z3.IntVal(1))
                l = [p for p in l if not (z3.is_int_value(simp(p.length())) and simp(p.length()).as_long() == 0)]
                if len(l) != 1:
                    return opaque_bool('eq', a, b)
                p = l[0]
                if isinstance(p, Lit):
                    if p.v[0] != ch:
                        return False
                    continue
                if isinstance(p, Flat):
                    t = p.at(p.lo)
                    if len(t.parts) == 1:
                        p = t.parts[0]
                cond = first_elem_cond(p, ch)
                if cond is None:
                    if excludes(p, [ch]):
                        return False
                    return opaque_bool('eq', a, b)
                conds.append(cond)
            return mkbool(z3.And(*conds)) if conds else True
    return opaque_bool('eq', a, b)


def opaque_bool(what, *vs):
    k = repr(tuple(vkey(v) for v in vs))
    return SBool(z3.Bool(f'{what}_{hash(k) & 0xffffffffffff:x}'))


def generic_index(lo, hi):
    i = z3.Int(E().fresh_name('?g'))
    E().add(z3.And(i >= lo, i < hi))
    return i


def part_provably_empty(p):
    ln = simp(p.length())
    if z3.is_int_value(ln):
        return ln.as_long() == 0
    return E().entails(ln == 0)


class EqFail(Exception):
    def __init__(self, detail, cond=None):
        self.detail, self.cond = detail, cond


def prove_eq(a, b, name):
    """obligation a == b (values, ropes, lists, objects)"""
    eng = E()
    n0 = eng.obligations
    try:
        _peq(a, b, name)
        if eng.obligations == n0:
            eng.ok(name)
        return True
    except EqFail as ex:
        eng.fail(name, ex.detail)
        return False


def _need(c, detail, name):
    eng = E()
    e = simp(tob(c))
    if z3.is_true(e):
        return
    eng.obligations += 1
    r = eng._check(z3.Not(e))
    if r == z3.unsat:
        eng.discharged += 1
        return
    if r == z3.unknown:
        eng.undecided.append(f'{name}: solver unknown')
        raise Infeasible
    eng.failures.append(Failure(name, 'soft' if eng.weak or inexact(e) else 'hard', detail, eng.concretise(z3.Not(e))))
    raise Infeasible


def _peq(a, b, name):
    a, b = norm(a), norm(b)
    if a is b:
        return
    if isinstance(a, Spread) and isinstance(b, Spread):
        return _peq(VList([a.part]), VList([b.part]), name)
    if _isnum(a) and _isnum(b) or isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return _need(tob(a) == tob(b), f'{a!r} == {b!r}', name)
        if not (_isnum(a) and _isnum(b)):
            raise EqFail(f'{a!r} != {b!r}')
        return _need(toz(a) == toz(b), f'{a!r} == {b!r}', name)
    if kind_of(a) is not None and kind_of(a) == kind_of(b):
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            if a != b:
                raise EqFail(f'{a!r} != {b!r}')
            return
        return _parts_eq(list(parts_of(a)), list(parts_of(b)), name, kind_of(a))
    if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
        pa = list(a.parts) if isinstance(a, VList) else [Lit(a)]
        pb = list(b.parts) if isinstance(b, VList) else [Lit(b)]
        return _parts_eq(pa, pb, name, 'list')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            raise EqFail(f'tuples of length {len(a)} and {len(b)}')
        for x, y in zip(a, b):
            _peq(x, y, name)
        return
    if is_plain_object(a) and is_plain_object(b):
        if type(a) is not type(b):
            raise EqFail(f'{type(a).__name__} != {type(b).__name__}')
        sa, sb = getattr(a, '_kv_style', None), getattr(b, '_kv_style', None)
        if sa is not None or sb is not None:
            if sa is None or sb is None or sa[0] != sb[0]:
                raise EqFail(f'styles {sa} != {sb}')
            return _need(sa[1] == sb[1], 'same style', name)
        ka = {k for k in a.__dict__ if not k.startswith('_kv')}
        kb = {k for k in b.__dict__ if not k.startswith('_kv')}
        if ka != kb:
            raise EqFail(f'attributes {ka ^ kb}')
        for k in sorted(ka):
            _peq(a.__dict__[k], b.__dict__[k], name)
        return
    try:
        if a == b:
            return
    except Exception:  # noqa
        pass
    raise EqFail(f'{a!r} != {b!r}')


def _char_run(P):
    """(character, length, number of pieces, rest of the last piece) of the run of one character P starts with"""
    c, n, out = None, z3.IntVal(0), 0
    for p in P:
        if isinstance(p, Rep) and len(p.unit) == 1:
            if c is not None and p.unit != c:
                break
            c = p.unit
            n = n + p.length()
            out += 1
            continue
        if isinstance(p, Lit) and len(p.v):
            if c is None:
                c = p.v[:1]
            k = len(p.v) - len(p.v.lstrip(c))
            n = n + k
            if k == 0:
                break
            out += 1
            if k < len(p.v):
                return c, simp(n), out, [Lit(p.v[k:])]
            continue
        break
    return (c, simp(n), out, []) if c is not None else None


def _parts_eq(A, B, name, kind):
    eng = E()
    is_list = kind == 'list'
    steps = 0
    while A or B:
        steps += 1
        if steps > 200:
            raise Unsupported('alignment does not terminate')
        if A and B and A[0].key() == B[0].key():
            A.pop(0); B.pop(0)
            continue
        for X in (A, B):
            while X and part_provably_empty(X[0]):
                X.pop(0)
        if not A and not B:
            return
        if not A or not B:
            rest = A or B
            tot = simp(sum([p.length() for p in rest], z3.IntVal(0)))
            _need(tot == 0, f'nothing left over: {rest!r:.200}', name)
            return
        h, k = A[0], B[0]
        if h.key() == k.key():
            A.pop(0); B.pop(0)
            continue
        if isinstance(h, Lit) and isinstance(k, Lit):
            n = min(len(h.v), len(k.v))
            if is_list:
                for x, y in zip(h.v[:n], k.v[:n]):
                    _peq(x, y, name)
            elif h.v[:n] != k.v[:n]:
                raise EqFail(f'{h.v[:n]!r} != {k.v[:n]!r}')
            A[0:1] = [Lit(h.v[n:])] if len(h.v) > n else []
            B[0:1] = [Lit(k.v[n:])] if len(k.v) > n else []
            continue
        if isinstance(h, (Lit,)) or (isinstance(k, Flat) and not isinstance(h, Flat)):
            # make h the symbolic one
            A, B = B, A
            h, k = k, h
        if isinstance(h, Slice) and isinstance(k, Slice):
            if h.src.key() == k.src.key() and eng.entails(h.lo == k.lo):
                if not eng.entails(h.hi <= k.hi) and (eng.entails(k.hi <= h.hi) or not eng.branch(h.hi <= k.hi)):
                    A, B = B, A
                    h, k = k, h
                A.pop(0)
                B[0] = Slice(k.src, h.hi, k.hi)
                continue
            # different origin: compare element by element at a generic index when lengths agree
            raise EqFail(f'{h!r} != {k!r}')
        if not is_list and (isinstance(h, Rep) or isinstance(k, Rep)):
            ra, rb = _char_run(A), _char_run(B)
            if ra is not None and rb is not None and ra[0] == rb[0] and (ra[2] > 1 or rb[2] > 1):
                # runs of one character in several pieces: compare their lengths
                c, na, ka, oa = ra
                _, nb, kb, ob = rb
                if not eng.entails(na <= nb) and (eng.entails(nb <= na) or not eng.branch(na <= nb)):
                    A, B, na, nb, ka, kb, oa, ob = B, A, nb, na, kb, ka, ob, oa
                A[0:ka] = oa
                B[0:kb] = ([] if eng.entails(na == nb) else [Rep(c, simp(nb - na))]) + ob
                continue
        if isinstance(h, Rep) and isinstance(k, Rep) and h.unit == k.unit:
            if not eng.entails(h.n <= k.n) and (eng.entails(k.n <= h.n) or not eng.branch(h.n <= k.n)):
                A, B = B, A
                h, k = k, h
            A.pop(0)
            B[0] = Rep(k.unit, k.n - z3.If(h.n > 0, h.n, 0))
            continue
        if isinstance(h, Tok) and isinstance(k, Tok) and h.desc == k.desc and len(h.args) == len(k.args):
            for x, y in zip(h.args, k.args):
                if z3.is_expr(x) and z3.is_expr(y):
                    _need(x == y, f'{h!r} == {k!r}', name)
                else:
                    if vkey(x) != vkey(y):
                        raise EqFail(f'{h!r} != {k!r}')
            A.pop(0); B.pop(0)
            continue
        if isinstance(h, Sgr) and isinstance(k, Sgr) and h.role == k.role:
            _need(h.style == k.style, 'same style', name)
            A.pop(0); B.pop(0)
            continue
        if isinstance(h, Flat) and isinstance(k, Flat):
            if eng.entails(h.lo == k.lo):
                same = h.key(False) == k.key(False)
                if not same:
                    if not _flat_equal(h, k, name, kind):
                        raise EqFail(f'{h!r} != {k!r}')
                if not eng.entails(h.hi <= k.hi) and (eng.entails(k.hi <= h.hi) or not eng.branch(h.hi <= k.hi)):
                    A, B = B, A
                    h, k = k, h
                A.pop(0)
                B[0] = k.with_bounds(z3.If(h.hi > h.lo, h.hi, h.lo) if not eng.entails(h.hi >= h.lo) else h.hi, k.hi)
                continue
            # one-by-one
        if is_list and isinstance(h, (Flat, Slice)) and isinstance(k, (Flat, Slice)) and _unit_list(h) and _unit_list(k):
            # element by element at a generic offset of the common prefix
            n = simp(z3.If(h.length() <= k.length(), h.length(), k.length()))

            def elem(p, j):
                if isinstance(p, Slice):
                    return mknum(p.src.elem(p.lo + j))
                return p.at(p.lo + j)[0]

            def cmp():
                j = generic_index(z3.IntVal(0), n)
                if not eng.feasible():
                    raise Infeasible
                try:
                    _peq(elem(h, j), elem(k, j), name)
                    return True
                except EqFail as ex:
                    return ex
            nf = len(eng.failures)
            for _, _, r in eng.nested(cmp):
                if isinstance(r, EqFail) and len(eng.failures) == nf:
                    raise r
            if not eng.entails(h.length() <= k.length()) and (eng.entails(k.length() <= h.length()) or
                                                              not eng.branch(h.length() <= k.length())):
                A, B = B, A
                h, k = k, h
            ln = h.length()
            A.pop(0)
            B[0] = Slice(k.src, k.lo + ln, k.hi) if isinstance(k, Slice) else k.with_bounds(k.lo + ln, k.hi)
            continue
        if isinstance(h, Flat):
            if eng.entails(h.lo < h.hi) or eng.branch(h.lo < h.hi):
                tp, tail = h.unfold()
                A[0:1] = tp + [tail]
            else:
                A.pop(0)
            continue
        if isinstance(h, Rep):
            if eng.entails(h.n > 0) or eng.branch(h.n > 0):
                A[0:1] = [Lit(h.unit), Rep(h.unit, h.n - 1)]
            else:
                A.pop(0)
            continue
        if isinstance(k, Rep):
            if eng.entails(k.n > 0) or eng.branch(k.n > 0):
                B[0:1] = [Lit(k.unit), Rep(k.unit, k.n - 1)]
            else:
                B.pop(0)
            continue
        if isinstance(h, Slice) and isinstance(k, Lit):
            if is_list:
                if eng.branch(h.lo < h.hi):
                    _peq(mknum(h.src.elem(h.lo)), k.v[0], name)
                    A[0] = Slice(h.src, h.lo + 1, h.hi)
                    B[0:1] = [Lit(k.v[1:])] if len(k.v) > 1 else []
                else:
                    A.pop(0)
                continue
            if eng.branch(h.lo < h.hi):
                ch = k.v[0:1]
                _need(h.src.elem(h.lo) == ord(ch), f'{h!r} starts with {ch!r}', name)
                A[0] = Slice(h.src, h.lo + 1, h.hi)
                B[0:1] = [Lit(k.v[1:])] if len(k.v) > 1 else []
            else:
                A.pop(0)
            continue
        if isinstance(h, Tok) and h.desc == 'chr' and isinstance(k, Lit):
            _need(h.args[0] == ord(k.v[0]), f'{h!r} == {k.v[0]!r}', name)
            A.pop(0)
            B[0:1] = [Lit(k.v[1:])] if len(k.v) > 1 else []
            continue
        raise EqFail(f'{h!r} != {k!r}')


def _unit_list(p):
    if isinstance(p, Slice):
        return True
    return all(not isinstance(t, Rope) and len(t) == 1 and not isinstance(t[0], Part) for _, _, t in p.cases)


def _flat_equal(h, k, name, kind):
    """templates equal at a generic index of the common range"""
    eng = E()
    hi = z3.If(h.hi <= k.hi, h.hi, k.hi)

    def body():
        i = generic_index(h.lo, hi)
        x, y = h.at(i), k.at(i)
        if not eng.feasible():
            raise Infeasible
        if isinstance(x, Rope):
            _parts_eq(list(x.parts), list(y.parts), name, kind)
        else:
            _parts_eq([Lit(x)], [Lit(y)], name, 'list')
        return True

    def guarded():
        try:
            return body()
        except EqFail as ex:
            if eng._check() == z3.unsat:
                return True
            return ex
    n_fail = len(eng.failures)
    res = eng.nested(guarded)
    if len(eng.failures) > n_fail:
        return True      # already reported
    for _, _, r in res:
        if isinstance(r, EqFail):
            raise r
    return True
