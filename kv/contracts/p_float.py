"""P12: numbers formatted to a required length, values with an automatic unit prefix

Numbers are exact reals here (a float is the rational number it denotes; formatting with a fixed number of decimals rounds that
number correctly, half to even, which is what CPython does).  `decimal.Decimal(x)` is the same number."""
import math
import struct
from decimal import Decimal
from fractions import Fraction

import z3

from kv.engine.harness import contract
from kv.engine import sym as S
import pytermor.util.auto_float as AF
import pytermor.util.prefixed_unit as PU


# ------------------------------------------------------------------------------------------------ reading a text, natively
def read_native(text):
    """(negative, digits as a Decimal or None, decimals, exponent or None)"""
    t = text.strip()
    neg = t.startswith('-')
    t = t[1:].strip() if neg else t
    m, e, x = t.partition('e')
    return neg, Decimal(m.strip()) if m.strip() else None, len(m.partition('.')[2]), int(x) if e else None


def denotes(ctx, a, m, dec, exp, room, what, tol=Fraction(0)):
    """the digits m (dec of them after the point) times 10**exp denote a >= 0 rounded to the digits shown"""
    unit = Fraction(10) ** ((exp or 0) - dec)
    val = Fraction(m) * Fraction(10) ** (exp or 0)
    err = abs(val - a)
    ok = err <= unit / 2 + tol
    if not ok and dec == 0 and val < a < val + unit:
        ok = room                      # rounding up would need one more digit than there is room for
    ctx.ensure(ok, what, (float(a), str(m), dec, exp))


# ------------------------------------------------------------------------------------------------ reading a text, symbolically
class Num:
    neg = False
    marks = False
    mant = None        # None | ('fixed', x, d) | ('int', n) | ('lit', str)
    exp = None         # None | z3 int


def read_symbolic(ctx, text):
    ps = [p for p in (S.parts_of(text) if not isinstance(text, str) else [S.Lit(text)])]
    out = Num()
    state = 'start'

    def mant(v):
        if out.mant is not None or out.exp is not None:
            raise S.Unsupported(f'unexpected text {text!r}')
        out.mant = v
    for p in ps:
        if isinstance(p, S.Rep) and p.unit == ' ' and out.mant is None and out.exp is None:
            continue
        if isinstance(p, S.Rep) and p.unit == '!' and len(ps) == 1:
            out.marks = True
            continue
        if isinstance(p, S.Lit):
            t = p.v
            if out.mant is None and state == 'start':
                t = t.lstrip(' ')
                if t.startswith('-') and not out.neg:
                    out.neg, t = True, t[1:].lstrip(' ')
                if set(t) == {'!'} and len(ps) == 1:
                    out.marks = True
                    continue
            if 'e' in t:
                a, _, b = t.partition('e')
                if a:
                    mant(('lit', a))
                state = 'exp'
                if b:
                    out.exp = z3.IntVal(int(b))
                continue
            if t:
                mant(('lit', t))
            continue
        if isinstance(p, S.Tok) and state == 'exp' and p.desc == 'd' and out.exp is None:
            out.exp = p.args[0]
            continue
        if isinstance(p, S.Tok) and p.desc == 'fixed' and state == 'start':
            mant(('fixed', p.args[0], p.args[1]))
            continue
        if isinstance(p, S.Tok) and p.desc == 'd' and state == 'start':
            mant(('int', p.args[0]))
            continue
        raise S.Unsupported(f'text of an unknown form: {text!r}')
    return out


def digits_denote(ctx, x, mant, room, what):
    """mant is x >= 0 rounded to the digits shown; room: digits there is room for"""
    if mant is None:
        return ctx.ensure(False, what, 'no digits')
    if mant[0] == 'fixed':
        return ctx.ensure(S.mkbool(mant[1] == x), what)
    q = S.real_floor(x)
    if mant[0] == 'int':
        ctx.ensure(S.mkbool(mant[1] == q), what)
        up = S.fixed_text(x, z3.IntVal(0)).length()
        return ctx.ensure(S.sym_or(S.mkbool(x == z3.ToReal(q)), S.mkbool(up > room)), 'rounded down only where there is no room')
    t = mant[1]
    if not t.replace('.', '', 1).isdigit():
        raise S.Unsupported(f'text of an unknown form: {mant!r}')
    dec = len(t.partition('.')[2])
    val, unit = z3.RealVal(t), z3.RealVal(f'1/{10 ** dec}')
    half = z3.And(2 * (val - x) <= unit, 2 * (x - val) <= unit)
    ctx.ensure(S.mkbool(z3.Or(half, z3.And(z3.IntVal(dec) == 0, val < x, x < val + 1, room == 1))), what)


# ------------------------------------------------------------------------------------------------ format_auto_float
def rnd_value(r):
    k = r.randrange(7)
    s = r.choice([1, 1, -1])
    if k == 0:
        v = struct.unpack('d', struct.pack('Q', r.getrandbits(64)))[0]
        return v if math.isfinite(v) else 0.0
    if k == 1:
        return s * float(f'{r.choice([9.9, 9.99, 9.995, 9.96, 9.5, 9.49, 1, 1.5, 9.999999999999999, 4.999])}e{r.randrange(-8, 9)}')
    if k == 2:
        return s * 10.0 ** r.choice([r.randrange(-8, 9), r.randrange(-323, 309)])
    if k == 3:
        return s * round(r.random() * 10 ** r.randrange(0, 7), r.randrange(0, 5))
    if k == 4:
        return r.randrange(-10 ** 6, 10 ** 6)
    if k == 5:
        return s * math.nextafter(10.0 ** r.randrange(-8, 9), 0)
    return r.choice([0, 0.0, 5e-324, -5e-324, 1.7e308, .5, -.5, 1, -1, 99.96, 999.96, -9.96])


@contract('P12.auto_float', ['P12'], native=6000, native_thorough=200000)
def _(ctx):
    """any number, any required length from 1 up, with and without the exponent form"""
    v = ctx.real('value', rnd=rnd_value)
    n = ctx.int('req_len', 1, None, rnd=lambda r: r.randrange(1, 12 if r.random() < .9 else 24))
    allow = ctx.bool('allow_exponent')
    out, ex = ctx.attempt(AF.format_auto_float, v, n, allow)
    neg = bool(v < 0)
    if not ctx.symbolic:
        a = abs(Fraction(v))
        room = n - neg
        if ex is not None:
            ctx.ensure(isinstance(ex, ValueError) and not allow and (room <= 0 or a >= Fraction(10) ** room),
                       'refused only where it cannot fit', repr(ex))
            return
        ctx.ensure(len(out) == n, 'exactly the required length', out)
        e = Decimal(a.numerator).adjusted() if a.denominator == 1 else (Decimal(abs(v))).adjusted() if a else 0
        if set(out) == {'!'}:
            ctx.ensure(room == 0 or (allow and a != 0 and room < 1 + len(str(e))), 'overflow marks only where no digit fits', out)
            return
        ng, m, dec, exp = read_native(out)
        ctx.ensure(ng == neg, 'sign', out)
        ctx.ensure(exp is None or allow, 'no exponent form unless allowed', out)
        if m is None:
            ctx.ensure(exp == e and room == 1 + len(str(exp)), 'digits left out only where none fits', out)
            return
        digits = room - (1 + len(str(exp)) if exp is not None else 0)
        denotes(ctx, a, m, dec, exp, len(str(m).replace('.', '')) == digits, 'the number rounded to the digits shown')
        return
    a = S.simp(-v.e if neg else v.e)
    room = S.toz(n) - (1 if neg else 0)
    e = S.exp10(a)
    if ex is not None:
        ctx.ensure(isinstance(ex, ValueError) and not allow, 'refused only where it cannot fit', repr(ex))
        ctx.ensure(S.mkbool(z3.Or(room <= 0, e + 1 > room)), 'refused only where it cannot fit')
        return
    ctx.ensure_eq(ctx.len(out), n, 'exactly the required length')
    num = read_symbolic(ctx, out)
    exp_len = 1 + ctx_len_d(e)
    if num.marks:
        return ctx.ensure(S.mkbool(z3.Or(room == 0, z3.And(z3.BoolVal(bool(allow)), a != 0, room < exp_len))),
                          'overflow marks only where no digit fits')
    ctx.ensure(num.neg == neg, 'sign')
    if num.exp is None:
        return digits_denote(ctx, a, num.mant, room, 'the number rounded to the digits shown')
    ctx.ensure(bool(allow), 'no exponent form unless allowed')
    k = num.exp
    digits = room - 1 - ctx_len_d(k)
    if num.mant is None:
        ctx.ensure(S.mkbool(z3.And(k == e, digits == 0)), 'digits left out only where none fits')
        return
    digits_denote(ctx, S.scale10(a, -k), num.mant, digits, 'the number rounded to the digits shown')


def ctx_len_d(e):
    return S.Tok('d', (S.simp(e),)).length()


# ------------------------------------------------------------------------------------------------ unit prefixes
FORMATTERS = {'metric': (PU.format_si_metric, '_formatter_si_metric'), 'binary': (PU.format_si_binary, '_formatter_si_binary')}


def rnd_si(r):
    base = r.choice([1000., 1024.])
    m = r.choice([1, 9.995, 99.96, 999.96, 999.4, 999.5, .999, 1.5, 1023, 1023.9, r.random() * 1000, r.random() * 10])
    return r.choice([1, 1, -1, 0]) * m * base ** r.randrange(-10, 10)


@contract('P12.prefixed', ['P12'], native=4000, native_thorough=100000)
def _(ctx):
    """any value, with the units of the call or of the formatter"""
    kind = ctx.choice('formatter', ['metric', 'binary'])
    unit = ctx.choice('unit', [None, 'm', 'bps'])
    fn, attr = FORMATTERS[kind]
    f = getattr(PU, attr)
    coef = 1000 if kind == 'metric' else 1024
    v = ctx.real('value', rnd=rnd_si)
    if ctx.symbolic:
        ctx.set(f, '_mcoef', S.SReal(z3.RealVal(coef)))
    shown = unit or ('m' if kind == 'metric' else 'b')      # the defaults of the two functions
    own = ctx.get(f, '_unit')
    limit = ctx.get(f, 'max_len') - len(own) + len(shown)
    out, ex = ctx.attempt(fn, v) if unit is None else ctx.attempt(fn, v, unit)
    judge(ctx, v, out, ex, coef, limit, shown, PU.PREFIXES_SI, PU.PREFIX_ZERO_SI, 4 if kind == 'metric' else 5, kind == 'binary')


PREFIXES = [([None, 'k', 'M'], 0), (['u', 'm', None, 'k', 'M', 'G'], 2), (['n', 'm', None], 2)]


@contract('P12.custom', ['P12'], native=3000, native_thorough=100000)
def _(ctx):
    """a formatter of one's own: any number of characters from 5 up, other prefixes"""
    coef = ctx.choice('mcoef', [1000, 1024])
    trunc = ctx.choice('truncate', [False, True])
    prefixes, zero = ctx.choice('prefixes', PREFIXES)
    room = ctx.int('max_value_len', 5, None, rnd=lambda r: r.randrange(5, 12))
    v = ctx.real('value', rnd=rnd_si)
    f = ctx.call(PU.PrefixedUnitFormatter, room, trunc, 'B', ' ', float(coef), list(prefixes), zero)
    if ctx.symbolic:
        ctx.set(f, '_mcoef', S.SReal(z3.RealVal(coef)))
    out, ex = ctx.attempt(PU.PrefixedUnitFormatter.format, f, v)
    ctx.ensure_eq(ctx.get(f, 'max_len'), room + 3, 'declared length')
    judge(ctx, v, out, ex, coef, room + 3, 'B', prefixes, zero, room, trunc)


def judge(ctx, v, out, ex, coef, limit, shown, prefixes, zero, room, trunc):
    """out is not longer than limit and denotes v; ex only where there is no prefix large enough"""
    neg = bool(v < 0)
    top = len(prefixes) - zero
    if not ctx.symbolic:
        a = abs(Fraction(v))
        big, small = Fraction(coef) ** top, Fraction(coef) ** (-zero - 1)
        if ex is not None:
            return ctx.ensure(isinstance(ex, ValueError) and a >= big * 9, 'refused only beyond the largest prefix', repr(ex))
        ctx.ensure(len(out) <= limit, 'not longer than declared', (out, limit))
        num, sep, tail = out.rpartition(' ')
        if '?' in tail:
            return ctx.ensure(a >= big * Fraction(999, 1000) or a <= small * Fraction(1001, 1000), 'a prefix for every value in range', out)
        ctx.ensure(tail.endswith(shown), 'unit', (out, shown))
        prefix = tail[:len(tail) - len(shown)]
        ctx.ensure((prefix or None) in prefixes, 'known prefix', out)
        k = prefixes.index(prefix or None) - zero
        ng, m, dec, exp = read_native(num)
        ctx.ensure(exp is None and m is not None, 'plain digits', out)
        ctx.ensure(ng == neg or m == 0, 'sign', out)
        x = a / Fraction(coef) ** k
        if trunc and k == 0:
            return ctx.ensure(-Fraction(1, 10 ** 9) < x - Fraction(m) < 1 + Fraction(1, 10 ** 9), 'the value rounded to the digits shown', out)
        return denotes(ctx, x, m, dec, None, len(str(m)) == room - neg, 'the value rounded to the digits shown', tol=x * Fraction(1, 10 ** 12))
    a = S.simp(-v.e if neg else v.e)
    power = lambda k: z3.RealVal(str(coef ** k)) if k >= 0 else z3.RealVal(f'1/{coef ** -k}')
    if ex is not None:
        ctx.ensure(isinstance(ex, ValueError), 'refused only beyond the largest prefix', repr(ex))
        return ctx.ensure(S.mkbool(a >= 9 * power(top)), 'refused only beyond the largest prefix')
    ctx.ensure(ctx.len(out) <= limit, 'not longer than declared')
    ps = S.parts_of(out) if not isinstance(out, str) else [S.Lit(out)]
    last = ps[-1]
    if not isinstance(last, S.Lit) or ' ' not in last.v.strip('-'):
        raise S.Unsupported(f'text of an unknown form: {out!r}')
    head, sep, tail = last.v.rpartition(' ')
    num = read_symbolic(ctx, S.norm(S.Rope('str', ps[:-1] + ([S.Lit(head)] if head else []))))
    if '?' in tail:
        return ctx.ensure(S.mkbool(z3.Or(a >= power(top), a <= power(-zero - 1))), 'a prefix for every value in range')
    ctx.ensure(tail.endswith(shown), 'unit', (tail, shown))
    prefix = tail[:len(tail) - len(shown)]
    ctx.ensure((prefix or None) in prefixes, 'known prefix', tail)
    if (prefix or None) not in prefixes:
        return
    k = prefixes.index(prefix or None) - zero
    x = S.simp(a * power(-k))
    ctx.ensure(num.exp is None and not num.marks and num.mant is not None, 'plain digits')
    if num.mant is None:
        return
    digits = S.toz(room) - neg
    if trunc and k == 0:
        if num.mant[0] != 'int':
            return digits_denote(ctx, x, num.mant, digits, 'the value rounded to the digits shown')
        n = num.mant[1]
        n = z3.If(n < 0, -n, n)
        return ctx.ensure(S.mkbool(z3.And(z3.ToReal(n) <= x, x < z3.ToReal(n) + 1)), 'the value rounded to the digits shown')
    ctx.ensure(num.neg == neg, 'sign')
    digits_denote(ctx, x, num.mant, digits, 'the value rounded to the digits shown')
