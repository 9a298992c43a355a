"""P11 time deltas, P03 SGR-aware justification"""
import z3

from kv.engine.harness import contract
from kv.engine import sym as S
import pytermor.util.time_delta as TD


def spec_delta(ctx, kind, s, neg):
    """text of the time delta s >= 0 seconds (neg: the input was negative) for the formatter of length kind"""
    T = ctx.fmt
    sep = '' if kind == 3 else ' '
    sign = '-' if neg and kind == 10 else ''
    import math
    if ctx.symbolic:
        sec = S.mknum(S.real_floor(S.toreal(s)))
    else:
        sec = math.floor(s)
    names = {3: 'smhd', 4: 'smhdMy', 6: ['sec', 'min', 'hr', 'day', 'mon', 'yr'],
             10: ['sec', 'min', 'hour', 'day', 'month', 'year']}[kind]

    def plural(n, name):
        return name + ('s' if kind == 10 and n != 1 else '')

    def one(n, k):
        return ctx.cat(sign, T(n, 'd'), sep + plural(n, names[k]))

    def two(n, a, m, b):
        return ctx.cat(sign, T(n, 'd'), a + sep, T(m, 'd'), b)
    if s < 1:
        if neg and kind == 10:
            return '~0 secs'
        if s <= 0.001:
            return '0' + sep + plural(0, names[0])
        return '<1' + sep + names[0]
    if sec < 60:
        return one(sec, 0)
    mi = sec // 60
    if mi < 60:
        return one(mi, 1)
    h = mi // 60
    if h < 24:
        if kind == 6 and h < 10:
            return two(h, 'h', mi - h * 60, 'm')
        if kind == 10:
            return two(h, 'h', mi - h * 60, 'min')
        return one(h, 2)
    d = h // 24
    if kind == 3:
        return one(d, 3) if d <= 99 else 'ERR'
    if d < 30:
        if kind in (6, 10) and d < 10:
            return two(d, 'd', h - d * 24, 'h')
        return one(d, 3)
    mo = d // 30
    if mo < 12:
        return one(mo, 4)
    y = mo // 12
    lim = 999 if kind == 10 else 99
    if y <= lim:
        return one(y, 5)
    return {4: 'ERRO', 6: 'OVERFL', 10: 'OVERFLOW'}[kind]


def rnd_seconds(r):
    base = r.choice([0, 0, 1, 59, 60, 61, 3599, 3600, 35999, 36000, 86399, 86400, 863999, 864000, 2591999, 2592000,
                     31103999, 31104000, 8639999, 8640000, 99 * 31104000, 100 * 31104000, 999 * 31104000, 1000 * 31104000,
                     r.randrange(0, 100), r.randrange(0, 10000), r.randrange(0, 10 ** 6), r.randrange(0, 10 ** 9), r.randrange(0, 10 ** 11)])
    v = base + r.choice([0, 0, .5, .25, -.25, .0005, .75])
    v = v * r.choice([1, 1, -1])
    return int(v) if v == int(v) and r.random() < .5 else v


@contract('P11.format', ['P11'], native=4000, native_thorough=200000)
def _(ctx):
    """any number of seconds, any maximum length from 3 up"""
    sec = ctx.real('seconds', rnd=rnd_seconds)
    dflt = ctx.bool('default_len')
    ml = 10 if dflt else ctx.int('max_len', 3, None, rnd=lambda r: r.randrange(3, 14))
    if dflt:
        out = ctx.call(TD.format_time_delta, sec)
    else:
        out = ctx.call(TD.format_time_delta, sec, ml)
    kind = 10 if ml >= 10 else 6 if ml >= 6 else 4 if ml >= 4 else 3
    neg = bool(sec < 0)
    s = -sec if neg else sec
    ctx.ensure(ctx.len(out) <= ml, 'not longer than the maximum')
    ctx.ensure_eq(out, spec_delta(ctx, kind, s, neg), 'elapsed time truncated to the smallest unit displayed')


@contract('P11.units', ['P11'], native=8, native_thorough=8, proof=False)
def _(ctx):
    """bounded: whole minutes up to ten days, whole hours and days up to three years, as computed with floating point"""
    ml = ctx.choice('max_len', [3, 4, 6, 10])
    d = ctx.choice('less', [0, 1])
    for unit, n in ((60, 14500), (3600, 9000), (86400, 1200), (2592000, 200)):
        for k in range(1, n):
            s = k * unit - d
            out = TD.format_time_delta(s, ml)
            ctx.ensure(len(out) <= ml, 'not longer than the maximum', (s, ml, out))
            want = spec_delta(ctx, ml, s, False)
            ctx.ensure(out == want, 'elapsed time truncated to the smallest unit displayed', (s, ml, out, want))


@contract('P11.padding', ['P11'], native=1500)
def _(ctx):
    """an explicit padding request yields exactly the formatter's length"""
    sec = ctx.real('seconds', rnd=rnd_seconds)
    kind = ctx.choice('kind', [3, 4, 6, 10])
    f = ctx.call(TD.registry.find_matching, kind)
    ctx.ensure_eq(ctx.get(f, 'max_len'), kind, 'declared length')
    out = ctx.call(TD.TimeDeltaFormatter.format, f, sec, True)
    ctx.ensure_eq(ctx.len(out), kind, 'exactly the length')
    neg = bool(sec < 0)
    text = spec_delta(ctx, kind, -sec if neg else sec, neg)
    n = kind - ctx.len(text)
    ctx.ensure_eq(out, ctx.cat(' ' * n, text), 'padded on the left')


@contract('P11.too_short', ['P11'], native=50)
def _(ctx):
    sec = ctx.real('seconds', rnd=rnd_seconds)
    ml = ctx.int('max_len', None, 2, rnd=lambda r: r.randrange(-3, 3))
    _, ex = ctx.attempt(TD.format_time_delta, sec, ml)
    ctx.ensure(isinstance(ex, ValueError), 'no formatter for lengths below 3')


def spec_custom(ctx, units, sec, signed, sep, plural):
    """generic text of sec seconds; None is an overflow"""
    import math
    fl = (lambda x: S.mknum(S.real_floor(S.toreal(x)))) if ctx.symbolic else math.floor
    T = ctx.fmt
    neg = bool(sec < 0)
    n = -sec if neg else sec        # (the sign is known on every path)
    sign = '-' if neg and signed else ''
    sep, rest, short = sep or '', '', None
    for k, (name, ratio, short, collapse, over) in enumerate(units):
        short = short or name[0]
        whole = fl(n) if k == 0 else n
        if over is not None and n > over:
            return None
        full = name + (plural if plural and not bool(whole == 1) else '')
        if k == 0 and n < 1:
            return f'~0{sep}{full}' if neg and signed else f'0{sep}{full}' if n <= 0.001 else f'<1{sep}{name}'
        if collapse is not None and n < collapse:
            return ctx.cat(sign, T(whole, 'd'), short + sep, rest)
        if ratio is None or n < ratio:
            return ctx.cat(sign, T(whole, 'd'), sep + full)
        more = fl(n / ratio) if k == 0 else n // ratio
        rest = ctx.cat(T(fl(n - more * ratio) if k == 0 else n - more * ratio, 'd'), short)
        n = more
    raise AssertionError


for _k in (1, 2, 3):
    def _mk(k):
        @contract(f'P11.custom.{k}', ['P11'], native=1500)
        def c(ctx):
            """formatters of one's own: any thresholds"""
            small = lambda r: r.choice([2, 3, 7, 10, 24, 60])  # noqa
            units, args = [], []
            for i in range(k):
                name = ['sec', 'mins', 'h'][i]
                ratio = ctx.int(f'ratio{i}', 2, None, rnd=small) if i < k - 1 else None
                short = ctx.choice(f'short{i}', [None, 'xy']) if i == 0 else None
                coll = ctx.int(f'collapse{i}', 1, None, rnd=small) if i and ctx.bool(f'collapsible{i}') else None
                over = ctx.int('overflow', 1, None, rnd=small) if i == k - 1 and ctx.bool('limited') else None
                units.append((name, ratio, short, coll, over))
                args.append(TD.TimeUnit(name, ratio, short, coll, over))
            signed = ctx.bool('allow_negative')
            sep, plural = ctx.choice('style', [(None, None), (' ', 's')])
            sec = ctx.real('seconds', rnd=lambda r: r.choice([r.uniform(-1, 2), r.uniform(-100, 100), r.uniform(-9999, 9999), r.randint(-200, 200)]))
            if ctx.symbolic:
                if not hasattr(TD.TimeDeltaFormatter, '_compute_max_len'):
                    raise S.Unsupported('declared length')
                ctx.stub(TD.TimeDeltaFormatter._compute_max_len, lambda self: 5)
            bool(sec < 0)           # both signs one after the other
            f = ctx.call(TD.TimeDeltaFormatter, args, signed, sep, plural)
            out = ctx.call(TD.TimeDeltaFormatter.format_raw, f, sec)
            want = spec_custom(ctx, units, sec, signed, sep, plural)
            if want is None:
                ctx.ensure(out is None, 'overflow')
            else:
                ctx.ensure(out is not None, 'no overflow')
                ctx.ensure_eq(out, want, 'elapsed time truncated to the smallest unit displayed')
    _mk(_k)
