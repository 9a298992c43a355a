"""P03 SGR-aware justification"""
import z3

from kv.engine.harness import contract
from kv.engine import sym as S
from kv.engine import rx
import pytermor.util.stdlib_ext as X
import pytermor.util.string_filter as F

SPEC = r'\x1b\[[0-9;]*m'


def strip(s):
    """oracle: the text without the sequences ESC [ digits-and-semicolons m (scanned by hand)"""
    out, i = '', 0
    while i < len(s):
        if s[i:i + 2] == '\x1b[':
            j = i + 2
            while j < len(s) and s[j] in '0123456789;':
                j += 1
            if j < len(s) and s[j] == 'm':
                i = j + 1
                continue
        out += s[i]
        i += 1
    return out


def check_pattern(ctx, pat, values):
    """the pattern matches exactly the SGR sequences, wherever it is tried"""
    impl, spec = rx.parse(pat), rx.parse(SPEC)
    al = rx.Alphabet([impl, spec], rx.MAXU)
    a, b = rx.Prog(al, [impl]).relation(), rx.Prog(al, [spec]).relation()
    w = lambda sh: values('pre' + sh[0] + (sh[1] if len(sh) > 1 else '') + 'post')
    ctx.lang_empty(rx.minus(a, b), 'the pattern matches nothing but SGR sequences', w)
    ctx.lang_empty(rx.minus(b, a), 'the pattern matches every SGR sequence', w)


def stub_sub(ctx, text, values):
    """contract of re.sub (standard library): replaces the leftmost non-overlapping matches"""
    def h(it, pat, repl, s):
        if isinstance(s, (str, bytes)) and not values:
            return NotImplemented
        check_pattern(ctx, pat, values)
        ctx.ensure_eq(repl, '', 'removed, not replaced')
        v = z3.Int('visible')
        if not ctx.truth(S.decide_eq(s, ctx.interp.kv_text)):
            v = S.E().fresh('visible_of')
        S.E().fact(z3.And(v >= 0, v <= S.toz(S.seq_len(s))))
        S.E().used_assumptions.add('re.Pattern.sub (standard library): replaces the leftmost non-overlapping matches')
        return S.Rope('str', [S.Tok('visible', [S.norm(s)], v)])
    ctx.interp.kv_text = text
    ctx.interp.stubs[('pattern', 'sub')] = h


AB = '\x1b\x1b[[mm;;0123456789 abcX?\n'


@contract('P03.remove', ['P03'], native=6000)
def _(ctx):
    """the filter removes exactly the SGR sequences"""
    s = ctx.str('s', lo=0, alphabet=AB)
    if ctx.symbolic:
        stub_sub(ctx, s, lambda w: {'s': w})
        if ctx.truth(S.mkbool(S.toz(S.seq_len(s)) == 0)):
            return
    f = ctx.call(F.ReplaceSGR)
    out = ctx.call(f, s) if ctx.bool('call') else ctx.call(F.ReplaceSGR.apply, f, s)
    if ctx.symbolic:
        ctx.ensure_eq(out, S.Rope('str', [S.Tok('visible', [S.norm(s)], z3.Int('visible'))]), 'the text without its SGR sequences')
    else:
        ctx.ensure_eq(out, strip(s), 'the text without its SGR sequences')


@contract('P03.justify', ['P03'], native=9000)
def _(ctx):
    """all three functions, any text, width and fill character"""
    s = ctx.str('s', lo=0, alphabet=AB)
    w = ctx.int('width', -5, None, rnd=lambda r: r.choice([-3, 0, 1, 2, 3, 5, 8, 13, 40, r.randrange(60)]))
    k = ctx.choice('fn', ['ljust', 'rjust', 'center'])
    fill = ctx.choice('fill', [' ', '.', '\u2588', None])
    args = () if fill is None else (fill,)
    fill = fill or ' '
    if ctx.symbolic:
        stub_sub(ctx, s, lambda x: {'s': x, 'width': len(x) + 7, 'fn': 0, 'fill': 1})
        ctx.assume(S.mkbool(S.toz(S.seq_len(s)) > 0))
        v = S.mknum(z3.Int('visible'))
        S.E().fact(z3.And(z3.Int('visible') >= 0))
    else:
        v = len(strip(s))
    out = ctx.call(getattr(X, k + '_sgr'), s, w, *args)
    if ctx.truth(w <= v):
        ctx.ensure_eq(out, s, 'unchanged when the visible length reaches the width')
        return
    n = w - v
    if k == 'ljust':
        want = ctx.cat(s, fill * n)
    elif k == 'rjust':
        want = ctx.cat(fill * n, s)
    else:
        want = ctx.cat(fill * (n - n // 2), s, fill * (n // 2))
    ctx.ensure_eq(out, want, 'the text with exactly the missing fill characters')


@contract('P03.empty', ['P03'], native=1)
def _(ctx):
    """the empty text, every width from -2 to 40"""
    for w in range(-2, 41):
        for k, f in (('ljust', X.ljust_sgr), ('rjust', X.rjust_sgr), ('center', X.center_sgr)):
            ctx.ensure_eq(ctx.call(f, '', w, '.'), '.' * max(0, w), f'{k} of the empty text')
            ctx.ensure_eq(ctx.call(f, '\x1b[31m\x1b[m', w, '.').replace('\x1b[31m\x1b[m', ''), '.' * max(0, w), f'{k} of invisible text')
