"""P01: a span's closing sequence undoes exactly what its opening set"""
import z3

from kv.engine.harness import contract, FnIn, mval
from kv.engine import sym as S
from kv.engine.sym import Flat, VList, SInt, Lit
from kv.engine.loops import LoopContract, same
import pytermor.ansi as A

# ---- specification of the terminal (ECMA-48 / xterm): attribute switched by a code, and its reset
ATTR = {1: 'intensity', 2: 'intensity', 3: 'italic', 4: 'underline', 21: 'underline', 5: 'blink', 6: 'blink',
        7: 'inverse', 8: 'hidden', 9: 'crossed', 53: 'overline'}
ATTR.update({c: 'fg' for c in [*range(30, 38), *range(90, 98)]})
ATTR.update({c: 'bg' for c in [*range(40, 48), *range(100, 108)]})
RESET = {22: 'intensity', 23: 'italic', 24: 'underline', 25: 'blink', 27: 'inverse', 28: 'hidden', 29: 'crossed',
         55: 'overline', 39: 'fg', 49: 'bg'}
CLOSER = {c: next(r for r, a in RESET.items() if a == ATTR[c]) for c in ATTR}
CLOSER[38], CLOSER[48] = 39, 49
SINGLE = sorted(ATTR)


def apply(state, params):
    """terminal fold over parameters"""
    state = dict(state)
    ps = list(params)
    i = 0
    while i < len(ps):
        p = ps[i]
        if p == 0:
            state = {}
        elif p in ATTR:
            state[ATTR[p]] = (p,)
        elif p in RESET:
            state.pop(RESET[p], None)
        elif p in (38, 48) and i + 1 < len(ps):
            key = 'fg' if p == 38 else 'bg'
            if ps[i + 1] == 5:
                state[key] = tuple(ps[i:i + 3])
                i += 2
            elif ps[i + 1] == 2:
                state[key] = tuple(ps[i:i + 5])
                i += 4
        i += 1
    return state


def spec_closer(c):
    e = z3.IntVal(0)
    for code, r in CLOSER.items():
        e = z3.If(c == code, z3.IntVal(r), e)
    return e


def is_single(c):
    return z3.Or(*[c == k for k in SINGLE])


class Items:
    """a list of n arbitrary attribute codes"""
    def __init__(self, ctx):
        self.kind = z3.Function('it_kind', S.INT, S.INT)
        self.code = z3.Function('it_code', S.INT, S.INT)
        self.arg = [z3.Function(f'it_arg{k}', S.INT, S.INT) for k in range(3)]
        self.n = z3.Int('it_n')
        ctx.eng.add(self.n >= 0)
        ctx.eng.inputs.append(FnIn('params', self.value, [self.n]))

    def facts(self, i):
        k, c = self.kind(i), self.code(i)
        fs = [k >= 0, k <= 2, z3.If(k == 0, is_single(c), z3.Or(c == 38, c == 48))]
        for a in self.arg:
            fs += [a(i) >= 0]
        return fs

    def template(self, bv):
        I = SInt  # noqa
        k, c = self.kind(bv), self.code(bv)
        fs = self.facts(bv)
        a = [I(x(bv)) for x in self.arg]
        return [(k == 0, fs, [I(c)]), (k == 1, fs, [I(c), 5, a[0]]), (k == 2, fs, [I(c), 2, *a])]

    def family(self, lo, hi):
        bv = z3.Int('?item')
        return Flat(bv, lo, hi, self.template(bv))

    def closers(self, lo, hi):
        bv = z3.Int('?item')
        return Flat(bv, lo, hi, [(z3.BoolVal(True), self.facts(bv), [SInt(spec_closer(self.code(bv)))])])

    def value(self, m):
        out = []
        for i in range(mval(m, self.n)):
            k, c = mval(m, self.kind(z3.IntVal(i))), mval(m, self.code(z3.IntVal(i)))
            a = [abs(mval(m, x(z3.IntVal(i)))) for x in self.arg]
            out += [c] if k == 0 else [c, 5, a[0]] if k == 1 else [c, 2, *a]
        return out


class PairLoop(LoopContract):
    name = 'get_closing_seq loop'

    def bind(self, items):
        self.items = items
        rest = clos = None
        for n, v in self.vlists().items():
            if not v.parts and clos is None and n not in self.names:
                clos = n
            elif S.vkey(v) == S.vkey(VList([items.family(0, items.n)])) and n in self.names:
                rest = n
        if rest is None or clos is None:
            raise S.Unsupported('roles of the locals of get_closing_seq not recognised')
        self.rest, self.clos = rest, clos
        self.bound_names = {rest}
        return self

    def havoc(self, fr):
        eng = S.E()
        self.k = z3.Int('it_k')
        eng.add(z3.And(self.k >= 0, self.k <= self.items.n))
        fr.store(self.rest, VList([self.items.family(self.k, self.items.n)]))
        fr.locals[self.clos].set_parts([self.items.closers(0, self.k)])

    def preserved(self, fr):
        k1 = S.simp(self.k + 1)
        S.prove_eq(fr.locals[self.rest], VList([self.items.family(k1, self.items.n)]),
                   'one item is consumed by an iteration (and the loop ends)')
        S.prove_eq(fr.locals[self.clos], VList([self.items.closers(0, k1)]), 'its closing code is added')

    def at_exit(self, fr): pass


@contract('P01.get_closing_seq', ['P01', 'K08'], native=3000)
def _(ctx):
    """the closing sequence resets each attribute of the opening, in order, and nothing else - any number of codes"""
    s = A.SequenceSGR()
    reg = A._SgrPairityRegistry
    if ctx.symbolic:
        items = Items(ctx)
        fam = VList([items.family(0, items.n)])
        ctx.loop(reg.get_closing_seq, lambda it, fr, node: PairLoop(it, fr, node).bind(items))
        ctx.set(s, '_params', fam)
        r = ctx.call(reg.get_closing_seq, s)
        ctx.ensure_eq(ctx.get(r, 'params'), VList([items.closers(0, items.n)]), 'closing codes of all items in order')
        ctx.ensure_eq(ctx.get(s, 'params'), VList([items.family(0, items.n)]), 'the opening is not modified')
    else:
        ps = ctx._take('params', lambda: gen_params(ctx.rng))
        ctx.assume(valid(ps))
        ctx.set(s, '_params', list(ps))
        r = ctx.call(reg.get_closing_seq, s)
        check_fold(ctx, ps, r.params)
        ctx.ensure_eq(s.params, ps, 'the opening is not modified')


def valid(ps):
    i = 0
    while i < len(ps):
        if ps[i] in ATTR:
            i += 1
        elif ps[i] in (38, 48) and i + 1 < len(ps) and ps[i + 1] == 5 and i + 2 < len(ps):
            i += 3
        elif ps[i] in (38, 48) and i + 1 < len(ps) and ps[i + 1] == 2 and i + 4 < len(ps):
            i += 5
        else:
            return False
    return True


def gen_params(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.random()
        if k < .5:
            out.append(rng.choice(SINGLE))
        elif k < .75:
            out += [rng.choice([38, 48]), 5, rng.choice([0, 1, 2, 5, 38, 48, 255, rng.randint(0, 255)])]
        else:
            out += [rng.choice([38, 48]), 2] + [rng.choice([0, 1, 2, 5, 38, 48, 255, rng.randint(0, 255)]) for _ in range(3)]
    return out


def check_fold(ctx, opening, closing):
    touched = set(apply({}, opening))
    for start in ({}, {a: ('x',) for a in RESET.values()}):
        end = apply(apply(start, opening), closing)
        for a in RESET.values():
            if a in touched:
                ctx.ensure(a not in end, f'{a} is back to default')
            else:
                ctx.ensure(end.get(a) == start.get(a), f'{a} is unchanged')


@contract('P01.lemma', ['P01', 'K08'], native=1)
def _(ctx):
    """every closing code of the specification is a reset of exactly the attribute its code sets: folding the closers
    after any opening leaves exactly the touched attributes at default (closers contain no setter)"""
    for c in SINGLE:
        ctx.ensure(RESET[CLOSER[c]] == ATTR[c], f'closer of {c}')
    ctx.ensure(RESET[CLOSER[38]] == 'fg' and RESET[CLOSER[48]] == 'bg', 'closer of extended colours')
    ctx.ensure(not set(RESET) & set(ATTR) and not set(RESET) & {38, 48}, 'a reset sets nothing')


@contract('P01.get_closing_seq.few', ['P01', 'K08'], native=0)
def _(ctx):
    """as above for up to three items, by unrolling (independent of how the loop is written)"""
    n = ctx.choice('n', [0, 1, 2])
    ps, want = [], []
    for k in range(n):
        kind = ctx.choice(f'kind{k}', [0, 1, 2])
        if kind == 0:
            c = ctx.choice(f'code{k}', SINGLE if n < 2 else [1, 2, 3, 21, 53, 37, 90, 107])
            ps.append(c)
        else:
            c = ctx.choice(f'base{k}', [38, 48])
            ps += [c, 5, ctx.int(f'n{k}', 0, 255)] if kind == 1 else [c, 2] + [ctx.int(f'{x}{k}', 0, 255) for x in 'rgb']
        want.append(CLOSER[c])
    s = A.SequenceSGR()
    ctx.set(s, '_params', ctx.list(ps))
    r = ctx.call(A._SgrPairityRegistry.get_closing_seq, s)
    ctx.ensure_eq(ctx.get(r, 'params'), ctx.list(want), 'closing codes of all items in order')


@contract('P01.span', ['P01', 'K08'], native=300)
def _(ctx):
    """wrapping yields opening, text, closing; an empty span adds nothing; explicit spans keep their sequences"""
    text = ctx.str('text')
    how = ctx.choice('how', ['empty', 'codes', 'seq', 'explicit', 'hard', 'explicit_empty', 'none'])
    c1 = ctx.choice('c1', [1, 35, 104])
    r, g, b = (ctx.int(x, 0, 255) for x in 'rgb')
    if how == 'empty':
        sp = ctx.call(A.Span)
        op = cl = ''
    elif how == 'codes':
        sp = ctx.call(A.Span, c1, 38, 2, r, g, b)
        op = ctx.cat(f'\x1b[{c1};38;2;', ctx.fmt(r, 'd'), ';', ctx.fmt(g, 'd'), ';', ctx.fmt(b, 'd'), 'm')
        cl = f'\x1b[{CLOSER[c1]};39m'
    elif how == 'seq':
        sp = ctx.call(A.Span, ctx.call(A.SequenceSGR, c1), ctx.call(A.SequenceSGR, 48, 5, r))
        op = ctx.cat(f'\x1b[{c1};48;5;', ctx.fmt(r, 'd'), 'm')
        cl = f'\x1b[{CLOSER[c1]};49m'
    elif how in ('explicit', 'hard'):
        sp = ctx.call(A.Span.init_explicit, A.SequenceSGR(c1), A.SequenceSGR(23), how == 'hard')
        op, cl = f'\x1b[{c1}m', '\x1b[m' if how == 'hard' else '\x1b[23m'
    else:
        sp = ctx.call(A.Span.init_explicit, None if how == 'none' else A.SequenceSGR())
        op = cl = ''
    ctx.ensure_eq(ctx.call(A.Span.wrap, sp, text), ctx.cat(op, text, cl), 'opening, text, closing')
    ctx.ensure_eq(ctx.call(A.Span.__call__, sp, text), ctx.cat(op, text, cl), 'calling is wrapping')
    ctx.ensure_eq(ctx.get(sp, 'opening_str'), op, 'opening_str')
    ctx.ensure_eq(ctx.get(sp, 'closing_str'), cl, 'closing_str')
    ctx.ensure_eq(ctx.call(A.Span.wrap, sp, None), op + cl if not ctx.symbolic else ctx.cat(op, cl), 'no text')
