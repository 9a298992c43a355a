"""P10 distribute_padded; P04 colour conversions; P02 SGR sequences"""
import z3

from kv.engine.harness import contract, FnIn, mval
from kv.engine.interp import Spread, PyExc, assigned_names
from kv.engine.loops import LoopContract
from kv.engine import sym as S
import pytermor.render as R
import pytermor.ansi as A
import pytermor.color as C
import pytermor.common as CM


# ------------------------------------------------------------------------------------------------ P10
def expect_distribution(ctx, vals, width, before, after, out):
    """out is every value in order, gaps of at least one space that differ by at most one, exact length"""
    gaps = len(vals) - 1
    total = sum([ctx.len(v) for v in vals], 0)
    spaces = width - total
    ctx.ensure(ctx.len(out) == width, 'exact width')
    if gaps == 0:
        ctx.ensure_eq(out, ctx.cat(vals[0], ' ' * spaces), 'single value padded to the width')
        return
    q = spaces // gaps
    ctx.ensure(q >= 1, 'every gap has a space')
    runs = space_runs(ctx, vals, out)
    ctx.ensure(runs is not None, 'all values in order', repr(out))
    for n, length in runs or []:
        # n gaps that nothing visible separates
        if n == 0:
            ctx.ensure(length == 0, 'no spaces outside of the gaps')
        else:
            ctx.ensure(ctx.And(length >= q * n, length <= (q + 1) * n), 'the gaps differ by at most one')


def space_runs(ctx, vals, out):
    """[(number of gaps, number of spaces)] of the runs of spaces before, between and after the values that are not empty"""
    vis = [v for v in vals if not (isinstance(v, str) and v == '')]
    cnt, n, k = [], 0, 0            # gaps between consecutive visible values
    for k, v in enumerate(vals):
        if k:
            n += 1
        if not (isinstance(v, str) and v == ''):
            cnt.append(n)
            n = 0
    cnt.append(n)
    lens = []
    if not ctx.symbolic:
        p = 0
        for v in vis + [None]:
            q = p
            while q < len(out) and out[q] == ' ':
                q += 1
            lens.append(q - p)
            if v is None:
                if q != len(out):
                    return None
            else:
                if out[q:q + len(v)] != v:
                    return None
                p = q + len(v)
        return list(zip(cnt, lens))
    cur, rest = 0, list(vis)
    for part in S.parts_of(out):
        if isinstance(part, S.Lit) and not part.v.strip(' '):
            cur = cur + len(part.v)
        elif isinstance(part, S.Rep) and part.unit == ' ':
            cur = cur + S.mknum(part.n)
        elif rest and isinstance(rest[0], S.Rope) and S.vkey(S.Rope('str', [part])) == S.vkey(rest[0]):
            lens.append(cur)
            cur = 0
            rest.pop(0)
        elif isinstance(part, S.Lit) or any(S.vkey(S.Rope('str', [part])) == S.vkey(v) for v in vis if isinstance(v, S.Rope)):
            return None
        else:
            raise S.Unsupported(f'part of the result: {part!r}')
    if rest:
        return None
    lens.append(cur)
    return list(zip(cnt, lens))


for _n in (1, 2, 3, 4, 5):
    def _mk(n):
        @contract(f'P10.distribute_padded.{n}', ['P10'], native=300)
        def c(ctx):
            before = ctx.bool('pad_before')
            after = ctx.bool('pad_after')
            vals = [ctx.str(f'v{k}', maxlen=None, lo=33, hi=126) for k in range(n)]
            width = ctx.int('width', -5, None, rnd=lambda r: r.randint(0, 60))
            full = ([''] if before else []) + vals + ([''] if after else [])
            total = sum([ctx.len(v) for v in vals], 0)
            out, ex = ctx.attempt(R.distribute_padded, list(vals), width, before, after)
            fits = width - total >= len(full) - 1
            if ex is not None:
                ctx.ensure(isinstance(ex, ValueError), 'ValueError')
                ctx.ensure(ctx.Not(fits), 'raises only when they do not fit')
            else:
                ctx.ensure(fits, 'no result when they do not fit')
                expect_distribution(ctx, full, width, before, after, out)
    _mk(_n)


class Spread10(LoopContract):
    """any number of values: the text at the head of iteration j is the one an arbitrary execution of the first j iterations has
    left (opaque, of known length); an iteration appends the value and its gap"""
    name = 'distribution loop'

    def __init__(self, interp, fr, node, st):
        super().__init__(interp, fr, node)
        self.st = st

    def split(self, fr):
        self.text, self.ints = None, {}
        for n in sorted(assigned_names([self.node])):
            v = fr.locals.get(n)
            if n in assigned_names([self.node.target]) or v is None or isinstance(v, S.Poison):
                continue
            if isinstance(v, str) and v == '' and self.text is None:
                self.text = n
            elif isinstance(v, (int, S.SInt)) and not isinstance(v, bool):
                self.ints[n] = v
            else:
                raise S.Unsupported(f'variable {n} of the loop')
        if self.text is None:
            raise S.Unsupported('no text is put together')

    def candidates(self, v0):
        """[(text, value at the current ghost state)]"""
        s, z = self.st, S.toz(v0)
        return [('unchanged', lambda: z), ('counts down', lambda: z - self.j), ('counts up', lambda: z + self.j),
                ('less what was spent', lambda: z - self.spent), ('plus what was spent', lambda: z + self.spent),
                ('length so far', lambda: z + self.used + self.spent)]

    def arbitrary(self, fr):
        e, s = S.E(), self.st
        self.j, self.used, self.spent = e.fresh('done'), e.fresh('used'), e.fresh('spent')
        e.add(z3.And(self.j >= 0, self.j <= s.m, self.used >= 0, self.spent >= 0))
        self.bounds(e.add)
        for n in assigned_names([self.node]):
            if n in fr.locals and n not in self.ints and n != self.text:
                fr.store(n, S.Poison('loop'))
        self.src = S.Source(e.fresh_name('so_far'), 'str', 1, 0x10ffff)
        fr.store(self.text, S.norm(S.Rope('str', [S.Slice(self.src, 0, self.used + self.spent)])))
        for n, v0 in self.ints.items():
            x = e.fresh('inv_' + n)
            for _, f in self.keep[n]:
                e.add(x == f())
            fr.store(n, S.SInt(x))

    def bounds(self, say):
        s, rest, left = self.st, self.st.m - 1 - self.j, self.st.spaces - self.spent
        say(z3.Implies(z3.And(s.m > 1, rest >= 0), z3.And(s.g * rest <= left, left <= s.g * rest + rest)))
        say(z3.Implies(rest < 0, left == 0))
        say(z3.Implies(z3.And(s.m == 1, self.j == 0), self.spent == 0))

    def at(self, n, i):
        e, s = S.E(), self.st
        kind = self.order[n] if n < len(self.order) else 'end'
        pos, used, self.value = {
            'first': lambda: (z3.IntVal(0), z3.IntVal(0), ''),
            'last': lambda: (s.m - 1, s.total, ''),
            'end': lambda: (s.m, s.total, ''),
            'values': lambda: (s.before + i, s.off(i) - s.off(z3.IntVal(0)), s.value(i))}[kind]()
        e.add(z3.And(self.j == pos, self.used == used))
        if kind == 'values':
            e.add(z3.And(s.off(i) <= s.off(i + 1), s.off(z3.IntVal(0)) <= s.off(i), s.off(i + 1) <= s.off(s.n)))
        e.add(z3.Implies(self.j == 0, self.spent == 0))

    def entry(self, fr, items):
        self.split(fr)
        self.order = []
        for it in items:
            if it[0] != 'v':
                self.order.append('values')
            else:
                self.order.append('last' if 'values' in self.order else 'first')
        if self.order.count('values') != 1 or len(self.order) > 3:
            raise S.Unsupported('values in another order')
        self.items = items
        self.keep = {n: self.candidates(v) for n, v in self.ints.items()}
        self.j, self.used, self.spent = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
        for n, v in self.ints.items():
            self.keep[n] = [c for c in self.keep[n] if S.E().entails(S.mkbool(S.toz(v) == c[1]()))]
        for _ in range(8):
            bad = []

            def run(n):
                self.arbitrary(fr)
                item = self.items[n]
                try:
                    if item[0] == 'v':
                        self.at(n, None)
                        vals = [item[1]]
                    else:
                        i = S.generic_index(item[1].lo, item[1].hi)
                        self.at(n, i)
                        vals = self.interp.elements_at(item, i)
                    for v in vals:
                        self.interp.assign(self.node.target, v, fr)
                        self.interp.exec_block(self.node.body, fr)
                except BaseException as ex:
                    if type(ex).__name__ != 'ContinueX':
                        if isinstance(ex, PyExc) or type(ex).__name__ in ('BreakX', 'ReturnX'):
                            return
                        raise
                self.step(fr)
                for m in self.ints:
                    x = fr.locals.get(m)
                    for c in self.keep[m]:
                        if not isinstance(x, (int, S.SInt)) or not S.E().entails(S.mkbool(S.toz(x) == c[1]())):
                            bad.append((m, c[0]))
            e = S.E()
            k, o = len(e.failures), (e.obligations, e.discharged, e.trivial)
            for n in range(len(items)):
                e.nested(lambda n=n: run(n))
            del e.failures[k:]
            e.obligations, e.discharged, e.trivial = o
            if not bad:
                break
            for m in self.keep:
                self.keep[m] = [c for c in self.keep[m] if (m, c[0]) not in bad]
        else:
            raise S.Unsupported('no invariant found')

    def step(self, fr):
        """the ghost state behind the iteration; returns the gap"""
        ln = S.toz(S.seq_len(fr.locals[self.text]))
        gap = S.simp(ln - self.used - self.spent - S.toz(S.seq_len(self.value)))
        self.j, self.used, self.spent = self.j + 1, self.used + S.toz(S.seq_len(self.value)), self.spent + gap
        return gap

    def havoc(self, fr): self.arbitrary(fr)

    def preserved(self, fr):
        e, s = S.E(), self.st
        j, head = self.j, S.Rope('str', [S.Slice(self.src, 0, self.used + self.spent)])
        text = fr.locals[self.text]
        gap = self.step(fr)
        ok = lambda c, name: e.prove(S.mkbool(c), f'{self.name}: {name}')  # noqa
        ok(gap >= 0, 'nothing is lost')
        S.prove_eq(text, S.cat(S.norm(head), self.value, S.norm(S.Rope('str', [S.Rep(' ', gap)]))), f'{self.name}: the value and its gap are appended')
        ok(z3.Implies(j < s.m - 1, z3.And(gap >= 1, gap >= s.g, gap <= s.g + 1)), 'the gaps differ by at most one')
        ok(z3.Implies(z3.And(j == s.m - 1, s.m > 1), gap == 0), 'no gap after the last value')
        self.bounds(lambda c: ok(c, 'spaces left'))
        for n in self.ints:
            for c in self.keep[n]:
                ok(S.toz(fr.locals[n]) == c[1](), f'{n}: {c[0]}')


class State10:
    pass


@contract('P10.distribute_padded', ['P10'], native=300)
def _(ctx):
    """any number of values"""
    before, after = ctx.bool('pad_before'), ctx.bool('pad_after')
    if not ctx.symbolic:
        vals = ctx._take('values', lambda: [''.join(chr(ctx.rng.randint(33, 126)) for _ in range(ctx.rng.choice([0, 1, 1, 2, 5]))) for _ in range(ctx.rng.randint(1, ctx.rng.choice([5, 14, 45])))])
        width = ctx.int('width', -5, None, rnd=lambda r: r.randint(0, 9) + r.choice([sum(map(len, vals)) + len(vals) - 5, sum(map(len, vals)), r.randint(0, 90), r.randint(100, 400)]))
        full = ([''] if before else []) + vals + ([''] if after else [])
        out, ex = ctx.attempt(R.distribute_padded, list(vals), width, before, after)
        fits = width - sum(map(len, vals)) >= len(full) - 1
        ctx.ensure((ex is None) == fits, 'raises exactly when they do not fit')
        if ex is None:
            expect_distribution(ctx, full, width, before, after, out)
        return
    e, s = S.E(), State10()
    e.weak = True           # a failure counts when it is confirmed on the real code
    I = z3.IntSort()  # noqa
    src = S.Source('value_text', 'str', 33, 126)
    ctx.register(src)
    s.off = z3.Function('value_off', I, I)
    s.n = ctx.int('number', 1).e
    bv = z3.Int(e.fresh_name('?value'))
    width = ctx.int('width', -5, None)

    def concrete(m):
        return [''.join(chr(mval(m, src.elem(z3.IntVal(j)))) for j in range(mval(m, s.off(i)), min(mval(m, s.off(i + 1)), mval(m, s.off(i)) + 200)))
                for i in range(min(mval(m, s.n), 100))]
    ctx.eng.inputs.append(FnIn('values', concrete, [s.n, width.e]))
    s.value = lambda i: S.norm(S.Rope('str', [S.Slice(src, s.off(i), s.off(i + 1))]))
    s.total = s.off(s.n) - s.off(z3.IntVal(0))
    e.add(z3.And(s.off(z3.IntVal(0)) >= 0, s.off(z3.IntVal(0)) <= s.off(s.n)))
    vals = S.VList([S.Flat(bv, 0, s.n, [(z3.BoolVal(True), [s.off(bv) <= s.off(bv + 1), s.off(bv) >= 0], [S.Rope('str', [S.Slice(src, s.off(bv), s.off(bv + 1))])])])])
    s.before = z3.IntVal(1 if before else 0)
    s.m = S.simp(s.n + s.before + (1 if after else 0))
    s.spaces = width.e - s.total
    s.g = e.fresh('smallest_gap')
    e.add(z3.Implies(z3.And(s.m > 1, s.spaces >= s.m - 1), z3.And(s.g >= 1, s.g * (s.m - 1) <= s.spaces, s.spaces < s.g * (s.m - 1) + s.m - 1)))
    loops = []

    def make(interp, fr, node, it):
        if not any(x[0] != 'v' for x in it.items):
            return None
        loops.append(Spread10(interp, fr, node, s))
        return loops[-1]
    ctx.interp.for_providers.append(make)
    out, ex = ctx.attempt(R.distribute_padded, vals, width, before, after)
    fits = S.mkbool(s.spaces >= s.m - 1)
    if ex is not None:
        ctx.ensure(isinstance(ex, ValueError), 'ValueError')
        ctx.ensure(ctx.Not(fits), 'raises only when they do not fit')
        return
    ctx.ensure(fits, 'no result when they do not fit')
    if len(loops) != 1:
        raise S.Unsupported('no loop over the values')
    l = loops[0]
    ctx.ensure(ctx.len(out) == width, 'exact width')
    ctx.ensure_eq(out, S.norm(S.Rope('str', [S.Slice(l.src, 0, l.used + l.spent)])), 'the text put together')


# ------------------------------------------------------------------------------------------------ P04
@contract('P04.split_join', ['P04'])
def _(ctx):
    v = ctx.int('v', 0, 0xffffff)
    r, g, b = ctx.items(ctx.call(C.Color.hex_value_to_rgb_channels, v))
    for ch in (r, g, b):
        ctx.ensure(ctx.And(ch >= 0, ch <= 255), 'channel range')
    ctx.ensure(r * 65536 + g * 256 + b == v, 'red, green, blue order')
    ctx.ensure_eq(ctx.call(C.Color.rgb_channels_to_hex_value, r, g, b), v, 'join after split')


@contract('P04.join_split', ['P04'])
def _(ctx):
    r, g, b = (ctx.int(n, 0, 255) for n in 'rgb')
    v = ctx.call(C.Color.rgb_channels_to_hex_value, r, g, b)
    ctx.ensure(ctx.And(v >= 0, v <= 0xffffff), '24 bits')
    x, y, z = ctx.items(ctx.call(C.Color.hex_value_to_rgb_channels, v))
    ctx.ensure_eq(x, r, 'red')
    ctx.ensure_eq(y, g, 'green')
    ctx.ensure_eq(z, b, 'blue')


@contract('P04.hsv', ['P04'], timeout_ms=20000)
def _(ctx):
    r, g, b = (ctx.num(n, 0, 255) for n in 'rgb')
    if ctx.symbolic:
        v = ctx.int('v', 0, 0xffffff)
        # contract of the callee (P04.split_join): three channels within 0-255
        ctx.stub(C.Color.hex_value_to_rgb_channels, lambda hex_value: (r, g, b))
    else:
        v = r * 65536 + g * 256 + b
    h, s, val = ctx.items(ctx.call(C.Color.hex_value_to_hsv_channels, v))
    mx = ctx.max(r, ctx.max(g, b))
    mn = ctx.min(r, ctx.min(g, b))
    eps = 0 if ctx.symbolic else 1e-9
    ctx.ensure(ctx.And(h >= 0, h < 360), 'hue range')
    ctx.ensure(ctx.And(s >= 0, s <= 1), 'saturation range')
    ctx.ensure(ctx.And(val >= 0, val <= 1), 'value range')

    def same(a, b, name):
        ctx.ensure(ctx.And(a - b <= eps, b - a <= eps), name)
    same(val * 255, mx, 'value is the largest channel')
    if mx == mn:
        ctx.ensure(s == 0, 'grey has no saturation')
        ctx.ensure(h == 0, 'grey has hue zero')
    else:
        same(s * mx, mx - mn, 'saturation is chroma over value')
        d = mx - mn
        # piecewise standard definition
        if r == mx:
            t = 60 * (g - b)
        elif g == mx:
            t = 120 * d + 60 * (b - r)
        else:
            t = 240 * d + 60 * (r - g)
        if t < 0:
            t = t + 360 * d
        same(h * d, t, 'hue by the standard definition')


# ------------------------------------------------------------------------------------------------ P02
def seq_of(ctx, params):
    s = A.SequenceSGR()
    ctx.set(s, '_params', params)
    return s


def catlist(ctx, *ls):
    r = ctx.list([])
    for x in ls:
        r = ctx.op('Add', r, x)
    return r


@contract('P02.construct', ['P02'])
def _(ctx):
    """parameters of codes, names and sequences are concatenated in argument order"""
    names = ['bold', 'YELLOW', 'bg_hi_red', 'reset']
    codes = [1, 33, 101, 0]
    n = ctx.choice('n', [0, 1, 2, 3])
    args, want = [], []
    for k in range(n):
        kind = ctx.choice(f'kind{k}', ['int', 'name', 'seq'])
        if kind == 'int':
            v = ctx.int(f'code{k}', 0, None)
            args.append(v)
            want.append(ctx.list([v]))
        elif kind == 'name':
            j = ctx.choice(f'name{k}', [0, 1, 2, 3] if n < 3 else [0])
            args.append(names[j])
            want.append(ctx.list([codes[j]]))
        else:
            ps = ctx.ints(f'params{k}', lo=0, hi=300)
            args.append(seq_of(ctx, ps))
            want.append(ps)
    s = ctx.call(A.SequenceSGR, *args)
    ctx.ensure_eq(ctx.get(s, 'params'), catlist(ctx, *want), 'parameters in argument order')


@contract('P02.construct_any', ['P02'])
def _(ctx):
    """the same for any number of arguments"""
    names = ['bold', 'BG_HI_RED']
    codes = [1, 101]
    if not ctx.symbolic:
        args = ctx._take('args', lambda: [ctx.rng.choice([ctx.rng.randint(0, 300), [ctx.rng.randint(0, 9) for _ in range(ctx.rng.randint(0, 4))], *names])
                                          for _ in range(ctx.rng.randint(0, 12))])
        s = ctx.call(A.SequenceSGR, *[seq_of(ctx, list(x)) if isinstance(x, list) else x for x in args])
        want = [p for x in args for p in (x if isinstance(x, list) else [codes[names.index(x)]] if isinstance(x, str) else [x])]
        return ctx.ensure_eq(s.params, want, 'parameters in argument order')
    e = S.E()
    I = z3.IntSort()  # noqa
    kind, code, off = (z3.Function('arg_' + x, I, I) for x in ('kind', 'code', 'off'))
    src = S.Source('arg_params', 'list', 0, 300)
    ctx.register(src)
    n, bv = ctx.int('n', 0), z3.Int(e.fresh_name('?arg'))

    def concrete(m):
        k = mval(m, n.e)
        if k > 50:
            raise ValueError('too long')
        out = []
        for i in range(k):
            w, o = mval(m, kind(i)), mval(m, off(i))
            out.append(mval(m, code(i)) if w == 0 else names[w - 1] if w in (1, 2) else
                       [mval(m, src.elem(z3.IntVal(j))) for j in range(o, min(mval(m, off(i + 1)), o + 50))])
        return out
    ctx.eng.inputs.append(FnIn('args', concrete, [n.e]))
    fa = [off(bv) <= off(bv + 1), off(bv) >= 0, code(bv) >= 0, kind(bv) >= 0]
    params = S.Slice(src, off(bv), off(bv + 1))
    guards = [kind(bv) == 0, kind(bv) == 1, kind(bv) == 2, kind(bv) >= 3]
    fam = lambda vals: S.VList([S.Flat(bv, 0, n.e, [(g, fa, v) for g, v in zip(guards, vals)])])  # noqa
    s = object.__new__(A.SequenceSGR)
    ctx.interp.run_star(A.SequenceSGR.__init__, [s], fam([[S.mknum(code(bv))], [names[0]], [names[1]], [seq_of(ctx, S.VList([params]))]]))
    want = fam([[S.mknum(code(bv))], [codes[0]], [codes[1]], [Spread(params)]])
    ctx.ensure_eq(ctx.get(s, 'params'), want, 'parameters in argument order')


@contract('P02.construct_invalid', ['P02'])
def _(ctx):
    """unknown names and foreign types are rejected"""
    bad = ctx.choice('bad', ['nosuchname', None, 1.5, ('x',)])
    _, ex = ctx.attempt(A.SequenceSGR, bad)
    ctx.ensure(ex is not None, 'rejected')


@contract('P02.add', ['P02'])
def _(ctx):
    """addition concatenates and leaves the operands alone"""
    p = ctx.ints('p', lo=0, hi=300)
    q = ctx.ints('q', lo=0, hi=300)
    p0, q0 = catlist(ctx, p), catlist(ctx, q)
    a, b = seq_of(ctx, p), seq_of(ctx, q)
    how = ctx.choice('how', ['__add__', '__iadd__', '__radd__'])
    if how == '__radd__':
        r = ctx.call(A.SequenceSGR.__radd__, b, a)
    else:
        r = ctx.call(getattr(A.SequenceSGR, how), a, b)
    ctx.ensure_eq(ctx.get(r, 'params'), catlist(ctx, p0, q0), 'concatenation')
    ctx.ensure_eq(ctx.get(a, 'params'), p0, 'left operand unchanged')
    ctx.ensure_eq(ctx.get(b, 'params'), q0, 'right operand unchanged')
    ctx.ensure(r is not a and r is not b, 'a new sequence')


@contract('P02.add_foreign', ['P02'])
def _(ctx):
    a = seq_of(ctx, ctx.ints('p', lo=0, hi=300))
    bad = ctx.choice('bad', ['x', None, 1, []])
    _, ex = ctx.attempt(A.SequenceSGR.__add__, a, bad)
    ctx.ensure(isinstance(ex, TypeError), 'TypeError')


@contract('P02.assemble', ['P02'])
def _(ctx):
    """ESC [ parameters joined by ; m"""
    n = ctx.choice('n', [0, 1, 2, 'many'])
    if n == 'many':
        ps = ctx.ints('ps', minlen=2, lo=0, hi=100000)
    else:
        ps = ctx.list([ctx.int(f'c{k}', 0, None) for k in range(n)])
    out = ctx.call(A.SequenceSGR.assemble, seq_of(ctx, ps))
    if n == 0:
        ctx.ensure_eq(out, '', 'no parameters, no text')
    elif n == 1 and ctx.truth(ctx.items(ps)[0] == 0):
        ctx.ensure_eq(out, '\x1b[m', 'reset')
    else:
        ctx.ensure_eq(out, ctx.cat('\x1b[', ctx.join(';', ctx.map(str, ps)), 'm'), 'assembled form')


@contract('P02.equality', ['P02'])
def _(ctx):
    """equal exactly when the parameters are"""
    n, m = ctx.choice('n', [0, 1, 2, 3]), ctx.choice('m', [0, 1, 2, 3])
    rnd = lambda r: r.randint(0, 2)  # noqa
    p = [ctx.int(f'p{k}', 0, None, rnd=rnd) for k in range(n)]
    q = [ctx.int(f'q{k}', 0, None, rnd=rnd) for k in range(m)]
    r = ctx.call(A.SequenceSGR.__eq__, seq_of(ctx, ctx.list(p)), seq_of(ctx, ctx.list(q)))
    want = False if n != m else ctx.And(True, *[a == b for a, b in zip(p, q)])
    ctx.ensure(ctx.eq(r, want), 'equality of sequences')


@contract('P02.color_indexed', ['P02', 'P07'])
def _(ctx):
    idx = ctx.int('idx', None, None, rnd=lambda r: r.choice([-1, 0, 255, 256, r.randint(-300, 600)]))
    bg = ctx.bool('bg')
    s, ex = ctx.attempt(A.SequenceSGR.init_color_indexed, idx, bg)
    ok = ctx.And(idx >= 0, idx <= 255)
    if ex is not None:
        ctx.ensure(isinstance(ex, ValueError), 'ValueError')
        ctx.ensure(ctx.Not(ok), 'valid indices accepted')
    else:
        ctx.ensure(ok, 'invalid indices rejected')
        ctx.ensure_eq(ctx.get(s, 'params'), ctx.list([48 if bg else 38, 5, idx]), '38/48;5;n')


@contract('P02.color_rgb', ['P02', 'P07'])
def _(ctx):
    rnd = lambda r: r.choice([-1, 0, 255, 256, r.randint(0, 255), r.randint(0, 255)])  # noqa
    ch = [ctx.int(c, None, None, rnd=rnd) for c in 'rgb']
    bg = ctx.bool('bg')
    s, ex = ctx.attempt(A.SequenceSGR.init_color_rgb, *ch, bg)
    ok = ctx.And(*[ctx.And(c >= 0, c <= 255) for c in ch])
    if ex is not None:
        ctx.ensure(isinstance(ex, ValueError), 'ValueError')
        ctx.ensure(ctx.Not(ok), 'valid channels accepted')
    else:
        ctx.ensure(ok, 'invalid channels rejected')
        ctx.ensure_eq(ctx.get(s, 'params'), ctx.list([48 if bg else 38, 2] + ch), '38/48;2;r;g;b')
