"""K02, K03, K10: how the formatters turn what is queued into rows and lines (SegmentBuffer by its contracts K.detach_*)"""
import ast

import z3

from kv.engine.harness import contract
from kv.engine import sym as S
from kv.engine.loops import Inferred
from kv.contracts import k_parser as KP
from kv.contracts import k_chain as KC
from kv.contracts.k_template import options
from kv.contracts.k_console import Out, check_label, one_line, unpad, big, rep
from kv.contracts.vis import strip_parts, visible
from kv.oracle import spec
import kolombos.byteio as B
import kolombos.byteio.formatter as F
import kolombos.byteio.template as TP
import kolombos.byteio.segment as SG
import kolombos.console as C
import kolombos.settings as ST
import pytermor as P

LINES = z3.Function('line_groups', S.INT, S.INT)       # groups before line k
LBYTES, LREST = z3.Function('line_bytes', S.INT, S.INT), z3.Int('rest_bytes')
LTXT = z3.Function('group_text', S.INT, S.INT)         # offset of the text of a group


# ------------------------------------------------------------------------------------------------ which printer is which
def kinds(ctx, printers):
    """what each printer makes of a segment: 'hex', 'text' or anything else, and whether formatting is applied"""
    raw, proc = ctx.sample_raw, ctx.sample_proc
    out = []
    for p in ctx.items(printers):
        try:
            k = S.vkey(ctx.call(SG.SegmentPrinter.print, p, ctx.call(SG.Segment, P.NOOP_SEQ, 'x', raw, proc)))
        except S.Unsupported:
            k = None
        kind = 'text' if k == S.vkey(proc) else 'hex' if k == S.vkey(KC.hexes(ctx, raw)) else 'other'
        out.append((kind, ctx.truth(ctx.get(p, 'apply_sgr')), ctx.truth(ctx.get(p, 'encode_sgr'))))
    return out


def samples(ctx):
    a, b = S.Source('SRAW', 'bytes', 0, 255), S.Source('SPROC', 'str', 33, 0x10ffff)
    ctx.register(a)
    ctx.register(b)
    n = ctx.int('sample_n', 1)
    ctx.sample_raw = S.norm(S.Rope('bytes', [S.Slice(a, 0, n)]))
    ctx.sample_proc = S.norm(S.Rope('str', [S.Slice(b, 0, n)]))


@contract('K.printers', ['K01', 'K02', 'K03', 'K04'], native=300)
def _(ctx):
    """the real printers: two hexadecimal digits behind a space for every byte; the displayed text unchanged"""
    KP.settings(ctx)
    if ctx.symbolic:
        KP.quiet(ctx)
    raw = ctx.bytes('raw')
    proc = ctx.str('proc', alphabet='ab·▯␣\n')
    buf = ctx.call(SG.SegmentBuffer)
    f = ctx.call(F.TextFormatter, ctx.call(B.ParserBuffer), buf)
    seg = ctx.call(SG.Segment, P.NOOP_SEQ, 'x', raw, proc)
    ctx.call(SG.SegmentBuffer.attach, buf, seg)
    ctx.ensure_eq(ctx.call(f._seg_raw_to_hex, seg), KC.hexes(ctx, raw), 'the bytes in hexadecimal')
    ctx.ensure_eq(ctx.call(f._seg_processed_noop, seg), proc, 'the displayed text')


@contract('K.safe', ['K08', 'K11'], native=300)
def _(ctx):
    """what the printers of debug rows make of any bytes: one character per byte, no control character"""
    KP.settings(ctx)
    if ctx.symbolic:
        KP.quiet(ctx)
    raw = ctx.bytes('raw')
    proc = ctx.str('proc', 0, alphabet='ab·▯␣')
    f = ctx.call(F.TextFormatter, ctx.call(B.ParserBuffer), ctx.call(SG.SegmentBuffer))
    seg = ctx.call(SG.Segment, P.NOOP_SEQ, 'x', raw, proc)
    names = [n for n in dir(f) if 'debug' in n and isinstance(getattr(f, n), SG.SegmentPrinter)]
    if ctx.symbolic and len(names) < 3:
        raise S.Unsupported('the printers of debug rows')
    for n in names:
        v = ctx.call(SG.SegmentPrinter.print, ctx.get(f, n), seg)
        if not ctx.symbolic:
            ctx.ensure(not any(ord(c) < 32 or ord(c) == 127 for c in v), 'no control character', repr(v))
        else:
            visible(ctx, v, n)
        k = len(ctx.call(SG.SegmentPrinter.print, ctx.get(f, n), SG.Segment(P.NOOP_SEQ, 'x', b'a', 'a')))
        ctx.ensure(k in (1, 3), 'one character or two digits and a space', n)
        ctx.ensure_eq(ctx.len(v), ctx.len(raw) * k, 'one for every byte')


# ------------------------------------------------------------------------------------------------ common parts
def make_formatter(ctx, cls, closed):
    pb = ctx.call(B.ParserBuffer)
    ctx.call(B.ParserBuffer.append_raw, pb, b'', closed)
    f = ctx.call(cls, pb, ctx.call(SG.SegmentBuffer))
    return f


def arbitrary_counters(ctx, f):
    """{attribute: (initial value, arbitrary later value)}"""
    out = {}
    for n, v in list(f.__dict__.items()):
        if isinstance(v, int) and not isinstance(v, bool) and n not in ctx.fixed:
            x = ctx.int('at_' + n, v)
            ctx.interp.setattr(f, n, x)
            out[n] = (v, x)
    return out


class FormatLoop(Inferred):
    """an iteration prints one row or line"""
    name = 'formatter loop'

    def bind(self, m):
        self.m = m
        self.snapshot = {n: v for n, v in self.fr.locals.items() if isinstance(v, (int, S.SInt)) and n not in self.names}
        return self

    def objects(self): return [self.m.f]

    def candidates(self, label, entry):
        m = self.m
        return [('is unchanged', lambda v: v == S.toz(entry)), ('counts', lambda v: v == S.toz(entry) + m.count()),
                ('counts bytes', lambda v: v == S.toz(entry) + m.nbytes())]

    def fresh_ghost(self): self.m.arbitrary()

    def havoc(self, fr):
        super().havoc(fr)
        self.m.head(self)

    def preserved(self, fr):
        super().preserved(fr)
        self.m.iteration(self)


def install(ctx, m, name):
    def make(it, fr, node):
        g = fr.fn
        if not isinstance(node, ast.While) or not getattr(g, '__module__', '').startswith(F.__name__) or m.loop is not None:
            return None
        m.loop = FormatLoop(it, fr, node).bind(m)
        return m.loop
    ctx.interp.loop_providers.append(make)


def counter(m):
    """the attribute that counts: its value now, as the number since the beginning (of the program)"""
    ok = [n for n, (v0, x) in m.counters.items()
          if any(c[0] == 'counts' for c in m.loop.keep.get(f'{type(m.f).__name__}.{n}', ()))
          and not any(c[0] == 'is unchanged' for c in m.loop.keep.get(f'{type(m.f).__name__}.{n}', ()))]
    if len(ok) != 1:
        raise S.Unsupported('the counter of the formatter is not recognised')
    v0, x = m.counters[ok[0]]
    return ok[0], v0, S.toz(x) - v0


def split_tail(ctx, v, tail):
    """(what is in front of the tail, True) or (None, False)"""
    vs, ts = list(S.parts_of(v)), list(S.parts_of(S.norm(tail)))
    if len(vs) < len(ts):
        return None, False
    head, last = vs[:len(vs) - len(ts)], vs[len(vs) - len(ts):]
    for i, (a, b) in enumerate(zip(last, ts)):
        if S.vkey(S.Rope('str', [a])) == S.vkey(S.Rope('str', [b])):
            continue
        if i == 0 and isinstance(a, S.Lit) and isinstance(b, S.Lit) and a.v.endswith(b.v):
            head.append(S.Lit(a.v[:len(a.v) - len(b.v)]))
            continue
        return None, False
    return S.norm(S.Rope('str', head)), True


# ------------------------------------------------------------------------------------------------ text mode
class Lines:
    """SegmentBuffer in text mode, as K.detach_line describes it: n complete lines, then an unterminated rest or not"""
    def __init__(self, ctx, closed):
        self.ctx, self.closed, self.loop = ctx, closed, None
        self.n = z3.Int('complete_lines')
        self.k = z3.IntVal(0)
        self.rest = ctx.bool('has_rest')
        self.last = z3.Int('last_before')
        self.left = self.rest
        self.src = S.Source('BODY', 'str', 33, 0x10ffff)
        ctx.register(self.src)
        self.shape = ctx.choice('line_end', ['marked', 'plain', 'styled'])
        ctx.eng.add(self.n >= 0)
        self.taken = []

    def nbytes(self): return LBYTES(self.k) + (LREST if self.rest and not self.left else 0) - LBYTES(0)

    def count(self): return self.k + (1 if self.rest and not self.left else 0)

    def line(self, k, complete):
        """formatted groups of text without line breaks, then the line break"""
        bv = z3.Int('?ltx')
        f = [LTXT(bv) <= LTXT(bv + 1), LTXT(bv) >= 0]
        S.E().fact(z3.And(LINES(k) >= 0, LINES(k) <= LINES(k + 1)))
        body = S.Rope('str', [S.Sgr('open', bv), S.Slice(self.src, LTXT(bv), LTXT(bv + 1)), S.Sgr('close', bv)])
        bare = S.Rope('str', [S.Slice(self.src, LTXT(bv), LTXT(bv + 1))])
        out = [S.Flat(bv, LINES(k), LINES(k + 1), [(KC.STYLED(bv), f, body), (z3.Not(KC.STYLED(bv)), f, bare)])]
        if complete:
            z = LINES(k + 1)
            out += {'plain': [S.Lit('\n')], 'marked': [S.Sgr('open', z), S.Lit('↵\x1b[0m\n'), S.Sgr('close', z)],
                    'styled': [S.Sgr('open', z), S.Lit('\n'), S.Sgr('close', z)]}[self.shape]
        return S.norm(S.Rope('str', out))

    def detach(self, buf, force, printers):
        ctx = self.ctx
        if S.E().branch(self.k < self.n):
            v, done = self.line(self.k, True), True
        elif self.left:
            if not ctx.truth(force):
                S.raise_py(B.WaitRequest())
            v, done = self.line(self.n, False), False
        else:
            S.raise_py(EOFError())
        out = []
        for kind, sgr, enc in kinds(ctx, printers):
            out.append(v if kind == 'text' and sgr and not enc else ctx.str('other'))
        if done:
            self.k = S.simp(self.k + 1)
        else:
            self.left = False
        self.taken.append((v, done))
        self.last = LBYTES(self.k) - LBYTES(self.k - 1) if done else LREST
        S.E().fact(self.last >= 1 if done else self.last >= 0)
        return tuple(out)

    def arbitrary(self):
        e = S.E()
        self.k = e.fresh('lines')
        e.add(z3.And(self.k >= 0, self.k <= self.n))
        self.left = self.rest
        if self.rest and self.closed and e.branch(self.k == self.n):
            self.left = e.choose(2) == 0
        self.taken = []

    def head(self, loop):
        self.out.events.clear()
        self.at = self.count()

    def iteration(self, loop):
        ctx = self.ctx
        if len(self.taken) != 1:
            raise S.Unsupported('more or less than one line in an iteration')
        v, done = self.taken[0]
        ctx.ensure_eq(self.out.text('err'), '', 'nothing on standard error')
        got = self.out.text()
        p, ok = split_tail(ctx, got, v if done else S.cat(v, '\n'))
        if not ok and not ctx.truth(v):       # an empty line has nothing to be printed
            p, ok = split_tail(ctx, got, '\n')
        ctx.ensure(ok, 'the line is printed once, unchanged, and ends with one line break', f'{got!r}')
        if not ok:
            return
        name, v0, before = counter(self)
        label = one_line(ctx, p, 'line number')
        if ctx.truth(self.o['debug'] > 0):
            return
        if ctx.truth(self.o['no_line_numbers']):
            ctx.ensure_eq(label, '', 'no line numbers')
        else:
            ctx.ensure_eq(unpad(ctx, label), ctx.cat(ctx.fmt(S.mknum(before + self.at + 1), 'd'), '│'), 'its number, counted from 1')


@contract('K.text_format', ['K03', 'K10'], native=600, budget=200)
def _(ctx):
    """each line is printed once behind its number, with one line break at the end; at the end of input everything"""
    if not ctx.symbolic:
        native_format(ctx, False)
        return
    o = options(ctx, binary=False)
    KP.quiet(ctx)
    samples(ctx)
    ctx.fixed = ()
    out = Out(ctx)
    closed = ctx.bool('closed')
    f = make_formatter(ctx, F.TextFormatter, closed)
    m = Lines(ctx, closed)
    m.f, m.out, m.o = f, out, o
    m.counters = arbitrary_counters(ctx, f)
    ctx.stub(SG.SegmentBuffer.detach_line, m.detach)
    ctx.stub(SG.SegmentBuffer.last_detached_data_len.fget, lambda buf: S.mknum(m.last))
    ctx.stub(SG.SegmentBuffer.data_len.fget, lambda buf: ctx.int('data_len', 0))
    install(ctx, m, 'format')
    out.events.clear()
    ctx.call(F.TextFormatter.format, f)
    if m.loop is None:
        raise S.Unsupported('no loop')
    ctx.ensure_eq(out.text() if not m.taken else '', '', 'nothing else is printed')
    ctx.ensure(not m.taken, 'a line that was taken is printed', repr(m.taken))
    ctx.ensure(S.mkbool(m.k == m.n), 'all complete lines are printed')
    ctx.ensure(not (closed and m.left), 'at the end of input the rest is printed')
    name, v0, before = counter(m)
    ctx.ensure(S.mkbool(S.toz(ctx.get(f, name)) - v0 == before + m.count()), 'lines are counted')


# ------------------------------------------------------------------------------------------------ binary mode
class Bytes:
    """SegmentBuffer in binary mode, as K.detach_bytes describes it"""
    def __init__(self, ctx, closed):
        self.ctx, self.closed, self.loop = ctx, closed, None
        self.raw, self.proc = S.Source('RAW', 'bytes', 0, 255), S.Source('PROC', 'str', 33, 0x10ffff)
        ctx.register(self.raw)
        ctx.register(self.proc)
        self.total = z3.Int('available')
        ctx.eng.add(self.total >= 0)
        self.c = z3.IntVal(0)
        self.taken, self.last, self.req = [], z3.IntVal(0), None

    def count(self): return self.c
    def nbytes(self): return self.c

    def detach(self, buf, req, force, printers):
        ctx, e = self.ctx, S.E()
        req = S.toz(req)
        avail = S.simp(self.total - self.c)
        self.req = req
        e.prove(S.mkbool(z3.Or(req >= 1, avail == 0)), 'at least one byte is asked for')
        if not ctx.truth(force):
            if e.branch(avail < req):
                S.raise_py(B.WaitRequest())
        if e.branch(avail == 0):
            S.raise_py(EOFError())
        d = req if e.branch(req <= avail) else avail
        a, b = self.c, S.simp(self.c + d)
        raw, proc = S.norm(S.Rope('bytes', [S.Slice(self.raw, a, b)])), S.norm(S.Rope('str', [S.Slice(self.proc, a, b)]))
        out = []
        for kind, sgr, enc in kinds(ctx, printers):
            v = KC.hexes(ctx, raw) if kind == 'hex' else proc if kind == 'text' else ctx.str('other')
            out.append(v if kind == 'other' or not sgr or enc else S.norm(S.Rope('str', [S.Sgr('open', a), *S.parts_of(v), S.Sgr('close', a)])))
        self.c, self.last = b, d
        self.taken.append((a, d, KC.hexes(ctx, raw), proc))
        return tuple(out)

    def arbitrary(self):
        e = S.E()
        self.c = e.fresh('consumed')
        e.add(z3.And(self.c >= 0, self.c <= self.total))
        self.last = e.fresh('last')
        self.taken = []

    def head(self, loop):
        self.out.events.clear()
        self.at = self.c

    def iteration(self, loop):
        ctx = self.ctx
        if len(self.taken) != 1:
            raise S.Unsupported('more or less than one row in an iteration')
        a, d, hexed, proc = self.taken[0]
        ctx.ensure_eq(self.out.text('err'), '', 'nothing on standard error')
        got = S.norm(S.Rope('str', strip_parts(ctx, S.parts_of(self.out.text()), 'row', '')))
        offsets = ctx.truth(ctx.Not(self.o['no_offsets']))
        free = not offsets and ctx.truth(self.o['debug'] > 0)      # shown for debugging nevertheless, or not
        # the columns left
        ps = list(S.parts_of(got))
        pads = [p for p in ps if isinstance(p, S.Rep) and p.unit.strip(' ') == '' and p.unit]
        hx = [i for i, p in enumerate(ps) if S.vkey(S.Rope('str', [p])) == S.vkey(hexed)]
        ctx.ensure(len(hx) == 1, 'the bytes of the row are printed once', repr(got))
        if len(hx) != 1:
            return
        p0 = ps[hx[0] + 1] if hx[0] + 1 < len(ps) else None
        n = z3.IntVal(0)
        if isinstance(p0, S.Rep) and p0.unit == '   ':
            n = p0.n
        elif isinstance(p0, S.Rep) and p0.unit == ' ':
            n = p0.n / 3
        n = z3.If(n > 0, n, 0)
        w = S.simp(d + n)
        if free:
            offsets_shown = any(isinstance(p, S.Lit) and '│' in p.v for p in ps[hx[0]:])
        sep = '│' if offsets or free and offsets_shown else ' '
        want = ctx.cat(hexed, S.seq_repeat('   ', S.mknum(n)), ' ', sep, proc, '\n')
        head = S.norm(S.Rope('str', ps[:hx[0]]))
        ctx.ensure_eq(S.norm(S.Rope('str', ps[hx[0]:])), want, 'the row: hexadecimal column, padding, separator, characters')
        name, v0, before = counter(self)
        if offsets:
            check_label(ctx, head, S.mknum(before + self.at), ctx.truth(self.o['decimal_offsets']))
        elif not free:
            ctx.ensure_eq(head, '', 'no offsets')
        if self.cols is not None:
            ctx.ensure(S.mkbool(w == S.toz(self.cols)), 'as many columns as asked for')
        else:
            ctx.ensure(S.mkbool(w >= 1), 'at least one column')
            ctx.ensure(any(S.E().entails(w == S.toz(x)) for x in loop.snapshot.values()), 'every row has the same number of columns')
        avail = self.total - self.at
        ctx.ensure(S.mkbool(d == z3.If(avail < w, avail, w)), 'every row is full but the last one')
        ctx.ensure(S.mkbool(z3.Or(z3.BoolVal(self.closed), d == w)), 'a short row only at the end of input')
        self.loop.width = w


@contract('K.binary_format', ['K01', 'K02', 'K10'], native=600, budget=200)
def _(ctx):
    """each row holds the next bytes behind the label of their offset; every row is full but the last one; at the end of
    input everything is printed, then the total size"""
    if not ctx.symbolic:
        native_format(ctx, True)
        return
    auto = ctx.choice('columns', ['fixed', 'none', 'zero'])
    cols = ctx.int('cols', 1) if auto == 'fixed' else None if auto == 'none' else ctx.int('cols0', None, 0)
    o = options(ctx, binary=True, columns=cols)
    KP.quiet(ctx)
    samples(ctx)
    out = Out(ctx)
    closed = ctx.bool('closed')
    import kolombos
    import sys
    mod = sys.modules[F.BinaryFormatter.__module__]
    width = ctx.int('terminal_width', 0)
    for g in {getattr(mod, 'get_terminal_width', None), getattr(kolombos, 'get_terminal_width', None)} - {None}:
        ctx.stub(g, lambda *a, **k: width)
    f = make_formatter(ctx, F.BinaryFormatter, closed)
    m = Bytes(ctx, closed)
    m.f, m.out, m.o, m.cols = f, out, o, cols if auto == 'fixed' else None
    # constants of the class: what does not depend on the input
    g = make_formatter(ctx, F.BinaryFormatter, False)
    ctx.fixed = tuple(n for n, v in g.__dict__.items() if isinstance(v, int) and v != 0)
    m.counters = arbitrary_counters(ctx, f)
    ctx.stub(SG.SegmentBuffer.detach_bytes, m.detach)
    ctx.stub(SG.SegmentBuffer.last_detached_data_len.fget, lambda buf: S.mknum(m.last))
    ctx.stub(SG.SegmentBuffer.data_len.fget, lambda buf: S.mknum(m.total - m.c))
    install(ctx, m, 'format')
    out.events.clear()
    ctx.call(F.BinaryFormatter.format, f)
    if m.loop is None:
        raise S.Unsupported('no loop')
    ctx.ensure(not m.taken, 'a row that was taken is printed', repr(m.taken))
    avail = m.total - m.c
    name, v0, before = counter(m)
    ctx.ensure(S.mkbool(S.toz(ctx.get(f, name)) - v0 == before + m.c), 'bytes are counted')
    if closed:
        ctx.ensure(S.mkbool(avail == 0), 'at the end of input everything is printed')
    elif m.req is not None:
        if m.cols is not None:
            ctx.ensure(S.mkbool(m.req == S.toz(m.cols)), 'rows of the right size are asked for')
        ctx.ensure(S.mkbool(avail < m.req), 'all full rows are printed')
    tail = S.norm(S.Rope('str', strip_parts(ctx, S.parts_of(out.text()), 'total', '')))
    if closed and ctx.truth(ctx.Not(o['no_offsets'])):
        ctx.ensure(bool(S.parts_of(tail)), 'the total is printed')
        if not S.parts_of(tail):
            return
        t, ok = split_tail(ctx, tail, '\n')
        check_label(ctx, t if ok else tail, S.mknum(before + m.total), ctx.truth(o['decimal_offsets']))
    elif not (closed and ctx.truth(o['debug'] > 0)):
        ctx.ensure_eq(tail, '', 'nothing else is printed')


class OneRow:
    """a segment buffer that has data for one row of the next call, or for a part of one at the end of input"""
    def __init__(self, ctx, total, closed):
        self.ctx, self.total, self.closed, self.at = ctx, total, closed, None

    def detach(self, buf, req, force, printers):
        ctx, e = self.ctx, S.E()
        if self.at is not None:
            if ctx.truth(force):
                S.raise_py(EOFError())
            S.raise_py(B.WaitRequest())
        req = S.toz(req)
        if not self.closed:
            e.add(self.total >= req)
        self.d = req if e.branch(req <= self.total) else self.total
        self.at = self.d
        self.hexed = KC.hexes(ctx, S.norm(S.Rope('bytes', [S.Slice(self.raw, 0, self.d)])))
        proc = S.norm(S.Rope('str', [S.Slice(self.proc, 0, self.d)]))
        return tuple(self.hexed if k == 'hex' else proc if k == 'text' else ctx.str('other') for k, sgr, enc in kinds(ctx, printers))

    def width(self, text):
        """number of columns of the row that was printed"""
        ps = list(S.parts_of(S.norm(S.Rope('str', strip_parts(self.ctx, S.parts_of(text), 'row', '')))))
        hx = [i for i, p in enumerate(ps) if S.vkey(S.Rope('str', [p])) == S.vkey(self.hexed)]
        if len(hx) != 1:
            raise S.Unsupported('the row is not recognised')
        p0 = ps[hx[0] + 1] if hx[0] + 1 < len(ps) else None
        n = p0.n if isinstance(p0, S.Rep) and p0.unit == '   ' else p0.n / 3 if isinstance(p0, S.Rep) and p0.unit == ' ' else z3.IntVal(0)
        return S.simp(self.d + z3.If(n > 0, n, 0))


@contract('K.binary_columns', ['K01', 'K10'], native=300)
def _(ctx):
    """the number of columns chosen automatically is the same in every call, whatever the offset and the terminal width
    (within one call: K.binary_format)"""
    if not ctx.symbolic:
        native_columns(ctx)
        return
    o = options(ctx, binary=True, columns=None if ctx.bool('none') else ctx.int('cols0', None, 0), debug=0)
    KP.quiet(ctx)
    samples(ctx)
    out = Out(ctx)
    import kolombos
    import sys
    mod = sys.modules[F.BinaryFormatter.__module__]
    closed = ctx.bool('closed')
    width = [ctx.int('terminal_width', 0), ctx.int('terminal_width_2', 0)]
    now = [0]
    for g in {getattr(mod, 'get_terminal_width', None), getattr(kolombos, 'get_terminal_width', None)} - {None}:
        ctx.stub(g, lambda *a, **k: width[now[0]])
    f = make_formatter(ctx, F.BinaryFormatter, False)
    ctx.fixed = tuple(n for n, v in f.__dict__.items() if isinstance(v, int) and v != 0)
    raw, proc = S.Source('RAW', 'bytes', 0, 255), S.Source('PROC', 'str', 33, 0x10ffff)
    ctx.register(raw)
    ctx.register(proc)
    rows = []
    for k in (0, 1):
        total = ctx.int('data_len_%d' % k, 1)
        m = OneRow(ctx, S.toz(total), closed and k == 1)
        m.raw, m.proc = raw, proc
        if k == 0:
            counters = arbitrary_counters(ctx, f)
        else:
            for n, (v, x) in counters.items():
                y = ctx.int('later_' + n, v)
                ctx.interp.setattr(f, n, y)
            if closed:
                ctx.call(B.ParserBuffer.append_raw, ctx.get(f, '_parser_buffer'), b'', True)
        now[0] = k
        ctx.stub(SG.SegmentBuffer.detach_bytes, m.detach)
        ctx.stub(SG.SegmentBuffer.last_detached_data_len.fget, lambda buf: S.mknum(m.d))
        ctx.stub(SG.SegmentBuffer.data_len.fget, lambda buf: S.mknum(m.total if m.at is None else S.simp(m.total - m.at)))
        out.events.clear()
        ctx.call(F.BinaryFormatter.format, f)
        if m.at is None:
            return
        rows.append(m.width(out.text()))
    ctx.ensure(S.mkbool(rows[0] == rows[1]), 'all rows have the same number of columns')


def native_columns(ctx):
    """rows printed at different offsets, in terminals of different widths"""
    import os
    r = ctx.rng
    o = options(ctx, binary=True, columns=ctx._take('columns', lambda: r.choice([None, 0])), debug=0)
    hist = ctx._take('history', lambda: [(r.choice([0, 7, 9999, 10 ** 5, 10 ** 6, 10 ** 8, 10 ** 9 + 7]), r.randrange(1, 300)) for _ in range(3)])
    wide = ctx._take('widths', lambda: [w0 := r.randrange(10, 240)] + [r.choice([w0, w0, r.randrange(10, 240)]) for _ in range(2)])
    pb, sb = B.ParserBuffer(), SG.SegmentBuffer()
    out = Out(ctx)
    f = ctx.call(F.BinaryFormatter, pb, sb)
    zero = [n for n, v in vars(f).items() if type(v) is int and v == 0]
    old = os.environ.get('COLUMNS')
    counts, seen = None, []
    try:
        for (at, n), w in zip(hist, wide):
            os.environ['COLUMNS'] = str(w)
            for c in counts or ():
                setattr(f, c, max(getattr(f, c), at))
            out.events.clear()
            sb.attach(SG.Segment(P.SequenceSGR(), 'x', b'a' * (n + 400), 'a' * (n + 400)))
            had = sb.data_len
            ctx.call(f.format)
            if counts is None:
                counts = [c for c in zero if getattr(f, c) == had - sb.data_len > 0]
            for row in spec.strip_sgr(out.text()).splitlines():
                seen.append((row if o['no_offsets'] else row.partition('│')[2]).count(' 61'))
    finally:
        if old is None:
            os.environ.pop('COLUMNS', None)
        else:
            os.environ['COLUMNS'] = old
    ctx.ensure(len(set(seen)) <= 1, 'all rows have the same number of columns', repr(sorted(set(seen))))


# ------------------------------------------------------------------------------------------------ native
def native_format(ctx, binary):
    """a random history: segments arrive, the formatter runs; at last the input is closed"""
    r = ctx.rng
    o = options(ctx, binary=binary, columns=ctx._take('columns', lambda: r.choice([1, 2, 3, 8, 16, None, 0] + [100, 300, 1000] * (r.random() < .3))) if binary else None,
                debug=0)
    hist = ctx._take('history', lambda: [KC.gen_groups(r, binary) * (r.choice([10, 100, 300]) if (o['columns'] or 0) >= 100 else 1) for _ in range(r.choice([1, 2, 4]))])
    lines = 0 if binary else ctx._take('lines', lambda: 10500 if r.random() < .01 else 0)
    if lines:                   # a long input: numbers of many digits
        hist = [[((), b'ab\n', 'ab\n')] * 500] * (lines // 500) + hist
    out = Out(ctx)
    pb, sb = B.ParserBuffer(), SG.SegmentBuffer()
    f = ctx.call(F.BinaryFormatter if binary else F.TextFormatter, pb, sb)
    for i, groups in enumerate(hist):
        last = i == len(hist) - 1
        pb.append_raw(b'', last)
        sb.attach(*[SG.Segment(P.SequenceSGR(*c), 'x', raw, t) for c, raw, t in groups])
        ctx.call(f.format)
    groups = [g for gs in hist for g in gs]
    got = spec.strip_sgr(out.text())
    data, text = b''.join(g[1] for g in groups), ''.join(g[2] for g in groups)
    if not binary:
        k = max([i for i, g in enumerate(groups) if '\n' in g[2]], default=-1)
        if not any(g[1] for g in groups[k + 1:]) and len(groups) > k + 1:
            return              # a token always has data (K.template)
        want = []
        for n, line in enumerate(text.split('\n')[:-1] if len(groups) == k + 1 else text.split('\n')):
            want.append(('' if o['no_line_numbers'] else '%2d│' % (n + 1)) + line + '\n')
        ctx.ensure_eq([x.lstrip(' ') for x in got.splitlines(True)] if not o['no_line_numbers'] else got,
                      [x.lstrip(' ') for x in want] if not o['no_line_numbers'] else ''.join(want), 'the lines')
        return
    offsets = not o['no_offsets']
    w = o['columns'] if (o['columns'] or 0) >= 1 else None
    rows = got.split('\n')
    if offsets:
        label = rows.pop() or rows and rows.pop()
        ctx.ensure(bool(label), 'the total is printed')
        check_label(ctx, label, len(data), o['decimal_offsets'])
    else:
        ctx.ensure_eq(rows.pop(), '', 'ends with a line break')
    pos = 0
    for row in rows:
        if offsets:
            label, _, rest = row.partition('│')
            check_label(ctx, label + '│', pos, o['decimal_offsets'])
        else:
            rest = row
        n = 0
        while data[pos + n:] and rest[3 * n:].startswith(' %02x' % data[pos + n]):
            n += 1
        if w is None:
            chars = text[pos:pos + n]
            w = (len(rest) - 2 - n) // 3
        ctx.ensure(n == min(w, len(data) - pos) and n > 0, 'the bytes of the row', repr((n, w, row)))
        ctx.ensure_eq(rest, ''.join(' %02x' % b for b in data[pos:pos + n]) + '   ' * (w - n) + ' ' + ('│' if offsets else ' ') + text[pos:pos + n], 'the row')
        pos += n
    ctx.ensure(pos == len(data), 'everything is printed')


# ------------------------------------------------------------------------------------------------ the chain
@contract('K.runner', ['K01', 'K02', 'K03', 'K09', 'K10', 'K12'], native=100)
def _(ctx):
    """every chunk is appended, parsed and formatted, in this order, all stages sharing the same buffers"""
    o = options(ctx)
    KP.settings(ctx, **o, filename='some file')
    chunks = [(ctx.bytes('chunk0'), ctx.int('offset0', 0), False), (ctx.bytes('chunk1'), ctx.int('offset1', 0), True)]
    log, seen = [], {}

    def init(self, name, callback, *a, **k):
        seen['name'], seen['callback'] = name, callback
    fs = {'append': (B.ParserBuffer, 'append_raw'), 'parse': (B.Parser, 'parse'), 'text': (F.TextFormatter, 'format'),
          'binary': (F.BinaryFormatter, 'format'), 'init': (B.Reader, '__init__'), 'read': (B.Reader, 'read')}

    def handler(key):
        def h(self, *a, **k):
            if key == 'init':
                return init(self, *a, **k)
            if key == 'read':
                for c in chunks:
                    log.append(('chunk',))
                    ctx.call(seen['callback'], *c)
                return
            log.append((key, self, *a, *k.values()))
        return h
    if ctx.symbolic:
        KP.quiet(ctx)
        ctx.stub(C.Console.get_separator_line, lambda *a, **k: '')
        KP.settings(ctx)
        ts = vars(TP.TemplateRegistry())
        KP.settings(ctx, **o, filename='some file')
        ctx.stub(TP.TemplateRegistry.__init__, lambda self: self.__dict__.update(ts))
        for k, (c, n) in fs.items():
            ctx.stub(getattr(c, n), handler(k))
    else:
        for k, (c, n) in fs.items():
            ctx.undo.append(lambda c=c, n=n, old=c.__dict__[n]: setattr(c, n, old))
            setattr(c, n, handler(k))
    from kolombos.runner.byteio import ByteIoRunner
    out = Out(ctx)
    r = ByteIoRunner()
    ctx.call(ByteIoRunner.run, r)
    ctx.ensure(seen.get('name') == 'some file', 'the given file is read')
    text = not ctx.truth(o['binary'])
    pos, bufs = 0, set()
    for data, off, last in chunks:
        ctx.ensure(pos < len(log) and log[pos] == ('chunk',), 'chunk by chunk', repr(log))
        end = next((i for i in range(pos + 1, len(log)) if log[i] == ('chunk',)), len(log))
        mine = log[pos + 1:end]
        pos = end
        names = [x[0] for x in mine]
        ctx.ensure(names[:2] == ['append', 'parse'] and len(names) >= 3 and set(names[2:]) == {'text' if text else 'binary'},
                   'appended, parsed, formatted', repr(names))
        if len(names) < 3:
            return
        ctx.ensure_eq(mine[0][2], data, 'the chunk is appended')
        ctx.ensure((mine[0][3] if len(mine[0]) > 3 else False) is last, 'the end of input is signalled')
        ctx.ensure_eq(mine[1][2], off, 'the offset of the chunk')
        pb, parser, fm = mine[0][1], mine[1][1], mine[2][1]
        vs = [[x for x in vars(q).values() if isinstance(x, t)] for q in (parser, fm) for t in (B.ParserBuffer, SG.SegmentBuffer)]
        ctx.ensure(vs[0] == [pb] and vs[2] == [pb], 'one parser buffer')
        ctx.ensure(len(vs[1]) == 1 and len(vs[3]) == 1 and vs[1][0] is vs[3][0], 'one segment buffer')
        bufs.add((id(pb), id(parser), id(fm)))
    ctx.ensure(len(bufs) == 1, 'the same stages for all chunks')
