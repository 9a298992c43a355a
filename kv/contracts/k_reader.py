"""K09: what the reader delivers, for any stream, any chunking of it by the source, any limits"""
import io
import sys

import z3

from kv.engine.harness import contract, FnIn, mval
from kv.engine import sym as S
from kv.engine.loops import Inferred
from kv.contracts import k_parser as KP
from kv.contracts.p_approx import sym_methods
import kolombos.byteio.reader as R

CNT = z3.Function('stream_line_feeds_before', S.INT, S.INT)
POS = z3.Function('stream_line_feed_at', S.INT, S.INT)       # position of line feed k; behind the end if there is none


class Stream:
    """an arbitrary stream of n bytes; line feeds are counted by CNT and located by POS"""
    def __init__(self, ctx):
        self.src = S.Source('in_stream', 'bytes', 0, 255)
        ctx.register(self.src)
        self.n = z3.Int('len_in_stream')
        ctx.eng.add(z3.And(self.n >= 0, CNT(0) == 0))
        self.points, self.ks = [z3.IntVal(0), self.n], []

    def point(self, x):
        """instances of the definitions for a position of the stream"""
        x = S.simp(x)
        if not any(x.eq(y) for y in self.points):
            self.points.append(x)
        for y in self.points:
            S.E().fact(z3.Implies(z3.And(0 <= y, y <= x, x <= self.n), z3.And(CNT(y) <= CNT(x), CNT(x) - CNT(y) <= x - y)))
            S.E().fact(z3.Implies(z3.And(0 <= x, x <= y, y <= self.n), z3.And(CNT(x) <= CNT(y), CNT(y) - CNT(x) <= y - x)))
        for k in self.ks:
            self.link(x, k)

    def number(self, k):
        k = S.simp(k)
        if not any(k.eq(y) for y in self.ks):
            self.ks.append(k)
        for x in self.points:
            self.link(x, k)

    def link(self, x, k):
        S.E().fact(z3.Implies(z3.And(x >= 0, x <= self.n, k >= 0), (CNT(x) > k) == (POS(k) < x)))
        S.E().fact(z3.Implies(k >= 0, POS(k) >= 0))

    def value(self, m):
        """bytes of a model: line feeds where the counting says so"""
        n = mval(m, self.n)
        if n > 3000:
            raise ValueError('too long')
        out = bytearray(b'x' * n)
        total = mval(m, CNT(self.n))
        for k in range(min(total, n)):
            p = mval(m, POS(z3.IntVal(k)))
            if 0 <= p < n:
                out[p] = 10
        return bytes(out)


@sym_methods
class Io:
    """a binary stream that delivers any non-empty part of what was asked for, and nothing at the end only"""
    def __init__(self, it, st): self.it, self.st, self.pos, self.closed = it, st, S.mknum(z3.IntVal(0)), False

    def read(self, size=-1):
        st, eng = self.st, S.E()
        p = S.toz(self.it.getattr(self, 'pos'))
        if not eng.branch(p < st.n):
            return b''
        n = eng.fresh('delivered')
        eng.add(z3.And(n >= 1, n <= st.n - p))
        if size is not None and not (isinstance(size, int) and size < 0):
            if eng.branch(S.toz(size) == 0):
                return b''
            eng.add(z3.Implies(S.toz(size) >= 0, n <= S.toz(size)))
        else:
            eng.add(n == st.n - p)
        self.it.setattr(self, 'pos', S.mknum(p + n))
        st.point(p + n)
        return S.norm(S.Rope('bytes', [S.Slice(st.src, p, S.simp(p + n))]))

    def tell(self): return self.it.getattr(self, 'pos')
    def close(self): self.it.setattr(self, 'closed', True)


class Ghost:
    def __init__(self): self.end, self.finals, self.quiet = S.mknum(z3.IntVal(0)), 0, False


class ReadLoop(Inferred):
    name = 'Reader.read loop'

    def bind(self, ctx, st, io_, gh, ml, mb):
        self.ctx, self.st, self.io, self.gh, self.ml, self.mb = ctx, st, io_, gh, ml, mb
        self.off = z3.IntVal(0)
        return self

    def objects(self): return [self.fr.locals['self'], self.io] if 'self' in self.fr.locals else [self.io]

    def candidates(self, label, entry):
        e = S.toz(entry)
        r = [('is the number of bytes delivered', lambda v: v == self.off),
             ('is the number of line feeds delivered', lambda v: v == CNT(self.off)),
             ('unchanged', lambda v: v == e),
             ('is the rest of the bytes', lambda v: v == e - self.off),
             ('is the rest of the lines', lambda v: v == e - CNT(self.off))]
        return r

    def more(self):
        r = [('position', lambda: z3.And(self.off >= 0, self.off <= self.st.n)), ('in sync', lambda: S.toz(self.io.pos) == self.off)]
        if self.ml is not None:
            r.append(('line limit not reached', lambda: CNT(self.off) < S.toz(self.ml)))
        if self.mb is not None:
            r.append(('byte limit not reached', lambda: self.off < S.toz(self.mb)))
        return r

    def ignorable(self, label): return label not in ('Io.pos',) and self.ml is None

    def fresh_ghost(self):
        self.off = S.E().fresh('inv_end')
        self.st.point(self.off)
        self.ctx.interp.setattr(self.gh, 'end', S.mknum(self.off))

    def step_ghost(self):
        self.off = S.toz(self.ctx.interp.getattr(self.gh, 'end'))
        self.st.point(self.off)

    def probe(self, on): self.gh.quiet = on


def gen_stream(r):
    n = r.choice([0, 1, 2, 5, 17, 40, 130])
    p = r.choice([.02, .1, .3, .7])
    return bytes(10 if r.random() < p else r.choice(b'ab\r\xff \x1b') for _ in range(n))


class NatIo(io.RawIOBase):
    def __init__(self, data, rng): super().__init__(); self.data, self.pos, self.rng = data, 0, rng

    def read(self, size=-1):
        n = len(self.data) - self.pos if size is None or size < 0 else min(size, len(self.data) - self.pos)
        if n > 0:
            n = self.rng.choice([n, n, self.rng.randint(1, n)])
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        return r

    def tell(self): return self.pos


class StdIn:
    def __init__(self, buffer): self.buffer = buffer


@contract('K.reader', ['K09', 'K10', 'K01', 'K03'], native=1500, budget=200)
def _(ctx):
    """consecutive chunks from offset 0, exactly up to the limits, the end signalled once and last"""
    mb = ctx.int('max_bytes', 1, rnd=lambda r: r.choice([1, 2, 3, 5, 8, 16, 40, 41, 129, 1000])) if ctx.bool('limit_bytes') else None
    ml = ctx.int('max_lines', 1, rnd=lambda r: r.choice([1, 2, 3, 5, 9, 40, 1000])) if ctx.bool('limit_lines') else None
    few = mb is None and ml is None     # how the source is opened and the chunk size chosen does not depend on limits
    size = ctx.int('buffer', 1, rnd=lambda r: r.choice([1, 2, 3, 7, 16, 40, 4096])) if not few or ctx.bool('sized') else None
    name = ctx.choice('filename', [None, '-', 'a file']) if few else None
    debug = ctx.int('debug', 0, rnd=lambda r: r.choice([0, 0, 1, 4]))
    KP.settings(ctx, max_bytes=mb, max_lines=ml, buffer=size, debug=debug)
    KP.quiet(ctx)
    if not ctx.symbolic:
        data = ctx._take('stream', lambda: gen_stream(ctx.rng))
        src = NatIo(data, ctx.rng)
        got = []
        opened(ctx, src, name)
        rd = ctx.call(R.Reader, name, lambda d, o, f: got.append((bytes(d), o, bool(f))))
        import contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call(rd.read)
        want = data
        if ml is not None:
            want = b'\n'.join(data.split(b'\n')[:ml])
        if mb is not None:
            want = want[:mb]
        ctx.ensure_eq(b''.join(d for d, _, _ in got), want, 'what is delivered')
        ctx.ensure([o for _, o, _ in got] == [sum(len(d) for d, _, _ in got[:i]) for i in range(len(got))], 'contiguous offsets')
        ctx.ensure([f for _, _, f in got] == [False] * (len(got) - 1) + [True], 'the end is signalled once and last')
        return
    st = Stream(ctx)
    ctx.eng.inputs.append(FnIn('stream', st.value, [st.n]))
    for f in (CNT, POS):
        pass
    it = ctx.interp
    src, gh = Io(it, st), Ghost()
    it.roots = [src, gh]
    opened(ctx, src, name)
    if ml is not None:
        st.number(S.toz(ml) - 1)

    def finditer(it_, pat, s, flags=0):
        s = S.norm(s)
        pat = S.norm(pat)
        if isinstance(pat, bytes) and pat in (b'\n', b'\\n') and not flags:
            if s == b'':
                return S.VList([])
            if isinstance(s, S.Rope) and len(s.parts) == 1 and isinstance(s.parts[0], S.Slice) and s.parts[0].src is st.src:
                a, b = s.parts[0].lo, s.parts[0].hi
                st.point(a)
                st.point(b)
                bv = z3.Int(S.E().fresh_name('?lf'))
                k = S.simp(CNT(a) + bv)
                fs = [z3.Implies(z3.And(k >= 0, x >= 0, x <= st.n), (CNT(x) > k) == (POS(k) < x)) for x in (a, b, st.n)]
                fs += [POS(k) >= 0, z3.Implies(POS(k) <= st.n, CNT(POS(k)) == k), z3.Implies(POS(k) < st.n, CNT(POS(k) + 1) == k + 1)]
                m = KP.SymMatch(b'\n', {}, S.mknum(POS(k) - a), 0)
                return S.VList([S.Flat(bv, z3.IntVal(0), S.simp(CNT(b) - CNT(a)), [(z3.BoolVal(True), fs, [m])])])
        raise S.Unsupported('search in the stream')
    it.stubs['finditer'] = finditer
    it.stubs[('pattern', 'finditer')] = lambda it_, p, a, k: finditer(it_, p.pattern, *a, **k)

    def deliver(data, offset, last):
        end = it.getattr(gh, 'end')
        n = S.mknum(S.toz(S.seq_len(data)))
        st.point(S.toz(end) + S.toz(n))
        if not gh.quiet:
            ctx.ensure(it.getattr(gh, 'finals') == 0, 'nothing is delivered behind the end')
            ctx.ensure(offset == end, 'offsets are contiguous')
            e = S.toz(end)
            ctx.ensure(S.mkbool(e + S.toz(n) <= st.n), 'what is delivered belongs to the input')
            ctx.ensure_eq(data, S.norm(S.Rope('bytes', [S.Slice(st.src, e, S.simp(e + S.toz(n)))])), 'the next bytes of the input')
            ctx.ensure(isinstance(last, bool), 'end of input or not')
        it.setattr(gh, 'end', end + n)
        if last is True:
            it.setattr(gh, 'finals', it.getattr(gh, 'finals') + 1)
    deliver._kv_symbolic = True
    ctx.loop(R.Reader.read, lambda i, fr, node: ReadLoop(i, fr, node).bind(ctx, st, src, gh, ml, mb))
    rd = ctx.call(R.Reader, name, deliver)
    ctx.call(R.Reader.read, rd)
    ctx.ensure(gh.finals == 1, 'the end is signalled once', str(gh.finals))
    end = S.toz(gh.end)
    want = st.n
    if ml is not None:
        p = POS(S.toz(ml) - 1)
        want = z3.If(p < want, p, want)
    if mb is not None:
        want = z3.If(S.toz(mb) < want, S.toz(mb), want)
    ctx.ensure(S.mkbool(end == want), 'exactly up to the limits')


def opened(ctx, src, name):
    """the stream behind the file name"""
    if name is None or name == '-':
        ctx.set(sys, 'stdin', StdIn(src))
    elif ctx.symbolic:
        ctx.interp.stubs['open'] = lambda it, f, mode='r', *a, **k: checked(ctx, src, f, mode)
    else:
        import builtins
        old = builtins.open
        ctx.undo.append(lambda: setattr(builtins, 'open', old))
        builtins.open = lambda f, *a, **k: src if f == 'a file' else old(f, *a, **k)


def checked(ctx, src, f, mode):
    ctx.ensure(f == 'a file' and 'b' in mode, 'the named file is read as bytes')
    return src
