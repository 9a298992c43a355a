"""K01, K02, K03, K08, K10: how segments are queued, cut into rows and lines and printed.

The queue is described as a sequence of any number of groups; group i holds the raw bytes RAW[OFFR(i):OFFR(i+1)) and the
displayed text PROC[OFFP(i):OFFP(i+1)) and is formatted (STYLED(i)) or not.  Nothing else is assumed about them."""
import ast

import z3

from kv.engine.harness import contract
from kv.engine import sym as S
from kv.engine.interp import mkflat
from kv.engine.loops import LoopContract
from kv.contracts import k_parser as KP
from kv.contracts.vis import strip_parts
from kv.contracts.p_approx import sym_methods
from kv.oracle import spec
import kolombos.byteio.segment as SG
import kolombos.byteio.segment.buffer as SB
import pytermor as P
import pytermor.ansi as PA

OFFR = z3.Function('group_raw_offset', S.INT, S.INT)
OFFP = z3.Function('group_text_offset', S.INT, S.INT)
STYLED = z3.Function('group_is_formatted', S.INT, z3.BoolSort())
NL = z3.Function('group_is_newline', S.INT, z3.BoolSort())
NPAR = z3.Function('style_params_n', S.INT, S.INT)
NCLO = z3.Function('closing_params_n', S.INT, S.INT)


# ------------------------------------------------------------------------------------------------ opaque formatting
def params_of(role, z):
    n = (NPAR if role == 'open' else NCLO)(z)
    if role == 'open':
        S.E().fact(n >= 1)          # K.attach: only a sequence with a positive parameter is formatting
    return S.Slice(S.Source('params_' + role, 'list', 0, 10 ** 9, [z]), 0, n)


def style(role, z):
    """the sequence of style z (or the one that closes it)"""
    s = object.__new__(P.SequenceSGR)
    s.__dict__['_params'] = S.VList([params_of(role, z)])
    return s


def styles_of(v):
    """[(role, z)] a parameter list is composed of"""
    out = []
    for p in (v.parts if isinstance(v, S.VList) else [S.Lit(list(v))] if v else []):
        if not (isinstance(p, S.Slice) and p.src.name in ('params_open', 'params_close') and
                p.key() == params_of(p.src.name[7:], p.src.args[0]).key()):
            raise S.Unsupported(f'parameters of another kind: {v!r}')
        out.append((p.src.name[7:], p.src.args[0]))
    return out


def opaque_styles(ctx):
    """formatting is what P01 and P02 say: opening sequences with arbitrary parameters, closed by their closing sequences"""
    if not hasattr(P.NOOP_SEQ, '_params'):
        raise S.Unsupported('sequences are represented in another way')
    it = ctx.interp
    for r in ('open', 'close'):
        ctx.register(params_of(r, z3.IntVal(0)).src)

    def concrete(seq):
        ps = it.getattr(seq, 'params')
        ps = ps.values() if isinstance(ps, S.VList) and ps.is_concrete() else ps
        if isinstance(ps, list) and all(isinstance(x, int) for x in ps):
            return P.SequenceSGR(*ps)

    def assemble(self):
        c = concrete(self)
        if c is not None:
            return real(c)
        return S.norm(S.Rope('str', [S.Sgr(r, z) for r, z in styles_of(it.getattr(self, 'params'))]))
    real = P.SequenceSGR.assemble
    ctx.stub(P.SequenceSGR.assemble, assemble)
    f = PA._SgrPairityRegistry.get_closing_seq

    def closing(*a):
        c = concrete(a[-1])
        if c is not None:
            return f(c)
        st = styles_of(it.getattr(a[-1], 'params'))
        if any(r != 'open' for r, _ in st):
            raise S.Unsupported('the closing of a closing sequence')
        s = object.__new__(P.SequenceSGR)
        s.__dict__['_params'] = S.VList([params_of('close', z) for _, z in st])
        return s
    ctx.stub(getattr(f, '__func__', f), closing)


# ------------------------------------------------------------------------------------------------ the queue
class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.raw = S.Source('RAW', 'bytes', 0, 255)
        self.proc = S.Source('PROC', 'str', 33, 0x10ffff)
        self.n = z3.Int('groups')
        ctx.eng.add(z3.And(self.n >= 0, OFFR(0) >= 0, OFFP(0) >= 0))
        ctx.register(self.raw)
        ctx.register(self.proc)
        self.names, self.points = None, []
        self.binary = True
        self.point(z3.IntVal(0))
        self.point(self.n)

    def offp(self, i): return OFFR(i) if self.binary else OFFP(i)

    def point(self, x):
        """instances of the monotonicity of the offsets"""
        x = S.simp(x)
        if any(x.eq(y) for y in self.points):
            return
        self.points.append(x)
        for f in (OFFR, OFFP):
            S.E().fact(z3.Implies(x >= 0, f(x) >= 0))
            for y in self.points:
                S.E().fact(z3.Implies(z3.And(0 <= x, x <= y), f(x) <= f(y)))
                S.E().fact(z3.Implies(z3.And(0 <= y, y <= x), f(y) <= f(x)))

    def bytes(self, a, b): return S.norm(S.Rope('bytes', [S.Slice(self.raw, a, b)]))
    def text(self, a, b): return S.norm(S.Rope('str', [S.Slice(self.proc, a, b)]))

    def seg(self, i, cut=None):
        return self.segment(i, OFFR(i), OFFR(i + 1), self.offp(i), self.offp(i + 1))

    def segment(self, i, a, b, c, d):
        return self.ctx.call(SG.Segment, style('open', i), 'x', self.bytes(a, b), self.text(c, d))

    def start(self, i): return self.ctx.call(SG.StartSequenceRef, style('open', i))
    def stop(self, i): return self.ctx.call(SG.StopSequenceRef, style('open', i))
    def once(self, role, i): return self.ctx.call(SG.OneUseSequenceRef, style(role, i))

    def groups(self, lo, hi):
        """queue elements of the groups lo..hi"""
        bv = z3.Int('?grp')
        facts = [OFFR(bv) <= OFFR(bv + 1), OFFP(bv) <= OFFP(bv + 1), OFFR(bv) >= 0, OFFP(bv) >= 0]
        return S.Flat(bv, lo, hi, [
            (STYLED(bv), facts, [self.start(bv), self.seg(bv), self.stop(bv), self.once('close', bv)]),
            (z3.Not(STYLED(bv)), facts, [self.seg(bv)])])

    def done(self, lo, hi):
        """what is printed of the groups lo..hi"""
        bv = z3.Int('?out')
        facts = [OFFR(bv) <= OFFR(bv + 1), OFFP(bv) <= OFFP(bv + 1), OFFR(bv) >= 0, OFFP(bv) >= 0]
        return S.Flat(bv, lo, hi, [
            (STYLED(bv), facts, [self.start(bv), self.seg(bv), self.once('close', bv)]),
            (z3.Not(STYLED(bv)), facts, [self.seg(bv)])])

    def buffer(self):
        """a real SegmentBuffer; which of its lists is the queue is found out by attaching something"""
        ctx = self.ctx
        buf = ctx.call(SG.SegmentBuffer)
        d = buf.__dict__
        lists = [k for k, v in d.items() if isinstance(v, S.VList) and not v.parts]
        probe = ctx.call(SG.Segment, P.NOOP_SEQ, 'x', b'x', 'x')

        def attach():
            ctx.call(SG.SegmentBuffer.attach, buf, probe)
            return [k for k in lists if d[k].parts]
        res = S.E().nested(attach)
        qs = {tuple(r) for _, _, r in res}
        if len(qs) != 1 or len(next(iter(qs))) != 1 or len(lists) != 2:
            raise S.Unsupported('the queue of the segment buffer is not recognised')
        self.q = next(iter(qs))[0]
        self.act = [k for k in lists if k != self.q][0]
        self.buf = buf
        return buf

    def queue(self): return self.buf.__dict__[self.q]
    def active(self): return self.buf.__dict__[self.act]

    def initial(self, cut):
        """an arbitrary state between two calls: at a group boundary, or inside the formatted group 0"""
        self.cut = cut
        if cut:
            S.E().add(z3.And(self.n >= 1, STYLED(0), OFFR(1) > OFFR(0)))
            self.point(z3.IntVal(1))
            self.queue().set_parts([S.Lit([self.seg(z3.IntVal(0)), self.stop(0), self.once('close', 0)]), self.groups(1, self.n)])
            self.active().set_parts([S.Lit([style('open', z3.IntVal(0))])])
        else:
            self.queue().set_parts([self.groups(0, self.n)])
            self.active().set_parts([])
        self.entry_key = S.vkey(self.queue())


class DetachLoop(LoopContract):
    """the queue is consumed group by group"""
    name = 'SegmentBuffer queue loop'

    def bind(self, w, req):
        self.w, self.req0 = w, req
        fr = self.fr
        outs = [n for n, v in fr.locals.items() if isinstance(v, S.VList) and v is not w.queue() and v is not w.active()]
        reqs = [n for n in self.names if isinstance(fr.locals[n], (int, S.SInt)) and not isinstance(fr.locals[n], bool)
                and S.E().entails(S.toz(fr.locals[n]) == req)]
        if S.vkey(w.queue()) != w.entry_key or len(outs) != 1 or len(reqs) != 1:
            raise S.Unsupported('roles of the locals of the queue loop not recognised')
        self.out, self.req = outs[0], reqs[0]
        self.bound_names = {self.out, self.req}
        self.pre = list(fr.locals[self.out].parts)
        self.exhaust = self.w.exhaust
        return self

    def entry(self, fr): pass

    def left(self, j): return self.req0 - (OFFR(j) - OFFR(0))

    def expect(self, phase, j):
        """(queue, active, printed, rest of the request) at the loop head"""
        w = self.w
        if w.cut:
            full = lambda hi: [S.Lit([w.seg(z3.IntVal(0)), w.once('close', 0)]), w.done(1, hi)]
        else:
            full = lambda hi: [w.done(0, hi)]
        first = w.cut and self.zero
        before = self.pre + ([] if first else full(j))
        rest = w.groups(j + 1, w.n)
        if phase == 0:
            return [w.groups(j, w.n)], [], before, self.left(j)
        if phase == 1:
            return ([S.Lit([w.seg(j), w.stop(j), w.once('close', j)]), rest], [S.Lit([style('open', j)])],
                    before + ([] if first else [S.Lit([w.start(j)])]), self.left(j))
        shown = before + [S.Lit(([] if first else [w.start(j)]) + [w.seg(j)])]
        if phase == 2:
            return [S.Lit([w.stop(j), w.once('close', j)]), rest], [S.Lit([style('open', j)])], shown, self.left(j + 1)
        return [S.Lit([w.once('close', j)]), rest], [], shown, self.left(j + 1)

    def bound(self, phase, j):
        """nothing is taken once the request is served"""
        if self.exhaust:
            return z3.BoolVal(True)
        end = OFFR(0) + self.req0
        if phase >= 1:
            return OFFR(j) < end
        return z3.Or(j == 0, OFFR(j - 1) < end)

    def havoc(self, fr):
        w, e = self.w, S.E()
        ph = self.phase = e.choose(4)
        j = e.fresh('group')
        e.add(z3.And(j >= 0, j <= w.n) if ph == 0 else z3.And(j >= 0, j < w.n, STYLED(j)))
        for x in (j - 1, j, j + 1):
            w.point(x)
        self.zero = False
        if w.cut:
            if ph == 0:
                e.add(j >= 1)
            else:
                self.zero = e.branch(j == 0)
        if self.zero:
            j = z3.IntVal(0)
        self.j = j
        q, a, o, r = self.expect(ph, j)
        e.add(z3.And(r >= 0, self.bound(ph, j)))
        if not e.feasible():
            raise S.Infeasible
        if ph == 0 and e.branch(j < w.n):
            q[0:1] = [S.Lit(w.groups(j, w.n).at(j)), w.groups(j + 1, w.n)]
        w.queue().set_parts(q)
        w.active().set_parts(a)
        fr.locals[self.out].set_parts(o)
        fr.store(self.req, S.mknum(r))

    def preserved(self, fr):
        # the invariant is only one way to see it: a loop written in another way may not have it
        e = S.E()
        weak, e.weak, n = e.weak, True, len(e.failures)
        try:
            self.check(fr)
        finally:
            e.weak = weak
            e.lost |= len(e.failures) > n

    def check(self, fr):
        """the state is that of one of the phases again, further on"""
        w, e = self.w, S.E()
        parts = w.queue().parts
        head = parts[0].v[0] if parts and isinstance(parts[0], S.Lit) else None
        if head is None or isinstance(head, SG.StartSequenceRef) or isinstance(head, SG.Segment) and not w.active().parts:
            ph, j = 0, self.j + 1
        else:
            ph, j = (1 if isinstance(head, SG.Segment) else 2 if isinstance(head, SG.StopSequenceRef) else 3), self.j
        j = S.simp(j)
        if ph == 0:
            self.zero = False
        q, a, o, r = self.expect(ph, j)
        S.prove_eq(w.queue(), S.VList(q), f'{self.name}: the queue')
        S.prove_eq(w.active(), S.VList(a), f'{self.name}: the formatting in effect')
        S.prove_eq(fr.locals[self.out], S.VList(o), f'{self.name}: what is detached')
        x = fr.locals[self.req]
        e.prove(S.mkbool(S.toz(x) == r), f'{self.name}: the rest of the request')
        e.prove(S.mkbool(z3.And(r >= 0, self.bound(ph, j))), f'{self.name}: not more than requested')
        e.prove(S.mkbool(z3.Or(j > self.j, z3.BoolVal(ph > self.phase))), f'{self.name}: goes on')


# ------------------------------------------------------------------------------------------------ what is left, what is printed
def own_style(ctx, w, z, a, b, name):
    """the bytes [a, b) belong to the group z"""
    w.point(z)
    w.point(z + 1)
    lo, hi = (OFFR, OFFR) if w.binary else (OFFP, OFFP)
    ctx.ensure(S.mkbool(z3.Or(a >= b, z3.And(lo(z) <= a, b <= hi(z + 1)))), name)


def style_of(seq):
    st = styles_of(S.E() and seq.__dict__['_params'])
    if len(st) != 1 or st[0][0] != 'open':
        raise S.Unsupported('a segment of another style')
    return S._zi(st[0][1])


def check_queue(ctx, w, a, c):
    """the queue holds exactly the bytes from a, the text from c, complete groups with their own formatting"""
    get = ctx.get
    st = [s for s in ctx.items(w.active())]
    ctx.ensure(len(st) <= 1, 'at most one formatting is in effect')
    cur = style_of(st[0]) if st else None
    todo = None             # what must follow the segment
    for p in w.queue().parts:
        if isinstance(p, S.Flat):
            ctx.ensure(cur is None and todo is None, 'complete groups')
            ctx.ensure_eq(S.VList([p]), S.VList([w.groups(p.lo, p.hi)]), 'the groups are unchanged')
            w.point(p.lo)
            w.point(p.hi)
            ctx.ensure(S.mkbool(z3.And(OFFR(p.lo) == a, w.offp(p.lo) == c)), 'nothing is lost or repeated')
            a, c = OFFR(p.hi), w.offp(p.hi)
            continue
        for x in p.v:
            if isinstance(x, SG.StartSequenceRef):
                ctx.ensure(cur is None and todo is None, 'formatting starts at a group boundary')
                cur = style_of(get(x, 'ref'))
                todo = 'seg'
            elif isinstance(x, SG.Segment):
                ctx.ensure(todo in (None, 'seg'), 'one segment per formatting')
                z = style_of(get(x, 'opening_seq'))
                r, t = get(x, 'raw'), get(x, 'processed')
                b, d = S.simp(a + S.toz(S.seq_len(r))), S.simp(c + S.toz(S.seq_len(t)))
                ctx.ensure_eq(r, w.bytes(a, b), 'nothing is lost or repeated')
                ctx.ensure_eq(t, w.text(c, d), 'no text is lost or repeated')
                own_style(ctx, w, z, *((a, b) if w.binary else (c, d)), 'a segment keeps its formatting')
                if cur is not None and todo is None:
                    ctx.ensure(S.mkbool(b > a), 'a segment that was cut has something left')
                if cur is None:
                    ctx.ensure(S.mkbool(z3.Not(STYLED(z))), 'a segment keeps its formatting')
                    todo = None
                else:
                    ctx.ensure(S.mkbool(cur == z), 'a segment keeps its formatting')
                    todo = 'stop'
                a, c = b, d
            elif isinstance(x, SG.StopSequenceRef):
                ctx.ensure(todo == 'stop', 'formatting ends behind the segment')
                ctx.ensure(S.mkbool(style_of(get(x, 'ref')) == cur), 'the formatting that ends')
                todo = 'close'
            else:
                ctx.ensure(todo == 'close', 'closed behind the segment')
                ref = styles_of(get(get(x, 'ref'), 'params'))
                ctx.ensure(len(ref) == 1 and ref[0][0] == 'close', 'the closing sequence')
                ctx.ensure(S.mkbool(S._zi(ref[0][1]) == cur), 'the closing sequence of the same formatting')
                cur = todo = None
    ctx.ensure(cur is None and todo is None, 'complete groups')
    ctx.ensure(S.mkbool(z3.And(a == OFFR(w.n), c == w.offp(w.n))), 'nothing is lost or repeated')


def check_frame(ctx, w, parts, points, cur=None):
    """every character is displayed with the formatting of its own group, which is closed behind it"""
    for p in parts:
        if isinstance(p, S.Sgr):
            if p.role == 'open':
                ctx.ensure(cur is None, 'one formatting at a time')
                cur = p.style
            else:
                ctx.ensure(cur is not None, 'only what is open is closed')
                if cur is not None:
                    ctx.ensure(S.mkbool(p.style == cur), 'what is closed is what is open')
                cur = None
        elif isinstance(p, S.Flat) and nested(p):
            def one(p=p):
                i = S.generic_index(p.lo, p.hi)
                check_frame(ctx, w, p.at(i).parts, [i])
            ctx.ensure(cur is None, 'nothing is open between groups')
            S.E().nested(one)
        elif isinstance(p, (S.Slice, S.Flat)):
            if cur is not None:
                own_style(ctx, w, cur, p.lo, p.hi, 'the formatting of its own group')
            else:
                lo, hi = (OFFR, OFFR) if w.binary else (OFFP, OFFP)
                ok = any(S.E().entails(z3.Or(p.lo >= p.hi, z3.And(z3.Not(STYLED(z)), lo(z) <= p.lo, p.hi <= hi(z + 1), z >= 0, z < w.n)))
                         for z in points)
                ctx.ensure(ok, 'only text without formatting is printed without it', repr(p))
        else:
            raise S.Unsupported(f'text {p!r}')
    ctx.ensure(cur is None, 'formatting is closed at the end', repr(parts))


def nested(p):
    """a family of groups (not of single bytes)"""
    return any(isinstance(x, (S.Slice, S.Flat, S.Sgr)) for _, _, t in p.cases for x in t.parts)


def hexes(ctx, raw):
    return ctx.join('', ctx.map(lambda b: ctx.cat(' ', ctx.fmt(b, '02x')), raw))


def printers(ctx):
    def hex_(seg): return hexes(ctx, ctx.get(seg, 'raw'))
    def text(seg): return ctx.get(seg, 'processed')
    if ctx.symbolic:
        hex_._kv_symbolic = text._kv_symbolic = True
    return ctx.list([ctx.call(SG.SegmentPrinter, a, False, f) for a, f in ((True, hex_), (True, text), (False, text))])


class Model:
    """native: what the queue holds, byte by byte"""
    def __init__(self): self.items = []


def gen_groups(r, binary):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        n = r.choice([1, 1, 2, 3, 7])
        raw = bytes(r.randrange(256) for _ in range(n))
        codes = r.choice([(), (0,), (31,), (1, 32), (7,), (48, 5, 9), (7, 38, 2, 0, 0, 1), (0, 0)])
        if binary:
            out.append((codes, raw, ''.join(r.choice('abcXYZ·▯') for _ in raw)))
        else:
            k = r.random()
            if k < .3:
                out.append((codes, b'\n', r.choice(['\n', '↵\n', 'x\n'])))
            elif k < .5:
                out.append((codes, b'', r.choice(['', 'ab', '∖'])))
            else:
                out.append((codes, raw, ''.join(r.choice('abcXYZ·▯') for _ in range(r.choice([0, 1, 3])))))
    if not binary and out and not out[0][1]:
        out.pop(0)
    return out


def show_cells(groups):
    """[(char, formatting)] of the groups"""
    out = []
    for codes, raw, text in groups:
        st = spec.apply_sgr({}, list(codes))
        out += [(c, tuple(sorted(st.items()))) for c in text]
    return out


def plain_cells(s): return spec.cells(s)[0]


def native_queue(ctx, binary):
    """a random history of attach and detach"""
    r = ctx.rng
    hist = ctx._take('history', lambda: [('attach', gen_groups(r, binary)) if r.random() < .5 else
                                         ('detach', r.choice([1, 1, 2, 3, 4, 5, 8, 64]), r.random() < .3)
                                         for _ in range(r.choice([2, 4, 8, 16]))] + [('detach', r.choice([1, 3, 64]), True)] * 60)
    buf = ctx.call(SG.SegmentBuffer)
    q = []
    for h in hist:
        if h[0] == 'attach':
            q += h[1]
            ctx.call(buf.attach, *[SG.Segment(P.SequenceSGR(*c), 'x', raw, t) for c, raw, t in h[1]])
            continue
        _, req, force = h
        total = sum(len(g[1]) for g in q)
        if binary:
            v, ex = ctx.attempt(buf.detach_bytes, req, force, printers(ctx))
            if total < req and not force:
                want, got = type(ex).__name__, 'WaitRequest'
            elif total == 0:
                want, got = type(ex).__name__, 'EOFError'
            else:
                want = got = None
        else:
            v, ex = ctx.attempt(buf.detach_line, force, printers(ctx))
            k = next((i for i, g in enumerate(q) if '\n' in g[2]), None)
            if total == 0:
                want, got = type(ex).__name__, 'EOFError'
            elif k is None and not force:
                want, got = type(ex).__name__, 'WaitRequest'
            else:
                want = got = None
        ctx.ensure(want == got, 'waits and ends as specified', f'{want} {got}')
        if got is not None:
            continue
        ctx.ensure(ex is None, 'a row or line', repr(ex))
        if binary:
            d = min(req, total)
            head, n = [], d
            while n:
                c, raw, t = q[0]
                m = min(n, len(raw))
                head.append((c, raw[:m], t[:m]))
                q[0:1] = [(c, raw[m:], t[m:])] if m < len(raw) else []
                n -= m
        else:
            k = len(q) if k is None else k + 1
            head, q = q[:k], q[k:]
        ctx.ensure_eq(spec.strip_sgr(v[0]), ''.join(' %02x' % b for g in head for b in g[1]), 'exactly the next bytes')
        ctx.ensure_eq(v[2], ''.join(g[2] for g in head), 'exactly the next characters')
        cells, st = spec.cells(v[1])
        ctx.ensure_eq(cells, show_cells(head), 'characters with their own formatting')
        ctx.ensure(not st and not spec.cells(v[0])[1], 'formatting is closed at the end', repr(v))
        ctx.ensure_eq(buf.last_detached_data_len, sum(len(g[1]) for g in head), 'number of bytes')
        ctx.ensure_eq(buf.data_len, sum(len(g[1]) for g in q), 'number of bytes left')


def detach(ctx, w, f, *args):
    """one call from an arbitrary state; (texts or None, exception)"""
    it = ctx.interp
    req = []

    def make(i, fr, node):
        g = fr.fn
        if not isinstance(node, ast.While) or getattr(g, '__module__', '') != SB.__name__ or getattr(w, 'loops', 0):
            return None
        w.loops = 1
        w.loop = DetachLoop(i, fr, node).bind(w, w.request(fr))
        return w.loop
    it.loop_providers.append(make)
    return ctx.attempt(f, w.buf, *args)


@contract('K.detach_bytes', ['K01', 'K08', 'K10', 'K02'], native=1500, budget=200)
def _(ctx):
    """a row: exactly the next bytes, each with its own formatting; the rest stays; waits and ends exactly when it has to"""
    KP.settings(ctx)
    if not ctx.symbolic:
        native_queue(ctx, True)
        return
    KP.quiet(ctx)
    opaque_styles(ctx)
    w = World(ctx)
    w.exhaust = False
    w.buffer()
    w.initial(ctx.bool('cut'))
    total = S.simp(OFFR(w.n) - OFFR(0))
    S.E().add(z3.Implies(total == 0, w.n == 0))     # binary mode: no segment is empty (K.template)
    req, force = ctx.int('req', 1), ctx.bool('force')
    w.request = lambda fr: S.toz(req)
    v, ex = detach(ctx, w, SG.SegmentBuffer.detach_bytes, req, force, printers(ctx))
    d = z3.If(S.toz(req) < total, S.toz(req), total)
    if ex is not None:
        nm = type(ex).__name__
        if nm == 'WaitRequest':
            ctx.ensure(S.mkbool(z3.And(z3.BoolVal(not force), total < S.toz(req))), 'waits only when there is too little')
        elif nm == 'EOFError':
            ctx.ensure(S.mkbool(total == 0), 'ends only when nothing is left')
        else:
            ctx.ensure(False, 'no other error', repr(ex))
        ctx.ensure(S.vkey(w.queue()) == w.entry_key or not w.cut and S.E().entails(w.n == 0), 'nothing is taken then')
        return
    ctx.ensure(S.mkbool(z3.And(total > 0, z3.Or(z3.BoolVal(force), total >= S.toz(req)))), 'a row only when there is enough')
    end = S.simp(OFFR(0) + d)
    check_texts(ctx, w, v, OFFR(0), end, OFFR(0), end)
    ctx.ensure(ctx.get(w.buf, 'last_detached_data_len') == S.mknum(d), 'number of bytes')
    check_queue(ctx, w, end, end)
    ctx.ensure(ctx.get(w.buf, 'data_len') == S.mknum(total - d), 'number of bytes left')


def bare(ctx, v):
    """the text without formatting"""
    return S.norm(S.Rope('str', strip_parts(ctx, S.parts_of(v), '', '')))


def check_texts(ctx, w, v, a, b, c, d):
    ctx.ensure(isinstance(v, tuple) and len(v) == 3, 'one text for every printer')
    ctx.ensure_eq(bare(ctx, v[0]), hexes(ctx, w.bytes(a, b)), 'exactly the next bytes')
    ctx.ensure_eq(bare(ctx, v[1]), w.text(c, d), 'exactly the next characters')
    ctx.ensure_eq(v[2], w.text(c, d), 'no formatting when none is asked for')
    check_frame(ctx, w, S.parts_of(v[1]), w.points)
    if w.binary:
        check_frame(ctx, w, S.parts_of(v[0]), w.points)


@contract('K.detach_line', ['K03', 'K08', 'K10'], native=1500, budget=200)
def _(ctx):
    """a line: exactly the segments up to the next line break (all of them at the end); waits and ends exactly when it has to"""
    KP.settings(ctx)
    if not ctx.symbolic:
        native_queue(ctx, False)
        return
    KP.quiet(ctx)
    opaque_styles(ctx)
    w = World(ctx)
    w.binary = False
    w.buffer()
    w.initial(False)
    q = z3.Int('first_newline')
    S.E().add(z3.And(0 <= q, q <= w.n, z3.Implies(q < w.n, OFFR(q + 1) > OFFR(q))))
    for x in (q, q + 1):
        w.point(x)
    ctx.interp.points = [q]

    def is_newline(seg):
        z = style_of(ctx.get(seg, 'opening_seq'))
        return S.mkbool(z3.And(z >= q, z3.Or(z == q, NL(z))))
    ctx.stub(SG.Segment.is_newline.fget, is_newline)
    total = S.simp(OFFR(w.n) - OFFR(0))
    force = ctx.bool('force')
    last = S.E().branch(q == w.n)
    w.exhaust = last
    size = total if last else S.simp(OFFR(q + 1) - OFFR(0))
    w.request = lambda fr: size
    v, ex = detach(ctx, w, SG.SegmentBuffer.detach_line, force, printers(ctx))
    if ex is not None:
        nm = type(ex).__name__
        if nm == 'WaitRequest':
            ctx.ensure(S.mkbool(z3.BoolVal(not force and last)), 'waits only when the line is incomplete')
        elif nm == 'EOFError':
            ctx.ensure(S.mkbool(total == 0), 'ends only when nothing is left')
        else:
            ctx.ensure(False, 'no other error', repr(ex))
        ctx.ensure(S.vkey(w.queue()) == w.entry_key, 'nothing is taken then')
        return
    ctx.ensure(not last or force, 'a line only when it is complete')
    to = w.n if last else q + 1
    check_texts(ctx, w, v, OFFR(0), OFFR(to), OFFP(0), OFFP(to))
    ctx.ensure(ctx.get(w.buf, 'last_detached_data_len') == S.mknum(OFFR(to) - OFFR(0)), 'number of bytes')
    ctx.ensure(not ctx.items(w.active()), 'no formatting goes on')
    check_queue(ctx, w, OFFR(to), OFFP(to))


@contract('K.attach', ['K01', 'K03', 'K08', 'K10'], native=300)
def _(ctx):
    """segments are queued behind what is there, in order, with their formatting around them"""
    KP.settings(ctx)
    if not ctx.symbolic:
        native_queue(ctx, ctx.bool('binary'))
        return
    KP.quiet(ctx)
    w = World(ctx)
    opaque_styles(ctx)
    w.buffer()
    w.initial(False)
    kind = ctx.choice('style', ['none', 'zeros', 'any'])
    z = w.n
    if kind == 'any':
        k = z3.Int('nonzero')
        S.E().add(z3.And(k >= 0, k < NPAR(z), params_of('open', z).src.elem(k) > 0))
        opening = style('open', z)
    else:
        opening = object.__new__(P.SequenceSGR)
        opening.__dict__['_params'] = S.VList([S.Lit([0])] if kind == 'zeros' else [])
    ctx.interp.stubs['set_of_list'] = lambda it, v: Several(v)
    seg = ctx.call(SG.Segment, opening, 'x', w.bytes(OFFR(z), OFFR(z + 1)), w.text(OFFR(z), OFFR(z + 1)))
    seg2 = ctx.call(SG.Segment, P.NOOP_SEQ, 'x', b'x', 'x')
    ctx.call(SG.SegmentBuffer.attach, w.buf, seg, seg2)
    plain = [w.groups(0, w.n), S.Lit([seg, seg2])]
    styled = [w.groups(0, w.n), S.Lit([w.start(z), seg, w.stop(z), w.once('close', z), seg2])]
    if kind == 'any':
        ctx.ensure_eq(w.queue(), S.VList(styled), 'queued behind, formatted')
    else:
        ctx.ensure_eq(w.queue(), S.VList(plain), 'queued behind')


@sym_methods
class Several:
    """a set of the elements of a list with a positive one"""
    def __init__(self, v): self.v = v
    def __eq__(self, o): return False
    def __ne__(self, o): return True
