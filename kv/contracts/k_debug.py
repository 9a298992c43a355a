"""K11: what debugging looks at stays as it is"""
import contextlib
import io

from kv.engine.harness import contract
from kv.engine import sym as S
from kv.engine.loops import Havoc
from kv.contracts import k_parser as KP
from kv.contracts import k_chain as KC
from kv.contracts.k_template import options
from kv.oracle import spec
import kolombos.byteio.segment as SG
import kolombos.byteio.segment.buffer as SB
import kolombos.console as C
import pytermor as P
import pytermor.util.string_filter as PF


@contract('K.preview', ['K11', 'K01', 'K03', 'K08'], native=800)
def _(ctx):
    """showing the state of the queue, at any level, never fails and changes neither the queue nor the formatting in
    effect, whatever is queued"""
    options(ctx)
    if not ctx.symbolic:
        with contextlib.redirect_stdout(io.StringIO()):
            native_preview(ctx)
        return
    KC.opaque_styles(ctx)
    ctx.stub(PF.StringFilter.apply, lambda *a: Havoc.some(Havoc(None, None, None, None), 'str'))
    w = KC.World(ctx)
    w.binary = False
    w.buffer()
    w.initial(ctx.bool('cut'))

    def frame(): return S.vkey(w.queue()), S.vkey(w.active())
    a = frame()

    def make(it, fr, node, items):
        if getattr(fr.fn, '__module__', '') != SB.__name__:
            return None
        return Havoc(it, fr, node, frame, [(SG.SequenceRef, lambda z: w.once('open', z))])
    ctx.interp.for_providers.append(make)
    v, ex = ctx.attempt(C.Console.printd, w.buf)
    ctx.ensure(ex is None, 'never fails', repr(ex))
    ctx.ensure(frame() == a, 'nothing is changed')


def native_preview(ctx):
    r = ctx.rng
    binary = ctx.bool('binary_data')
    gs = ctx._take('groups', lambda: [g for _ in range(r.choice([1, 1, 3])) for g in KC.gen_groups(r, binary)] +
                   ([((), b'\xe1' * n, 'x' * n) for n in [r.choice([31, 33, 100])]] if r.random() < .2 else []))
    cuts = ctx._take('cuts', lambda: [r.choice([1, 2, 3, 5]) for _ in range(r.choice([0, 0, 1, 2]) if binary else 0)])
    buf = ctx.call(SG.SegmentBuffer)
    ctx.call(buf.attach, *[SG.Segment(P.SequenceSGR(*c), 'x', raw, t) for c, raw, t in gs])
    for n in cuts:
        ctx.attempt(buf.detach_bytes, n, False, KC.printers(ctx))

    def state(): return {k: [element(x) for x in v] for k, v in vars(buf).items() if hasattr(v, '__iter__')}

    def element(x):
        return type(x).__name__, repr(sorted((k, repr(getattr(x, k, None))) for k in ('raw', 'processed', 'ref', 'opening_seq', '_params')))
    a = state()
    v, ex = ctx.attempt(C.Console.printd, buf)
    ctx.ensure(ex is None, 'never fails', repr(ex))
    ctx.ensure(state() == a, 'nothing is changed', f'{a} {state()}')
    n = sum(len(g[1]) for g in gs)
    for c in cuts:
        n -= min(n, c) if n >= c else 0
    ctx.ensure(str(n) in v, 'the number of bytes is shown', v)


@contract('K.printd', ['K11', 'K09', 'K10'], native=600)
def _(ctx):
    """showing bytes, at any level, never fails"""
    options(ctx)
    b = ctx.bytes('data')
    m = ctx.choice('max', [None, 5, 32])
    v, ex = ctx.attempt(C.Console.printd, b, *([] if m is None else [m]))
    ctx.ensure(ex is None, 'never fails', repr(ex))
    if not ctx.symbolic:
        t = spec.strip_sgr(v)
        ctx.ensure(('len %d' % len(b)) in t, 'the number of bytes is shown', t)
