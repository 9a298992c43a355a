"""K02, K03, K11, K12: prefixes, console buffers, error reporting"""
import sys
import traceback

import z3

from kv.engine.harness import contract, FnIn, mval
from kv.engine import sym as S
from kv.contracts import k_parser as KP
from kv.contracts.k_template import options
from kv.contracts.vis import visible
from kv.oracle import spec
from kv.contracts.p_approx import sym_methods
import kolombos as K
import kolombos.app as A
import kolombos.console as C


def vis(ctx, v, name, allowed=''):
    return visible(ctx, v, name, allowed) if ctx.symbolic else spec.strip_sgr(v)


def big(r):
    return r.choice([r.randrange(10 ** r.randrange(1, 30)), 16 ** r.randrange(0, 20), 10 ** r.randrange(0, 20) - 1])


def unpad(ctx, v):
    if isinstance(v, str):
        return v.lstrip(' ')
    ps = list(S.parts_of(v))
    while ps and (isinstance(ps[0], S.Rep) and ps[0].unit == ' ' or isinstance(ps[0], S.Lit) and not ps[0].v.strip(' ')):
        ps.pop(0)
    if ps and isinstance(ps[0], S.Lit):
        ps[0] = S.Lit(ps[0].v.lstrip(' '))
    return S.norm(S.Rope('str', ps))


def rep(ctx, unit, n):
    return S.seq_repeat(unit, n) if ctx.symbolic else unit * n


def zeros(ctx, v, offset):
    """number of zeros shown before the digits of the offset (a witness only)"""
    if not ctx.symbolic:
        t = v.strip(' ')
        return max(0, len(t) - 3 - len('%x' % offset))
    k, seen = 0, False
    for p in S.parts_of(v):
        if isinstance(p, S.Lit) and '0x' in p.v:
            t = p.v.split('0x', 1)[1]
            k = k + len(t) - len(t.lstrip('0'))
        elif isinstance(p, S.Rep) and p.unit == '0':
            k = k + S.mknum(p.n)
    return k


def check_label(ctx, v, offset, decimal):
    """the visible prefix of an offset: complete and exact (padding on the left is free)"""
    v = unpad(ctx, v)
    if decimal:
        ctx.ensure_eq(v, ctx.cat(ctx.fmt(offset, 'd'), '│'), 'decimal label')
        return
    x = ctx.fmt(offset, 'x')
    if not ctx.symbolic and offset == 0:
        x = '0'
    k = zeros(ctx, v, offset)
    ctx.ensure(k + ctx.len(x) >= 4, 'at least four digits')
    ctx.ensure_eq(v, ctx.cat('0x', rep(ctx, '0', k), x, '│'), 'hexadecimal label')


for _fn in ('format_prefix_with_offset', 'format_total_size'):
    def _run(ctx, fn=_fn):
        """labels of any magnitude are complete and exact"""
        o = options(ctx)
        n = ctx.int('offset', 0, rnd=big)
        v = ctx.call(getattr(C.Console, fn), n)
        v = vis(ctx, v, 'prefix')
        check_label(ctx, v, n, ctx.truth(o['decimal_offsets']))
    contract(f'K.{_fn}', ['K02'], native=300)(_run)


# ------------------------------------------------------------------------------------------------ what is printed
class Out:
    """the standard streams: what was printed, in order"""
    def __init__(self, ctx):
        self.ctx, self.events = ctx, []
        if ctx.symbolic:
            ctx.interp.stubs['print'] = lambda it, a, k: self.add(a, k)
        else:
            import builtins
            old = builtins.print
            ctx.undo.append(lambda: setattr(builtins, 'print', old))
            builtins.print = lambda *a, **k: self.add(a, k)

    def add(self, a, k):
        ctx = self.ctx
        k = dict(k)
        end, sep = k.pop('end', '\n'), k.pop('sep', ' ')
        stream = 'err' if k.pop('file', None) is sys.stderr else 'out'
        k.pop('flush', None)
        if k:
            raise S.Unsupported('print() with other options')
        vs = []
        for i, x in enumerate(a):
            vs += [sep] * (i > 0) + [ctx.interp.to_str(x) if ctx.symbolic else str(x)]
        self.events.append((stream, ctx.cat('', *vs, '\n' if end is None else end)))

    def text(self, stream='out'):
        return self.ctx.cat('', *[t for s, t in self.events if s == stream])


def peel(ctx, v, suffix, name):
    """obligation: v ends with the suffix; what is before"""
    n = ctx.len(v) - ctx.len(suffix)
    ctx.ensure(n >= 0, name)
    ctx.ensure_eq(ctx.slice(v, n, None), suffix, name)
    return ctx.slice(v, 0, n)


def one_line(ctx, v, name):
    """a prefix: printable, no line break"""
    t = vis(ctx, v, name)
    if not ctx.symbolic:
        ctx.ensure(not any(c in t for c in '\n\r'), f'{name}: no line break')
    return t


def message(ctx, name):
    return ctx.str(name, alphabet='ab 0│\x1b[m\n')


@contract('K.output_buffer', ['K11', 'K12', 'K02', 'K03'], native=300)
def _(ctx):
    """what is written to the output buffer is printed once, unchanged, in order, and whatever the debug level"""
    options(ctx)
    out = Out(ctx)
    a, b = message(ctx, 'a'), message(ctx, 'b')
    ea, eb = ctx.choice('ea', ['', '\n']), ctx.choice('eb', ['', '\n'])
    flush = ctx.bool('flush')
    buf = ctx.call(C.ConsoleOutputBuffer)
    ctx.call(buf.write, a, end=ea, flush=flush)
    if flush:
        ctx.ensure_eq(out.text(), ctx.cat(a, ea), 'printed when asked to')
    ctx.call(buf.write, b, end=eb, flush=True)
    ctx.ensure_eq(out.text(), ctx.cat(a, ea, b, eb), 'printed once, unchanged, in order')
    ctx.call(buf.write, a, end=ea, flush=False)
    ctx.call(buf.flush)
    ctx.ensure_eq(out.text(), ctx.cat(a, ea, b, eb, a, ea), 'printed by flush')
    ctx.call(buf.flush)
    ctx.ensure_eq(out.text(), ctx.cat(a, ea, b, eb, a, ea), 'nothing is printed twice')
    ctx.ensure_eq(out.text('err'), '', 'nothing on standard error')


@contract('K.write_with_line_num', ['K03', 'K11'], native=400)
def _(ctx):
    """the line is printed unchanged behind its number (any magnitude), or alone without line numbers"""
    o = options(ctx)
    out = Out(ctx)
    s, n = message(ctx, 's'), ctx.int('line', 1, rnd=big)
    end = ctx.choice('end', ['', '\n'])
    buf = ctx.call(C.ConsoleOutputBuffer)
    ctx.call(buf.write_with_line_num, s, n, end=end)
    p = one_line(ctx, peel(ctx, out.text(), ctx.cat(s, end), 'the line is printed unchanged'), 'line number')
    if ctx.truth(o['debug'] > 0):
        return
    if ctx.truth(o['no_line_numbers']):
        ctx.ensure_eq(p, '', 'no line numbers')
    else:
        ctx.ensure_eq(unpad(ctx, p), ctx.cat(ctx.fmt(n, 'd'), '│'), 'the complete line number')


@contract('K.write_with_offset', ['K02', 'K11'], native=400)
def _(ctx):
    """the row is printed unchanged behind the complete label of its offset, or alone without offsets"""
    o = options(ctx)
    out = Out(ctx)
    s, n = message(ctx, 's'), ctx.int('offset', 0, rnd=big)
    end = ctx.choice('end', ['', '\n'])
    buf = ctx.call(C.ConsoleOutputBuffer)
    ctx.call(buf.write_with_offset, s, n, end=end)
    p = one_line(ctx, peel(ctx, out.text(), ctx.cat(s, end), 'the row is printed unchanged'), 'label')
    if ctx.truth(ctx.Or(ctx.Not(o['no_offsets']))):
        check_label(ctx, p, n, ctx.truth(o['decimal_offsets']))
    elif not ctx.truth(o['debug'] > 0):
        ctx.ensure_eq(p, '', 'no offsets')


@contract('K.debug_buffer', ['K11'], native=400)
def _(ctx):
    """a message is printed exactly at its level or above, unchanged and behind a prefix without line breaks"""
    o = options(ctx)
    out = Out(ctx)
    key = ctx.choice('key', [None, 'parser'])
    buf = ctx.call(C.ConsoleDebugBuffer, *([key] if key else []))
    want = ''
    for i in range(2):
        lv, s = ctx.int(f'level{i}', 1, rnd=lambda r: r.choice([1, 2, 3, 4, 5])), message(ctx, f's{i}')
        kw = {}
        if ctx.bool(f'has_offset{i}'):
            kw['offset'] = ctx.int(f'offset{i}', 0, rnd=big)
        if ctx.bool(f'nodef{i}'):
            kw['no_default_prefix'] = True
        before = len(out.events)
        ctx.call(buf.write, lv, s, **kw)
        if ctx.truth(lv <= o['debug']):
            ctx.ensure(len(out.events) > before, 'the message is printed')
            got = ctx.cat('', *[t for _, t in out.events[before:]])
            one_line(ctx, peel(ctx, got, ctx.cat(s, '\n'), 'a whole line with the message'), 'prefix of the message')
        else:
            ctx.ensure(len(out.events) == before, 'messages of higher levels are not printed')
    ctx.ensure_eq(out.text('err'), '', 'nothing on standard error')


# ------------------------------------------------------------------------------------------------ errors
@sym_methods
class Buf:
    """a registered buffer with arbitrary contents"""
    def __init__(self, sink, content): self.sink, self.content = sink, content

    def flush(self):
        it = self.sink.it
        v = S.cat(it.getattr(self.sink, 'text'), self.content) if it else self.sink.text + self.content
        if it:
            it.setattr(self.sink, 'text', v)
        else:
            self.sink.text = v


class Sink:
    def __init__(self, it): self.it, self.text = it, ''


@contract('K.flush_buffers', ['K12', 'K11'], native=100)
def _(ctx):
    """every registered buffer is flushed, in order of registration - any number of buffers"""
    if not ctx.symbolic:
        sink = Sink(None)
        cs = ctx._take('contents', lambda: [f'<{i}{ctx.rng.random()}>' for i in range(ctx.rng.randrange(6))])
        ctx.set(C.Console, 'buffers', [])
        for c in cs:
            ctx.call(C.Console.register_buffer, Buf(sink, c))
        ctx.call(C.Console.flush_buffers)
        ctx.ensure_eq(sink.text, ''.join(cs), 'everything is flushed in order')
        return
    eng = S.E()
    sink = Sink(ctx.interp)
    n, bv = z3.Int('n_buffers'), z3.Int('?buf')
    eng.add(n >= 0)
    eng.inputs.append(FnIn('contents', lambda m: [f'<{i}>' for i in range(min(50, mval(m, n)))], [n]))

    def content(i):
        src = S.Source('bufcontent', 'str', 32, 0xd7ff, args=(i,))
        ctx.register(src)
        ln = z3.Function('len_bufcontent', S.INT, S.INT)(i)
        return S.Rope('str', [S.Slice(src, 0, ln)]), ln >= 0
    c, f = content(bv)
    fam = lambda v: [S.Flat(bv, z3.IntVal(0), n, [(z3.BoolVal(True), [f], v)])]
    ctx.set(C.Console, 'buffers', S.VList(fam([Buf(sink, c)])))
    ctx.interp.roots = [sink]
    last = Buf(sink, ctx.str('last'))
    ctx.call(C.Console.register_buffer, last)
    ctx.call(C.Console.flush_buffers)
    ctx.ensure_eq(sink.text, S.norm(S.Rope('str', fam(c) + list(S.parts_of(last.content)))), 'everything is flushed in order')


class OwnError(Exception):
    pass


def error_classes():
    import builtins
    out = [OwnError, K.ArgumentError]
    for v in vars(builtins).values():
        if isinstance(v, type) and issubclass(v, Exception) and not issubclass(v, (Warning, UnicodeError, BaseExceptionGroup)):
            out.append(v)
    return out


def mentions_text(ctx, v, s):
    """the text v contains the given (symbolic) text as a whole"""
    if not ctx.symbolic or isinstance(s, str) and isinstance(v, str):
        return s in v
    if isinstance(s, str):
        return any(isinstance(p, S.Lit) and s in p.v for p in S.parts_of(v))
    want = [p.key() for p in s.parts]
    have = [p.key() for p in S.parts_of(v)]
    return any(have[i:i + len(want)] == want for i in range(len(have)))


@contract('K.on_exception', ['K12'], native=400)
def _(ctx):
    """buffers are flushed before anything else; the error is named in one message on standard error"""
    o = options(ctx)
    cls = ctx.choice('cls', [OwnError, K.ArgumentError, ValueError, IsADirectoryError, KeyError, RuntimeError])
    msg = ctx.str('msg', 1, alphabet='abc def 0') if ctx.choice('has message', [True, False]) else ''
    e = cls.__new__(cls)
    e.args = ('msg',)
    if ctx.symbolic:
        e._kv_text = msg
        ctx.stub(traceback.format_exception, lambda *a, **k: S.VList.of(
            ['Traceback (most recent call last):\n', S.cat(ctx.str('frame'), '\n'), S.cat(cls.__name__ + ': ', msg, '\n')]))
    else:
        e.args = (msg,)
    out = Out(ctx)
    if ctx.symbolic:
        ctx.stub(C.Console.flush_buffers, lambda: out.events.append(('flush', '')))
    else:
        class B_:
            def flush(self): out.events.append(('flush', ''))
        ctx.set(C.Console, 'buffers', [B_()])
    ctx.call(C.Console.on_exception, e)
    ctx.ensure(out.events[:1] == [('flush', '')], 'what was written before is printed first')
    err = [t for s, t in out.events if s == 'err']
    ctx.ensure(len(err) == 1, 'one message on standard error', str(len(err)))
    t = err[0] if ctx.symbolic else spec.strip_sgr(err[0])
    ctx.ensure(mentions_text(ctx, t, cls.__name__), 'the message names the kind of the error')
    want = msg if cls is not KeyError or ctx.symbolic else repr(msg)
    ctx.ensure(mentions_text(ctx, t, want), 'the message contains the text of the error')


@contract('K.exit_status', ['K12'], native=400)
def _(ctx):
    """exit status 1 and a report exactly when some stage failed, 0 and no report otherwise; whatever the error"""
    stage = ctx.choice('stage', ['none', 'parse', 'create', 'run'])
    classes = error_classes()
    cls = ctx.choice('cls', classes) if stage != 'none' else None
    out = Out(ctx)
    log = []
    err = None
    if cls:
        msg = ctx.str('msg', 0, alphabet='abc 0')   # an error can have no message at all
        err = cls.__new__(cls)
        err.args = ('x',)
        if ctx.symbolic:
            err._kv_text = msg
        else:
            err.args = (msg,) if msg else ()

    def step(name, value=None):
        def f(*a, **k):
            log.append(name)
            if name == stage:
                if ctx.symbolic:
                    S.raise_py(err)
                raise err
            return value
        f._kv_symbolic = True
        return f

    class Runner_:
        run = staticmethod(step('run'))
    Runner_.__module__ = 'kv.contracts'
    app = A.App()
    if ctx.symbolic:
        ctx.stub(A.AppArgumentParser.__init__, lambda *a, **k: None)
    for owner, attr, h in ((A.AppArgumentParser, 'parse_args', step('parse')), (A.RunnerFactory, 'create', step('create', Runner_())),
                           (C.Console, 'debug_settings', step('settings')), (C.Console, 'on_exception', lambda e: log.append(e))):
        if ctx.symbolic:
            ctx.stub(getattr(owner, attr), h)
        else:
            old = owner.__dict__.get(attr, None)
            ctx.undo.append(lambda o=owner, n=attr, v=old: delattr(o, n) if v is None else setattr(o, n, v))
            setattr(owner, attr, staticmethod(h))
    code = None
    try:
        _, ex = ctx.attempt(app.run)
    except SystemExit as se:
        ex = se
    ctx.ensure(isinstance(ex, SystemExit), 'the process exits', repr(ex))
    code = ex.code
    ctx.ensure_eq(0 if code is None else code, 0 if stage == 'none' else 1, 'exit status')
    ctx.ensure([x for x in log if isinstance(x, BaseException)] == ([err] if err else []), 'the error is reported once', repr(log))
    if stage == 'none':
        ctx.ensure([x for x in log if x != 'settings'] == ['parse', 'create', 'run'], 'all stages are run', repr(log))
    ctx.ensure_eq(out.text('err'), '', 'nothing else on standard error')
