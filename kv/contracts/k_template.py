"""K04-K08: what a template shows for one match, for every combination of options"""
import z3

from kv.engine.harness import contract
from kv.engine import sym as S
from kv.contracts import k_parser as KP
from kv.contracts.p_pairity import Items, SINGLE
from kv.engine.loops import LoopContract
from kv.contracts.vis import visible
from kv.oracle import spec
import kolombos.byteio.template as T
import kolombos.settings as ST

CTL = [(1, 7), (0x0e, 0x1a), (0x1c, 0x1f)]
BYTE = {'nul': 0, 'bs': 8, 'del': 0x7f, 'esc1': 0x1b, 'tab': 9, 'nl': 10, 'vt': 11, 'ff': 12, 'cr': 13, 'sp': 32}
KINDS = [k for k in spec.CLASS_OF if k != 'sgr']
UTF8 = {2: [[(0xc2, 0xdf), (0x80, 0xbf)]],
        3: [[(0xe0, 0xe0), (0xa0, 0xbf), (0x80, 0xbf)], [(0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf)],
            [(0xed, 0xed), (0x80, 0x9f), (0x80, 0xbf)], [(0xee, 0xef), (0x80, 0xbf), (0x80, 0xbf)]],
        4: [[(0xf0, 0xf0), (0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf)], [(0xf1, 0xf3)] + [(0x80, 0xbf)] * 3,
            [(0xf4, 0xf4), (0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf)]]}
CLASSES = spec.CLASSES


def options(ctx, **over):
    """settings object with every option arbitrary; decided lazily by the program"""
    o = {'binary': ctx.flag('binary'), 'text': ctx.flag('text'), 'marker': ctx.int('marker', rnd=lambda r: r.choice([-1, 0, 1, 1, 2, 2, 3])),
         'no_separators': ctx.flag('no_separators'), 'color_markers': ctx.flag('color_markers'),
         'no_line_numbers': ctx.flag('no_line_numbers'), 'no_offsets': ctx.flag('no_offsets'),
         'decimal_offsets': ctx.flag('decimal_offsets'), 'debug': ctx.int('debug', 0, rnd=lambda r: r.choice([0, 0, 1, 2, 3, 4]))}
    for c in CLASSES:
        o['ignore_' + c], o['focus_' + c] = ctx.flag('ignore_' + c), ctx.flag('focus_' + c)
    o.update(over)
    KP.settings(ctx, **o)
    return o


def rep(ctx, unit, n):
    return S.seq_repeat(unit, n) if ctx.symbolic else unit * n


def raw_of(ctx, kind):
    """an arbitrary match of the kind (K.tokens): a run of one-byte kinds, one sequence otherwise"""
    if kind == 'nl':
        return b'\n'              # one at a time: K.newlines
    if kind in BYTE:
        n = ctx.int('n', 1, rnd=lambda r: r.choice([1, 2, 3, 7]))
        return rep(ctx, bytes([BYTE[kind]]), n)
    if kind == 'ctl':
        return ctx.bytes('raw', 1, only=CTL, lo=1, hi=31)
    if kind == 'bin':
        return ctx.bytes('raw', 1, lo=128, hi=255)
    if kind == 'pr':
        return ctx.bytes('raw', 1, lo=0x21, hi=0x7e)
    if kind == 'utf8':
        n = ctx.choice('ulen', [2, 3, 4])
        k = ctx.choice('ushape', list(range(len(UTF8[n])))) if n > 2 else 0
        shape = UTF8[n][k]
        r = ctx.bytes('raw', exact=n, lo=0x80, hi=0xff, tags=('utf8seq',),
                      gen=lambda g: bytes(g.randint(a, b) for a, b in shape))
        if ctx.symbolic:
            for i, (a, b) in enumerate(shape):
                e = S.toz(S.seq_index(r, i))
                ctx.eng.add(z3.And(e >= a, e <= b))
        return r
    head = {'csi': b'\x1b[', 'sgr': b'\x1b[', 'sgr0': b'\x1b[', 'nf': b'\x1b', 'fp': b'\x1b', 'fe': b'\x1b', 'fs': b'\x1b'}[kind]
    lo, hi = {'fp': (0x30, 0x3f), 'fe': (0x40, 0x5f), 'fs': (0x60, 0x7e)}.get(kind, (0x20, 0x7e))
    if kind in ('fp', 'fe', 'fs'):
        return ctx.cat(head, ctx.bytes('tail', exact=1, lo=lo, hi=hi))
    return ctx.cat(head, ctx.bytes('tail', 1, lo=lo, hi=hi))


def ascii_(ctx, v):
    if not ctx.symbolic or isinstance(v, bytes):
        return v.decode('ascii')
    from kv.engine.interp import bytes_decode
    return bytes_decode(ctx.interp, v, 'ascii', 'strict')


def show(ctx, kind, raw, o, brief=''):
    """specified visible text"""
    cls = spec.CLASS_OF[kind]
    T_ = ctx.truth
    n = ctx.len(raw)
    binary = T_(o['binary'])
    if T_(o['ignore_' + cls]):
        return rep(ctx, spec.IGN + ('\n' if kind == 'nl' and not binary else ''), n)
    if kind == 'utf8':
        if not binary or (o['decode'] is not None and T_(o['decode'])):
            if ctx.symbolic:
                c = S.Rope('str', [S.Tok('utf8', (raw.parts[0].lo, raw.parts[0].hi, raw), 1, None)])
            else:
                c = raw.decode('utf8')
            return ctx.cat('_' * (int(str(n)) - 1) if binary else '', c)
        return rep(ctx, spec.BOX, n)
    if kind == 'bin':
        return rep(ctx, spec.BOX if binary else 'Ḇ', n)
    if kind == 'pr':
        return ascii_(ctx, raw)
    if kind == 'tab':
        return rep(ctx, '⇥' if binary else '⇥\t', n)
    if kind == 'nl':
        return rep(ctx, '↵' if binary else '↵\n', n)
    if kind == 'sp':
        return rep(ctx, '·' if T_(o['focus_space']) else '␣', n)
    m = o['marker']
    if cls == 'esc':
        tail = ascii_(ctx, ctx.slice(raw, 1, None))
        if binary:
            return ctx.cat(spec.MARK[kind], tail)
        if T_(m <= 0):
            return spec.MARK[kind]
        s = ctx.cat(spec.MARK[kind], brief if T_(m == 1) else tail)
        return s if T_(o['no_separators']) else ctx.cat(spec.SEP_L, s, spec.SEP_R)
    if kind == 'ctl' and not binary and T_(m >= 1):
        if T_(m == 1):
            return ctx.join('', ctx.map(lambda b: ctx.cat('Ɐ', chr_(ctx, b + 64)), raw))
        return ctx.join('', ctx.map(lambda b: ctx.cat('Ɐ', ctx.fmt(b, '02x')), raw))
    return rep(ctx, spec.MARK[kind], n)


def chr_(ctx, b):
    if not ctx.symbolic:
        return chr(b)
    from kv.engine.interp import chr_tok
    return S.norm(S.Rope('str', [chr_tok(S.toz(b))]))


def check_segments(ctx, kind, raw, o, segs, brief=''):
    get = ctx.get
    text = ctx.join('', ctx.map(lambda s: get(s, 'processed'), segs))
    raws = ctx.join(b'', ctx.map(lambda s: get(s, 'raw'), segs))
    binary = ctx.truth(o['binary'])
    want = show(ctx, kind, raw, o, brief)
    if not ctx.symbolic:
        ctx.ensure_eq(spec.strip_sgr(text), want, 'what is shown')
    else:
        ctx.ensure_eq(visible(ctx, text, 'output', '' if binary else '\n\t'), want, 'what is shown')
    if binary:
        ctx.ensure_eq(raws, raw, 'the bytes of the segments')

        def same(s):
            return ctx.eq(ctx.len(get(s, 'raw')), ctx.len(get(s, 'processed')))
        each(ctx, segs, lambda s: ctx.ensure(same(s), 'one character per byte'))
        each(ctx, segs, lambda s: ctx.ensure(ctx.len(get(s, 'raw')) >= 1, 'no segment is empty'))
        each(ctx, segs, lambda s: ctx.ensure_eq(visible(ctx, get(s, 'processed'), 'a character', '') if ctx.symbolic else
                                                spec.strip_sgr(get(s, 'processed')), get(s, 'processed'),
                                                'characters contain no formatting of their own'))
        return
    # text mode: the line logic depends on these
    each(ctx, segs, lambda s: newline_only(ctx, kind, get(s, 'raw'), get(s, 'processed')))
    ctx.ensure(ctx.len(raws) >= 1, 'a token has data')
    

def newline_only(ctx, kind, raw, proc):
    """a line break is displayed exactly for each line feed, and nothing behind it in its segment"""
    if kind == 'nl':
        ctx.ensure_eq(ctx.len(raw), 1, 'one line feed per segment')
        v = visible(ctx, proc, 'a line break', '\n') if ctx.symbolic else spec.strip_sgr(proc)
        ctx.ensure(isinstance(v, str) and v.endswith('\n') and v.count('\n') == 1, 'one line break per line feed, at the end')
        return
    if ctx.symbolic:
        for p in S.parts_of(proc):
            vs = [p.v] if isinstance(p, S.Lit) else [p.unit] if isinstance(p, S.Rep) else []
            ctx.ensure(not any('\n' in v for v in vs), 'no line break')
    else:
        ctx.ensure('\n' not in proc, 'no line break')


def each(ctx, segs, f):
    """for every segment (generic index for families)"""
    if not ctx.symbolic:
        for s in segs:
            f(s)
        return
    for p in segs.parts if isinstance(segs, S.VList) else [S.Lit(list(segs))]:
        if isinstance(p, S.Lit):
            for s in p.v:
                f(s)
        elif isinstance(p, S.Flat):
            i = S.generic_index(p.lo, p.hi)
            for s in p.at(i):
                f(s)
        else:
            raise S.Unsupported(f'segments {p!r}')


def domain(ctx, seq):
    """codes of an opening lie in the domain of P01 (so that the closing undoes it)"""
    from kv.contracts.p_pairity import CLOSER, SINGLE
    ps = ctx.items(ctx.get(seq, 'params'))
    ps = [S.simp(p.e).as_long() if isinstance(p, S.SInt) else p for p in ps]
    i = 0
    while i < len(ps):
        if ps[i] in (38, 48) and i + 2 < len(ps) and ps[i + 1] == 5:
            i += 3
        elif ps[i] in (38, 48) and i + 4 < len(ps) and ps[i + 1] == 2:
            i += 5
        elif ps[i] in SINGLE:
            i += 1
        else:
            return False
    return True


def template_of(kind):
    if not hasattr(ST.SettingsManager, 'app_settings'):
        ST.SettingsManager.init()
    reg = T.TemplateRegistry()
    ts = [t for t in KP.templates(reg).values() if KP.kind_of_template(t) == kind]
    if len(ts) != 1:
        raise S.Unsupported(f'{len(ts)} templates of kind {kind}')
    return ts[0]


def check_styles(ctx, segs):
    each(ctx, segs, lambda s: ctx.ensure(domain(ctx, ctx.get(s, 'opening_seq')), 'the formatting can be undone'))


for _kind in KINDS:
    def _run(ctx, kind=_kind):
        KP.settings(ctx)
        t = template_of(kind)
        o = options(ctx, decode=ctx.choice('decode_set', [False, True]) and ctx.flag('decode') if kind == 'utf8' else None)
        if kind == 'utf8' and o['decode'] is False:
            o['decode'] = None
            ST.SettingsManager.app_settings.decode = None
        raw = raw_of(ctx, kind)
        ctx.lift(t)
        if ctx.symbolic:
            KP.quiet(ctx)
        ctx.call(type(t).update_settings, t)
        segs = ctx.call(type(t).substitute, t, raw)
        check_segments(ctx, kind, raw, o, segs)
        check_styles(ctx, segs)
    _run.__doc__ = f'segments made for a match of kind {_kind} under any options'
    contract(f'K.template[{_kind}]', ['K04', 'K05', 'K06', 'K07', 'K01', 'K03', 'K08'], native=300)(_run)


# ------------------------------------------------------------------------------------------------ SGR parameters
ISINT = z3.Function('piece_is_number', S.INT, z3.BoolSort())
VAL = z3.Function('piece_value', S.INT, S.INT)
NP = z3.Int('pieces_n')
SGR_INPUT = 'params'


@KP.sym_methods
class SgrParams:
    """the parameter bytes of an SGR sequence: any number of pieces separated by ';', each a number before its first
    ':' or not"""
    def decode(self, *a, **k): return self
    def split(self, sep=None, *a):
        if sep not in (';', b';') or a:
            raise S.Unsupported('the parameters are split in another way')
        bv = z3.Int('?piece')
        return S.VList([S.Flat(bv, 0, NP, [(z3.BoolVal(True), [NP >= 1], [Piece(S.mknum(bv))])])])


@KP.sym_methods
class Piece:
    def __init__(self, i): self.i = i
    def split(self, sep=None, *a):
        if sep not in (':', b':'):
            raise S.Unsupported('a parameter is split in another way')
        return PieceParts(self.i)
    def partition(self, *a): raise S.Unsupported('a parameter is split in another way')
    rpartition = rsplit = find = index = count = startswith = endswith = isdigit = strip = replace = partition


@KP.sym_methods
class PieceParts:
    def __init__(self, i): self.i = i
    def __getitem__(self, n):
        if n != 0:
            raise S.Unsupported('a later part of a parameter is used')
        return Head(self.i)


class Head:
    def __init__(self, i): self.i = i

    def _kv_int(self, it, base):
        if base not in (None, 10):
            raise S.Unsupported('another base')
        i = S.toz(self.i)
        if not S.E().branch(ISINT(i)):
            S.raise_py(ValueError('not a number'))
        S.E().fact(VAL(i) >= 0)
        return S.mknum(VAL(i))


def code_family():
    bv = z3.Int('?piece')
    return S.Flat(bv, 0, NP, [(ISINT(bv), [VAL(bv) >= 0], [S.mknum(VAL(bv))]), (z3.Not(ISINT(bv)), [], [])])


def name_family(q):
    bv = z3.Int('?name')
    return S.Flat(bv, 0, q, [(z3.BoolVal(True), [], [S.Rope('str', [S.Tok('sgrname', (bv,), None, set('0123456789ABCDEFXB'))])])])


class SgrLoop(LoopContract):
    """one iteration consumes one attribute of the remaining codes and adds its short name, as specified by spec.sgr_brief"""
    name = 'SGR parameters loop'

    def bind(self, ctx, items):
        self.ctx, self.items = ctx, items
        want = S.vkey(S.VList([code_family()]))
        codes = [n for n, v in self.vlists().items() if v.parts and
                 (S.vkey(v) == want or (len(v.parts) == 1 and isinstance(v.parts[0], S.Flat) and
                                                     any(isinstance(x, S.SInt) for c in v.parts[0].cases for x in c[2])))]
        empty = [n for n, v in self.vlists().items() if not v.parts]
        if len(codes) != 1 or len(empty) != 2:
            raise S.Unsupported('roles of the locals of the SGR parameter loop not recognised')
        self.codes = codes[0]
        self.empty = empty
        self.bound_names = {self.codes, *empty}
        return self

    def entry(self, fr):
        S.prove_eq(fr.locals[self.codes], S.VList([code_family()]), 'the codes are the numbers among the parameters')

    def havoc(self, fr):
        E = S.E()
        self.src = S.Source('codes', 'list', 0, 10 ** 30)
        self.k, self.m, self.q = z3.Int('code_k'), z3.Int('code_m'), z3.Int('names_q')
        E.add(z3.And(self.k >= 0, self.k <= self.m, self.q >= 0))
        fr.locals[self.codes].set_parts([S.Slice(self.src, self.k, self.m)])
        # which of the two other lists holds the names is found out by the use: names gets anything, style the domain of P01
        self.roles = roles(self.fr, self.empty)
        fr.locals[self.roles[0]].set_parts([name_family(self.q)])
        fr.locals[self.roles[1]].set_parts([self.items.family(0, self.items.n)])

    def preserved(self, fr):
        ctx, C = self.ctx, self.src.elem
        k, m = self.k, self.m
        truth = ctx.truth
        I = S.mknum
        c0 = C(k)
        n, name = 1, ctx.fmt(I(c0), 'd')
        if truth(S.mkbool(z3.Or(c0 == 38, c0 == 48))):
            t = 'F' if truth(S.mkbool(c0 == 38)) else 'B'
            if truth(S.mkbool(z3.And(m - k >= 3, C(k + 1) == 5))):
                n, name = 3, ctx.cat(t, ctx.fmt(I(C(k + 2)), 'd'))
            elif truth(S.mkbool(z3.And(m - k >= 5, C(k + 1) == 2))):
                n, name = 5, ctx.cat(t, ctx.fmt(I(C(k + 2) * 65536 + C(k + 3) * 256 + C(k + 4)), '06X'))
        S.prove_eq(fr.locals[self.codes], S.VList([S.Slice(self.src, k + n, m)]), 'one attribute is consumed')
        names = fr.locals[self.roles[0]].parts
        ok = len(names) == 2 and S.vkey(S.VList(names[:1])) == S.vkey(S.VList([name_family(self.q)])) and \
            isinstance(names[1], S.Lit) and len(names[1].v) == 1
        ctx.ensure(ok, 'one name is added', repr(names))
        if ok:
            ctx.ensure_eq(self.ctx.interp.to_str(names[1].v[0]), name, 'the short name of the attribute')
        style = fr.locals[self.roles[1]].parts
        ok = style and S.vkey(S.VList(style[:1])) == S.vkey(S.VList([self.items.family(0, self.items.n)])) and \
            all(isinstance(p, S.Lit) for p in style[1:])
        ctx.ensure(bool(ok), 'the style is extended', repr(style))
        if ok:
            added = [x for p in style[1:] for x in p.v]
            ctx.ensure(in_domain(ctx, added), 'only codes whose effect can be undone', repr(added))

    def at_exit(self, fr):
        S.E().add(self.k == self.m)


def in_domain(ctx, ps):
    z = [S.toz(p) for p in ps]
    if not z:
        return True
    if len(z) == 1:
        return S.mkbool(z3.Or(*[z[0] == c for c in SINGLE]))
    return S.mkbool(z3.And(z3.Or(z[0] == 38, z[0] == 48), z[1] == {3: 5, 5: 2}.get(len(z), -1)))


def roles(fr, empty):
    """(names, style): the style is the list an SGR sequence is made of"""
    import ast
    node = fr.node
    star = {x.value.id for x in ast.walk(node) if isinstance(x, ast.Starred) and isinstance(x.value, ast.Name)}
    style = [n for n in empty if n in star]
    if len(style) != 1:
        raise S.Unsupported('roles of the locals of the SGR parameter loop not recognised')
    return [n for n in empty if n not in star][0], style[0]


@contract('K.template[sgr]', ['K04', 'K06', 'K07', 'K01', 'K03', 'K08'], native=2000)
def _(ctx):
    """segments made for an SGR sequence with any number of parameters: names, style, separators"""
    KP.settings(ctx)
    t = template_of('sgr')
    o = options(ctx, decode=None)
    ctx.lift(t)
    if ctx.symbolic:
        KP.quiet(ctx)
        items = Items(ctx)
        ctx.loop(type(t).set_details_fmt_str, lambda it, fr, node: SgrLoop(it, fr, node).bind(ctx, items))
        ctx.eng.add(NP >= 1)
        ctx.call(type(t).set_details_fmt_str, t, SgrParams())
        raw = raw_of(ctx, 'sgr')
        q = z3.Int('names_q')
        brief = ctx.join(spec.M1SEP, S.VList([name_family(q)]))
    else:
        p = ctx._take('sgr_params', lambda: gen_sgr(ctx.rng))
        raw = b'\x1b[' + p + ctx._take('inter', lambda: ctx.rng.choice([b'', b'', b' ', b'!/'])) + b'm'
        ctx.call(type(t).set_details_fmt_str, t, p)
        brief = spec.sgr_brief(p)
    ctx.call(type(t).update_settings, t)
    segs = ctx.call(type(t).substitute, t, raw)
    check_segments(ctx, 'sgr', raw, o, segs, brief)
    if ctx.symbolic:
        its = S.VList([items.family(0, items.n)])

        def style(s):
            ps = ctx.get(ctx.get(s, 'opening_seq'), 'params')
            for x in (ps.parts if isinstance(ps, S.VList) else [S.Lit(list(ps))]):
                if isinstance(x, S.Lit):
                    ctx.ensure(domain(ctx, Params(x.v)), 'the formatting can be undone')
                else:
                    ctx.ensure_eq(S.VList([x]), its, 'the formatting can be undone')
        each(ctx, segs, style)
    else:
        check_styles(ctx, segs)


class Params:
    def __init__(self, params): self.params = params


def gen_sgr(r):
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        out.append(r.choice(['', '0', '1', '4', '7', '31', '44', '91', '105', '38', '48', '38;5;%d' % r.randrange(300),
                             '48;5;12', '38;2;%d;%d;%d' % (r.randrange(256), r.randrange(256), r.randrange(256)),
                             '48;2;1;2', '38;5', '2', '3', '9', '53', '21', '4:3', '>4', '?25', '007', '38:5', '5', '39', '999',
                             '48;2;300;1;2']))
    return ';'.join(out).encode()
