"""K04, K05, K10: how the input is split.  The patterns of the current source are compared with the specified languages
by automata (all texts, all continuations); what the parser does with a match is executed symbolically."""
import re

import z3

from kv.engine.harness import contract
from kv.engine import sym as S
from kv.engine import rx
from kv.contracts.p_approx import sym_methods
from kv.oracle import spec
import kolombos.byteio as B
import kolombos.byteio.parser.parser as PP
import kolombos.byteio.segment as SG
import kolombos.byteio.template as T
import kolombos.console as CO
import kolombos.settings as ST
import pytermor as P
from pytermor.util import StringFilter

# ------------------------------------------------------------------------------------------------ specification
U8 = (rb'[\xc2-\xdf][\x80-\xbf]|\xe0[\xa0-\xbf][\x80-\xbf]|[\xe1-\xec\xee\xef][\x80-\xbf][\x80-\xbf]|'
      rb'\xed[\x80-\x9f][\x80-\xbf]|\xf0[\x90-\xbf][\x80-\xbf][\x80-\xbf]|[\xf1-\xf3][\x80-\xbf][\x80-\xbf][\x80-\xbf]|'
      rb'\xf4[\x80-\x8f][\x80-\xbf][\x80-\xbf]')
LANG = {
    'utf8': U8, 'csi': rb'\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]', 'nf': rb'\x1b[\x20-\x2f]+[\x30-\x7e]',
    'fp': rb'\x1b[\x30-\x3f]', 'fe': rb'\x1b[\x40-\x5f]', 'fs': rb'\x1b[\x60-\x7e]',
    'esc1': rb'\x1b', 'bin': rb'[\x80-\xff]+', 'nul': rb'\x00+', 'bs': rb'\x08+', 'del': rb'\x7f+',
    'ctl': rb'[\x01-\x07\x0e-\x1a\x1c-\x1f]+', 'tab': rb'\x09+', 'nl': rb'\x0a+', 'vt': rb'\x0b+', 'ff': rb'\x0c+',
    'cr': rb'\x0d+', 'sp': rb'\x20+', 'pr': rb'[\x21-\x7e]+',
}
TREES = {k: rx.parse(v) for k, v in LANG.items()}
SEQS = ['csi', 'nf', 'fp', 'fe', 'fs']
FAMILY = {'sgr': 'csi', 'sgr0': 'csi'}
MARKER = {v: k for k, v in spec.MARK.items()} | {'⇥': 'tab', '↵': 'nl', '␣': 'sp'}


def spec_langs(al):
    """{kind: DFA of all p#r such that p may be shown as that kind in front of r}"""
    any_ = rx.STAR(rx.ANY(al))
    L = lambda t: rx.lang(al, t)
    tok = {k: L(rx.CAT(t, rx.HASH, any_)) for k, t in TREES.items()}
    seq_later = rx.ALT(*[('dfa', rx.insert_hash(al, TREES[k])) for k in SEQS])
    tok['fe'] = rx.minus(tok['fe'], L(rx.CAT(('dfa', rx.insert_hash(al, TREES['csi'])), any_)))
    tok['esc1'] = rx.minus(tok['esc1'], L(rx.CAT(seq_later, any_)))
    tok['bin'] = rx.minus(tok['bin'], rx.union(L(rx.CAT(any_, ('dfa', rx.insert_hash(al, TREES['utf8'])), any_)),
                                               L(rx.CAT(any_, TREES['utf8'], any_, rx.HASH, any_))))
    return tok


# ------------------------------------------------------------------------------------------------ the real parser
def real_parser():
    reg = T.TemplateRegistry()
    return PP.Parser(B.ParserBuffer(), SG.SegmentBuffer(), reg), reg


def templates(reg):
    ts = {n: t for n, t in vars(reg).items() if isinstance(t, T.Template)}
    if len(ts) < 10:
        raise S.Unsupported('the registry of templates has changed')
    return ts


def kind_of_template(t):
    """what the template says it shows: by its class and documented marker"""
    cls = t.char_class.value
    if cls == 'utf8':
        return 'utf8'
    if cls == 'binary':
        return 'bin'
    if cls == 'printable':
        return 'pr'
    lab = t.label_stack.get()
    k = MARKER.get(lab)
    if k is None or spec.CLASS_OF[k] != cls:
        raise S.Unsupported(f'unknown marker {lab!r} of class {cls}')
    return k


def separator(parser):
    """the filter with a callback that splits the input"""
    fs = [f for f in vars(parser).values() if isinstance(f, StringFilter)]
    for f in fs:
        pat = [x for x in vars(f).values() if isinstance(x, re.Pattern)]
        cb = [x for n, x in vars(f).items() if callable(x) and not n.startswith('__') and not isinstance(x, (re.Pattern, type))]
        if len(pat) == 1 and len(cb) == 1 and isinstance(pat[0].pattern, bytes):
            return pat[0], cb[0]
    raise S.Unsupported('the separating filter of the parser has another form')


_CACHE = {}


def languages(pat):
    if pat.pattern not in _CACHE:
        tree = rx.parse(pat)
        alts = rx.alternatives(tree)
        al = rx.Alphabet([tree, *TREES.values()], 255)
        pr = rx.Prog(al, alts)
        rel = pr.relation()
        _CACHE[pat.pattern] = (alts, al, rel, pr.no_match(), spec_langs(al))
    return _CACHE[pat.pattern]


def quiet(ctx):
    """debug messages are not part of these contracts (K11)"""
    ctx.stub(CO.ConsoleDebugBuffer.write, lambda *a, **k: None)
    ctx.stub(CO.Console.printd, lambda *a, **k: '')


# ---- symbolic match
class Match_:
    pass


@sym_methods
class SymMatch:
    """a match of one alternative: arbitrary text of the shape of the pattern"""
    def __init__(self, whole, groups, start, n, text=None):
        self.whole, self.caps, self.at, self.n, self.re, self.string = whole, groups, start, n, None, text
        self.lastindex = None

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = tuple(self.one(n) for n in ns)
        return r[0] if len(r) == 1 else r

    def one(self, n):
        if isinstance(n, S.SInt):
            n = S.simp(n.e).as_long()
        if n == 0:
            return self.whole
        if not 0 < n <= self.n:
            S.raise_py(IndexError('no such group'))
        return self.caps.get(n, (None, None))[0]

    def __getitem__(self, n): return self.one(n)
    def groups(self, default=None): return tuple(self.caps[n][0] if n in self.caps else default for n in range(1, self.n + 1))

    def start(self, n=0):
        if n == 0:
            return self.at
        return self.at + self.caps[n][1] if n in self.caps else -1

    def end(self, n=0):
        v = self.one(n)
        return self.start(n) + S.seq_len(v) if v is not None else -1

    def span(self, n=0): return (self.start(n), self.end(n))


def instantiate(ctx, tree, caps, pos, name):
    """(parts, position behind): symbolic text of the shape of the tree; forks over branches"""
    k = tree[0]
    if k == 'set':
        return one_of(ctx, tree[1], 1, name), pos + 1
    if k == 'cat':
        out = []
        for i, x in enumerate(tree[1]):
            ps, pos = instantiate(ctx, x, caps, pos, f'{name}_{i}')
            out += ps
        return out, pos
    if k == 'alt':
        return instantiate(ctx, tree[1][S.E().choose(len(tree[1]))], caps, pos, name)
    if k == 'grp':
        ps, end = instantiate(ctx, tree[2], caps, pos, name)
        caps[tree[1]] = (S.norm(S.Rope('bytes', ps)), pos)
        return ps, end
    if k == 'rep':
        lo, hi, body = tree[1:4]
        if body[0] == 'set':
            n = z3.Int('n_' + name)
            S.E().assume(S.mkbool(n >= lo))
            if hi is not None:
                S.E().assume(S.mkbool(n <= hi))
            return one_of(ctx, body[1], n, name), pos + S.mknum(n)
        if hi is not None and hi <= 4:
            out = []
            for i in range(lo + S.E().choose(hi - lo + 1)):
                ps, pos = instantiate(ctx, body, caps, pos, f'{name}_{i}')
                out += ps
            return out, pos
    raise S.Unsupported(f'{k} in the pattern')


def one_of(ctx, cset, n, name):
    if len(cset) == 1 and cset[0][0] == cset[0][1] and n == 1:
        return [S.Lit(bytes([cset[0][0]]))]
    src = S.Source('m_' + name, 'bytes', cset[0][0], cset[-1][1])
    ctx.register(src)
    return [S.Slice(src, 0, n)]


def elem(v, i):
    """z3 value of element i (concrete), the value is long enough"""
    return S.toz(S.seq_index(v, i))


def sgr_kind(ctx, p):
    """(is sgr, is reset) of a CSI sequence p, as conditions; p is 1b 5b params inter final"""
    n = S.toz(S.seq_len(p))
    last = S.toz(S.seq_index(p, -1))
    a = S.toz(S.seq_index(p, 2))
    no_params = z3.Or(a < 0x30, a > 0x3f)
    sgr = last == 0x6d
    if ctx.truth(S.mkbool(z3.And(sgr, a == 0x30, n >= 4))):
        b = S.toz(S.seq_index(p, 3))
        return sgr, z3.Or(b < 0x30, b > 0x3f)
    return sgr, z3.And(sgr, no_params)


def run_native_tokens(data):
    parser, reg = real_parser()
    got = []
    ts = templates(reg)
    for t in ts.values():
        def wrap(raw, *a, _t=t, _f=t.substitute, **k):
            got.append((kind_of_template(_t), bytes(raw)))
            return _f(raw, *a, **k)
        t.substitute = wrap
    parser._parser_buffer.append_raw(data, True)
    parser.parse(0)
    return got


def explode(ts):
    out = []
    for k, p in ts:
        if k in ('utf8',) or spec.CLASS_OF[k] == 'esc':
            out.append((k, p))
        else:
            out += [(k, p[i:i + 1]) for i in range(len(p))]
    return out


def settings(ctx, **kw):
    if not hasattr(ST.SettingsManager, 'app_settings'):
        ST.SettingsManager.init()
    s = ST.Settings()
    for k, v in kw.items():
        if not hasattr(s, k):
            raise S.Unsupported(f'no setting {k}')
        s.__dict__[k] = v
    ctx.set(ST.SettingsManager, 'app_settings', s)
    return s


@contract('K.tokens', ['K04', 'K05', 'K10', 'K01', 'K06', 'K07'], native=4000, budget=200)
def _(ctx):
    """every match of the separating pattern hands the whole matched text to the template of exactly the class the
    specification gives to that text in front of any continuation; nothing is left over"""
    settings(ctx)
    parser, reg = real_parser()
    if not ctx.symbolic:
        from kv.contracts.e2e import gen_data
        d = ctx._take('data', lambda: gen_data(ctx.rng))
        got = ctx.call(run_native_tokens, d)
        ctx.ensure_eq(explode(got), spec.tokens(d), 'tokens')
        return
    quiet(ctx)
    pat, cb = separator(parser)
    alts, al, rel, nm, want = languages(pat)
    k = S.E().choose(len(alts) + 1)
    val = lambda sh: {'data': sh[0] + (sh[1] if len(sh) > 1 else b'')}
    if k == len(alts):
        nonempty = rx.lang(al, rx.CAT(rx.ANY(al), rx.STAR(rx.ANY(al))))
        ctx.lang_empty(rx.both(nonempty, nm), 'at the start of any text something matches', val)
        ctx.lang_empty(rx.both(rel, rx.lang(al, rx.CAT(rx.HASH, rx.STAR(rx.ANY(al))))), 'no match is empty', val)
        return
    caps = {}
    parts, _ = instantiate(ctx, alts[k], caps, S.mknum(z3.IntVal(0)), f'a{k}')
    p = S.norm(S.Rope('bytes', parts))
    if not S.E().feasible():
        return
    start = ctx.int('start', 0)
    m = SymMatch(p, caps, start, pat.groups)
    if len(alts) == 1 or len(caps) == 0:
        raise S.Unsupported('a pattern without groups')
    seen, attached = [], []
    seg = SG.Segment(P.NOOP_SEQ, 'x', b'x', 'x')

    def substitute(self, raw, *a, **kw):
        seen.append((self, raw))
        return S.VList.of([seg])
    for f in {f for t in templates(reg).values() for f in [type(t).substitute]}:
        ctx.stub(f, substitute)
    params = []
    for t in templates(reg).values():
        if hasattr(type(t), 'set_details_fmt_str'):
            ctx.stub(type(t).set_details_fmt_str, lambda self, s: params.append((self, s)))
    ctx.stub(SG.SegmentBuffer.attach, lambda self, *segs: attached.append((self, segs)))
    r = ctx.call(cb, m)
    ctx.ensure_eq(r, b'', 'the matched text is consumed')
    ctx.ensure(len(seen) == 1, 'one template', str(len(seen)))
    if len(seen) != 1:
        return
    t, raw = seen[0]
    ctx.ensure_eq(raw, p, 'the template gets the whole match')
    ctx.ensure(len(attached) == 1 and attached[0][0] is parser._segment_buffer and list(attached[0][1]) == [seg],
               'the segments are attached once')
    kind = kind_of_template(t)
    fam = FAMILY.get(kind, kind)
    lk = rx.Dfa(rel.al, rel.trans, [a is not None and a[0] == k for a in rel.acc], rel.start)
    ctx.lang_empty(rx.minus(lk, want[fam]), f'alternative {k} is shown as {kind} exactly where that is its class', val)
    if fam == 'csi':
        sgr, reset = sgr_kind(ctx, p)
        ctx.ensure(S.mkbool({'sgr0': reset, 'sgr': z3.And(sgr, z3.Not(reset)), 'csi': z3.Not(sgr)}[kind]),
                   f'{kind} is what this CSI sequence is')
        if kind == 'sgr':
            ctx.ensure(len(params) == 1 and params[0][0] is t, 'the parameters are handed on')
            if len(params) == 1:
                check_params(ctx, params[0][1], p)
    else:
        ctx.ensure(not params, 'no parameters')


@contract('K.newlines', ['K03'], native=1500)
def _(ctx):
    """line feeds are matched one by one, so that each gets a segment of its own (K.template[nl])"""
    settings(ctx, binary=False)
    parser, reg = real_parser()
    if not ctx.symbolic:
        from kv.contracts.e2e import gen_data
        d = ctx._take('data', lambda: gen_data(ctx.rng))
        segs = []
        parser._segment_buffer.attach = lambda *s: segs.extend(s)
        parser._parser_buffer.append_raw(d, True)
        ctx.call(parser.parse, 0)
        ctx.ensure_eq([s.raw for s in segs if '\n' in s.processed], [b'\n'] * d.count(b'\n'), 'one segment for every line feed')
        return
    S.E().weak = True       # another part of the program may split them
    pat, cb = separator(parser)
    alts, al, rel, nm, want = languages(pat)
    any_ = rx.STAR(rx.ANY(al))
    nl = rx.parse(b'\n')
    more = rx.union(rx.lang(al, rx.CAT(any_, nl, rx.ANY(al), any_, rx.HASH, any_)),
                    rx.lang(al, rx.CAT(any_, rx.ANY(al), nl, any_, rx.HASH, any_)))
    ctx.lang_empty(rx.both(rel, more), 'a match with a line feed is one line feed', lambda sh: {'data': sh[0] + (sh[1] if len(sh) > 1 else b'')})


def check_params(ctx, got, p):
    """got is the maximal run of parameter bytes of p (from index 2)"""
    n = S.seq_len(got)
    ctx.ensure_eq(got, S.seq_slice(p, 2, 2 + n), 'the parameter bytes')
    nx = S.toz(S.seq_index(p, 2 + n))
    ctx.ensure(S.mkbool(z3.Or(nx < 0x30, nx > 0x3f)), 'all the parameter bytes')
    i = ctx.int('i', 0)
    if ctx.truth(i < n):
        x = S.toz(S.seq_index(got, i))
        ctx.ensure(S.mkbool(z3.And(x >= 0x30, x <= 0x3f)), 'only parameter bytes')


@contract('K.utf8_table', ['K05'], native=1)
def _(ctx):
    """the specified UTF-8 language is that of the standard decoder: every code point's encoding, nothing else"""
    tree = TREES['utf8']
    al = rx.Alphabet([tree], 255)
    d = rx.lang(al, tree)
    # number of words by length, weighted by the atoms' sizes
    size = [sum(b - a + 1 for a, b in ivs) for ivs in al.atoms]
    total, cur = 0, {d.start: 1}
    for _ in range(4):
        nxt = {}
        for q, c in cur.items():
            for a in range(al.n - 1):
                r = d.trans[q][a]
                nxt[r] = nxt.get(r, 0) + c * size[a]
        total += sum(c for q, c in nxt.items() if d.acc[q])
        cur = nxt
    ctx.ensure(total == 0x110000 - 0x800 - 0x80, 'number of sequences', str(total))
    m = re.compile(b'(?:' + U8 + b')')
    ctx.ensure(all(m.fullmatch(chr(c).encode()) for c in range(0x80, 0x110000) if not 0xd800 <= c < 0xe000), 'every code point')


# ---- parse(): what is held back
def open_language(pat):
    tree, had = rx.strip_end(rx.parse(pat))
    if not had:
        raise S.Unsupported('the pattern of incomplete sequences is not anchored at the end')
    return tree


@contract('K.parse', ['K10', 'K04', 'K01'], native=3000)
def _(ctx):
    """one call of parse with any buffer contents: the buffer is split without a gap into a part that is tokenised and
    a rest that is kept; nothing is kept at the end of the input; a cut never falls into a sequence, whatever comes"""
    settings(ctx)
    parser, reg = real_parser()
    if not ctx.symbolic:
        from kv.contracts.e2e import gen_data
        d = ctx._take('data', lambda: gen_data(ctx.rng))
        cuts = ctx._take('cuts', lambda: sorted(ctx.rng.randrange(0, len(d) + 1) for _ in range(ctx.rng.randrange(0, 6))))
        got = []
        for t in templates(reg).values():
            def wrap(raw, *a, _t=t, _f=t.substitute, **k):
                got.append((kind_of_template(_t), bytes(raw)))
                return _f(raw, *a, **k)
            t.substitute = wrap
        off = 0
        for a, b in zip([0] + cuts, cuts + [len(d)]):
            parser._parser_buffer.append_raw(d[a:b], False)
            ctx.call(parser.parse, off)
            off += b - a
        parser._parser_buffer.append_raw(b'', True)
        ctx.call(parser.parse, off)
        ctx.ensure_eq(explode(got), spec.tokens(d), 'tokens whatever the cuts')
        ctx.ensure_eq(parser._parser_buffer.get_raw(), b'', 'nothing is left')
        return
    quiet(ctx)
    pat, cb = separator(parser)
    raw = ctx.bytes('raw')
    closed = ctx.bool('closed')
    buf = parser._parser_buffer
    ctx.set(buf, '_raw_buffer', raw)
    ctx.set(buf, '_closed', closed)
    if hasattr(parser, '_incomplete_len'):
        ctx.set(parser, '_incomplete_len', ctx.int('held', 0))
    done, searched = [], []

    def sub(it, pt, repl, s):
        if pt is not pat:
            return NotImplemented
        ctx.ensure(getattr(repl, '__func__', repl) is getattr(cb, '__func__', cb), 'the same callback')
        done.append(s)
        return b''      # K.tokens: something matches at the start of any text, and every match is replaced by nothing

    def search(it, pt, args, kw):
        if len(args) != 1 or kw:
            raise S.Unsupported('search with bounds')
        t = open_language(pt)
        x = args[0]
        ctx.ensure_eq(x, raw, 'the whole buffer is searched')
        check_open(ctx, pt, t)
        if S.E().choose(2) == 0:
            searched.append(None)
            return None
        n = ctx.int('kept', 1)
        ctx.assume(n <= ctx.len(raw))
        kept = S.seq_slice(raw, ctx.len(raw) - n, None)
        searched.append(kept)
        return SymMatch(kept, {}, ctx.len(raw) - n, pt.groups)
    ctx.interp.stubs[('pattern', 'sub')] = sub
    ctx.interp.stubs[('pattern', 'search')] = search
    ctx.call(PP.Parser.parse, parser, ctx.int('offset', 0))
    rest = ctx.call(B.ParserBuffer.get_raw, buf)
    ctx.ensure(len(done) == 1, 'the buffer is tokenised once')
    if len(done) != 1:
        return
    if closed:
        ctx.ensure_eq(rest, b'', 'nothing is held back at the end of the input')
        ctx.ensure_eq(done[0], raw, 'everything is tokenised')
        return
    ctx.ensure_eq(ctx.cat(done[0], rest) if S.kind_of(rest) else rest, raw, 'tokenised part and rest are the buffer')
    if not searched:
        raise S.Unsupported('incomplete sequences are recognised in another way')
    ctx.ensure_eq(rest, searched[-1] if searched[-1] is not None else b'', 'what is kept is what was recognised')


_OPEN = {}


def check_open(ctx, pat, tree):
    """what is kept: at least every proper beginning of a sequence; it starts with a byte that only starts sequences"""
    if pat.pattern not in _OPEN:
        al = rx.Alphabet([tree, *TREES.values()], 255)
        seq = rx.ALT(*[TREES[k] for k in SEQS + ['utf8']])
        beg = rx.insert_hash(al, seq)
        # proper beginnings: words before '#'
        n = rx.Nfa(al)
        any_ = rx.STAR(rx.ANY(al))
        impl = rx.lang(al, rx.CAT(tree, rx.HASH, any_))
        lead = rx.cs((0x1b, 0x1b), (0xc2, 0xf4))
        a = rx.minus(beg, impl)
        b = rx.minus(rx.lang(al, tree), rx.lang(al, rx.CAT(('set', lead), any_)))
        c = rx.both(rx.lang(al, seq), rx.lang(al, rx.CAT(rx.ANY(al), any_, ('set', lead), any_)))
        _OPEN[pat.pattern] = (a, b, c)
    a, b, c = _OPEN[pat.pattern]
    val = lambda sh: {'data': sh[0] + (sh[1] if len(sh) > 1 else b''), 'cuts': [len(sh[0])]}
    ctx.lang_empty(a, 'every proper beginning of a sequence is kept', val)
    ctx.lang_empty(b, 'what is kept starts with a byte that can only start a sequence', lambda sh: {'data': sh[0] + b'\x80a', 'cuts': [len(sh[0])]})
    ctx.lang_empty(c, 'such a byte never occurs inside a sequence (specification)', lambda sh: {'data': sh[0], 'cuts': []})


@contract('K.parser_buffer', ['K10', 'K01', 'K03', 'K04', 'K05'], native=400)
def _(ctx):
    """the buffer holds exactly what was appended and not yet cropped, of any length"""
    settings(ctx)
    quiet(ctx)
    buf = ctx.call(B.ParserBuffer)
    raw = lambda: ctx.call(B.ParserBuffer.get_raw, buf)
    ctx.ensure_eq(raw(), b'', 'empty at first')
    rnd = lambda r: bytes(r.choice(b'ab') for _ in range(r.choice([0, 1, 2, 5, 40, 300, 9000])))
    a, b, c = (ctx.bytes(n, gen=rnd) for n in 'abc')
    fin = ctx.bool('finish')
    ctx.call(B.ParserBuffer.append_raw, buf, a)
    ctx.ensure(ctx.Not(ctx.get(buf, 'closed')), 'open until the end is signalled')
    ctx.call(B.ParserBuffer.append_raw, buf, b, fin)
    whole = ctx.cat(a, b)
    ctx.ensure_eq(raw(), whole, 'everything appended, in order')
    ctx.ensure(ctx.eq(ctx.get(buf, 'closed'), fin), 'closed exactly when the end was signalled')
    n = ctx.int('n', 0)
    ctx.assume(n <= ctx.len(whole))
    rest = ctx.slice(whole, ctx.len(whole) - n, None)
    ctx.call(B.ParserBuffer.crop_raw, buf, rest)
    ctx.ensure_eq(raw(), rest, 'the rest is kept')
    ctx.call(B.ParserBuffer.append_raw, buf, c)
    ctx.ensure_eq(raw(), ctx.cat(rest, c), 'the next chunk follows the rest')
    ctx.call(B.ParserBuffer.crop_raw, buf, b'')
    ctx.ensure_eq(raw(), b'', 'nothing is left')
