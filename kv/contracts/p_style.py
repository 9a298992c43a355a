"""P09 style inheritance, P08 composed texts, P06 renderers, P07 compatibility modes"""
import re

import z3

from kv.engine.harness import contract
from kv.engine import sym as S
import pytermor.render as R
import pytermor.color as C
import pytermor.ansi as A

BOOLS = ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined']
CODE = {'blink': 5, 'bold': 1, 'crosslined': 9, 'dim': 2, 'double_underlined': 21, 'inversed': 7, 'italic': 3,
        'overlined': 53, 'underlined': 4}
PROPS = ['fg', 'bg'] + BOOLS + ['class_name']


def same_value(ctx, prop, got, want, name):
    if prop in ('fg', 'bg'):
        if want is None:
            want = C.NOOP_COLOR
        if isinstance(want, str):
            want = getattr(C.Colors, want.upper())
        if isinstance(want, int) and not isinstance(want, bool) or isinstance(want, S.SInt):
            ctx.ensure(isinstance(got, C.ColorRGB), name + ' (RGB colour)')
            ctx.ensure_eq(ctx.get(got, 'hex_value'), want, name)
        else:
            ctx.ensure(got is want, name, f'{got!r} is not {want!r}')
    else:
        ctx.ensure(got is want or got == want and type(got) is type(want), name, f'{got!r} is not {want!r}')


def values_of(prop):
    if prop in ('fg', 'bg'):
        return [None, C.Colors.RED, C.Colors.GREY_82, 'int', C.NOOP_COLOR, 'green', 'Grey_50']
    if prop == 'class_name':
        return [None, 'a', 'b', '']
    return [None, False, True]


def check_all(ctx, child, parent, own, inherited, snapshot):
    for p in PROPS:
        want = own[p] if own.get(p) is not None else inherited.get(p)
        same_value(ctx, p, ctx.get(child, p), want, f'{p} of the style')
        if parent is not None:
            ctx.ensure(ctx.get(parent, p) is snapshot[p], f'{p} of the parent is not modified')


def check_flip(ctx, child):
    fg, bg = ctx.get(child, 'fg'), ctx.get(child, 'bg')
    others = {p: ctx.get(child, p) for p in PROPS[2:]}
    r = ctx.call(R.Style.flip, child)
    ctx.ensure(r is child, 'flip returns the style')
    ctx.ensure(ctx.get(child, 'fg') is bg and ctx.get(child, 'bg') is fg, 'flip exchanges the colours')
    for p, v in others.items():
        ctx.ensure(ctx.get(child, p) is v, f'flip keeps {p}')
    ctx.call(R.Style.flip, child)
    ctx.ensure(ctx.get(child, 'fg') is fg and ctx.get(child, 'bg') is bg, 'flipping twice restores the style')
    for p, v in others.items():
        ctx.ensure(ctx.get(child, p) is v, f'flipping twice keeps {p}')


@contract('P09.inherit', ['P09'], native=3000, native_thorough=60000)
def _(ctx):
    """each property, each combination of own and inherited value, the other properties set nowhere / by one / by both"""
    p = ctx.choice('property', PROPS)
    vals = values_of(p)
    a = vals[ctx.choice('own', list(range(len(vals))))]
    b = vals[ctx.choice('parent', list(range(len(vals))))]
    rest = ctx.choice('rest', ['unset', 'own', 'parent', 'both'])
    if a == 'int':
        a = ctx.int('own_hex', 0, 0xffffff)
    if b == 'int':
        b = ctx.int('parent_hex', 0, 0xffffff)
    own, inh = {p: a}, {p: b}
    for n, q in enumerate(PROPS):
        if q == p:
            continue
        if rest in ('own', 'both'):
            own[q] = C.Colors.GREEN if q in ('fg', 'bg') else 'own' if q == 'class_name' else bool(n % 2)
        if rest in ('parent', 'both'):
            inh[q] = C.Colors.GREY_50 if q in ('fg', 'bg') else 'inh' if q == 'class_name' else not n % 2
    parent = ctx.call(R.Style, **inh)
    snap = {q: ctx.get(parent, q) for q in PROPS}
    child = ctx.call(R.Style, parent, **own)
    check_all(ctx, child, parent, own, inh, snap)
    check_flip(ctx, child)
    for q in PROPS:
        ctx.ensure(ctx.get(parent, q) is snap[q], f'{q} of the parent is not modified by flip')


@contract('P09.no_parent', ['P09'], native=200)
def _(ctx):
    """without a parent (also None) everything not set is unset"""
    p = ctx.choice('property', PROPS)
    vals = values_of(p)
    a = vals[ctx.choice('own', list(range(len(vals))))]
    if a == 'int':
        a = ctx.int('own_hex', 0, 0xffffff)
    st = ctx.call(R.Style, None, **{p: a}) if ctx.bool('explicit') else ctx.call(R.Style, **{p: a})
    check_all(ctx, st, None, {p: a}, {}, {})
    check_flip(ctx, st)


def rnd_style(rng, parent=None):
    kw = {}
    for p in PROPS:
        if rng.random() < .4:
            kw[p] = rng.choice([v if v != 'int' else rng.randrange(1 << 24) for v in values_of(p)] +
                               ([rng.choice(COLORS)] * 2 if p in ('fg', 'bg') else []))
    return kw


COLORS = [getattr(C.Colors, n) for n in dir(C.Colors) if isinstance(getattr(C.Colors, n), C.Color)]


def take_style(ctx, name):
    """random style description (native runs only): {property: value or ('color', name)}"""
    def gen():
        d = {}
        for p in PROPS:
            if ctx.rng.random() < .45:
                if p in ('fg', 'bg'):
                    d[p] = ctx.rng.choice([None, ctx.rng.randrange(1 << 24), 'c%d' % ctx.rng.randrange(len(COLORS)), 'noop', 'n' + ctx.rng.choice(['red', 'Hi_Cyan', 'GREY_50'])])
                elif p == 'class_name':
                    d[p] = ctx.rng.choice([None, 'x', 'y', ''])
                else:
                    d[p] = ctx.rng.choice([None, False, True])
        return d
    d = ctx._take(name, gen)
    return {p: C.NOOP_COLOR if p in ('fg', 'bg') and v == 'noop' else v[1:] if p in ('fg', 'bg') and isinstance(v, str) and v[0] == 'n' else COLORS[int(v[1:]) % len(COLORS)] if p in ('fg', 'bg') and isinstance(v, str) else v for p, v in d.items()}


@contract('P09.joint', ['P09'], native=4000, proof=False)
def _(ctx):
    """random joint settings of all properties, chains of two parents"""
    g, inh, own = (take_style(ctx, n) for n in ('grand', 'parent', 'own'))
    grand = ctx.call(R.Style, **g)
    gs = {q: ctx.get(grand, q) for q in PROPS}
    parent = ctx.call(R.Style, grand, **inh)
    check_all(ctx, parent, grand, inh, g, gs)
    ps = {q: ctx.get(parent, q) for q in PROPS}
    child = ctx.call(R.Style, parent, **own)
    check_all(ctx, child, parent, own, {q: inh[q] if inh.get(q) is not None else g.get(q) for q in PROPS}, ps)
    check_flip(ctx, child)


# ------------------------------------------------------------------------------------------------ P08
def mk_text(ctx, pieces):
    t = ctx.call(R.Text, *pieces[0])
    return t


def pieces_of(ctx, t):
    return [(ctx.get(r, '_string'), ctx.get(r, '_style')) for r in ctx.items(ctx.get(t, '_runs'))]


class Recorder:
    """renderer that shows which text is rendered with which style"""
    seen = None

    @classmethod
    def render(cls, text, style):
        cls.seen.append((text, style))
        return text
    render.__func__._kv_symbolic = True


ST = [None, R.Style(fg=C.Colors.RED), R.Style(bold=True), 'blue']


def check_style(ctx, got, want):
    if isinstance(want, str):
        check_all(ctx, got, None, {'fg': want}, {}, {})
    else:
        ctx.ensure(got is want, 'style of the piece')


@contract('P08.ops', ['P08'], native=3000)
def _(ctx):
    """every operation with strings and (composed) texts: order, length, styles, operand unchanged"""
    s = [ctx.str(f's{k}', minlen=1) for k in range(5)]
    st = ST[ctx.choice('style', [0, 1, 3])]
    st2 = ST[ctx.choice('style2', [0, 2, 3])]
    t = ctx.call(R.Text, s[0], st)
    want = [(s[0], st)]
    if ctx.bool('two_runs'):
        ctx.call(R.Text.append, t, s[4])
        want = want + [(s[4], None)]
    op = ctx.choice('op', ['append', 'prepend', 'add', 'radd', 'iadd'])
    kind = ctx.choice('operand', ['str', 'text', 'text2'])
    if kind == 'str':
        x, add = s[1], [(s[1], None)]
    else:
        x, add = ctx.call(R.Text, s[1], st2), [(s[1], st2)]
        if kind == 'text2':
            ctx.call(R.Text.append, x, ctx.call(R.Text, s[2], ST[1]))
            add = add + [(s[2], ST[1])]
    f = {'append': R.Text.append, 'prepend': R.Text.prepend, 'add': R.Text.__add__, 'radd': R.Text.__radd__,
         'iadd': R.Text.__iadd__}[op]
    r = ctx.call(f, t, x)
    if op in ('add', 'radd', 'iadd'):
        ctx.ensure(isinstance(r, R.Text), 'a text is returned')
        t = r
    want = add + want if op in ('prepend', 'radd') else want + add
    check_text(ctx, t, want)
    if kind != 'str':
        check_text(ctx, x, add)
    # a further piece must not reach the text that was added
    if ctx.bool('further_prepend'):
        ctx.call(R.Text.prepend, t, s[3])
        want = [(s[3], None)] + want
    else:
        ctx.call(R.Text.append, t, s[3])
        want = want + [(s[3], None)]
    check_text(ctx, t, want)
    if kind != 'str':
        check_text(ctx, x, add)


def check_text(ctx, t, want):
    raw = want[0][0]
    n = ctx.len(want[0][0])
    for w, _ in want[1:]:
        raw = ctx.cat(raw, w)
        n = n + ctx.len(w)
    ctx.ensure_eq(ctx.call(R.Text.raw, t), raw, 'raw content in order')
    ctx.ensure_eq(ctx.call(R.Text.__len__, t), n, 'length of the content')
    Recorder.seen = []
    out = ctx.call(R.Text._render_using, t, Recorder)
    ctx.ensure_eq(out, raw, 'rendered in order')
    styled = [(w, st) for w, st in want if st is not None and (ctx.symbolic or w)]
    seen = [x for x in Recorder.seen if ctx.symbolic or x[0]]
    ctx.ensure(len(seen) == len(styled), 'exactly the styled pieces are rendered with a style')
    for (a, b), (c, d) in zip(seen, styled):
        ctx.ensure_eq(a, c, 'styled piece')
        check_style(ctx, b, d)


@contract('P08.bad', ['P08'], native=30)
def _(ctx):
    """anything else is refused"""
    t = ctx.call(R.Text, ctx.str('s', minlen=1))
    x = ctx.choice('x', [1, None, b'a', ['a']])
    f = ctx.choice('f', ['append', 'prepend', '__add__', '__radd__', '__iadd__'])
    _, ex = ctx.attempt(getattr(R.Text, f), t, x)
    ctx.ensure(isinstance(ex, TypeError), 'TypeError')


@contract('P08.history', ['P08'], native=3000, proof=False)
def _(ctx):
    """random histories over several texts"""
    hist = ctx._take('history', lambda: [[ctx.rng.randrange(5), ctx.rng.randrange(3), ctx.rng.randrange(4),
                                          ctx.rng.choice(['', 'a', 'bc', 'x\ny', 'é'])] for _ in range(ctx.rng.randrange(1, 8))])
    texts, want = [], []
    first = ctx._take('first', lambda: [ctx.rng.choice(['', 't%d' % k]) for k in range(3)])
    for k in range(3):
        st = ST[k]
        texts.append(R.Text(first[k], st))
        want.append([(first[k], st)])
    for op, i, j, s in hist:
        if j == 3:
            x, add = s, [(s, None)]
        else:
            x, add = texts[j], list(want[j])
        if op == 0:
            texts[i].append(x)
        elif op == 1:
            texts[i].prepend(x)
        elif op == 2:
            texts[i] = texts[i] + x
        elif op == 3 and isinstance(x, str):
            texts[i] = x + texts[i]
        elif op == 3:
            texts[i] = texts[i].__radd__(x)
        else:
            v = texts[i]
            v += x
            texts[i] = v
        want[i] = add + want[i] if op in (1, 3) else want[i] + add
        if len(want[i]) > 40:
            break
        for t, w in zip(texts, want):
            check_text(ctx, t, w)


class Runs:
    """arbitrarily many runs: strings are consecutive pieces of one arbitrary text, styles are arbitrary"""
    def __init__(self, ctx, name):
        self.src = S.Source('txt_' + name, 'str', 32, 0xd7ff)
        ctx.register(self.src)
        self.off = z3.Function('off_' + name, S.INT, S.INT)
        self.sty = z3.Function('sty_' + name, S.INT, z3.BoolSort())
        self.n = z3.Int('n_' + name)
        ctx.eng.add(z3.And(self.n >= 0, self.off(0) == 0))
        self.style = ST[1]
        self.ctx = ctx

    def text(self, i): return S.Rope('str', [S.Slice(self.src, self.off(i), self.off(i + 1))])

    def run(self, i, style):
        return self.ctx.make(R.Text._TextRun('a'), _string=self.text(i), _style=style)

    def family(self, lo=0, hi=None):
        bv = z3.Int('?run')
        fs = [self.off(bv) <= self.off(bv + 1)]
        return S.Flat(bv, lo, self.n if hi is None else hi, [(self.sty(bv), fs, [self.run(bv, self.style)]),
                                                            (z3.Not(self.sty(bv)), fs, [self.run(bv, None)])])

    def raw(self): return S.Rope('str', [S.Slice(self.src, self.off(z3.IntVal(0)), self.off(self.n))])


@contract('P08.family', ['P08'], native=0)
def _(ctx):
    """texts of arbitrarily many runs each"""
    a, b = Runs(ctx, 'a'), Runs(ctx, 'b')
    t = ctx.call(R.Text, 'x')
    x = ctx.call(R.Text, 'x')
    ctx.set(t, '_runs', S.VList([a.family()]))
    ctx.set(x, '_runs', S.VList([b.family()]))
    ctx.ensure_eq(ctx.call(R.Text.raw, t), a.raw(), 'raw content of the runs in order')
    ctx.ensure_eq(ctx.call(R.Text.__len__, t), ctx.len(a.raw()), 'length of the content')
    op = ctx.choice('op', ['append', 'prepend', '__add__', '__radd__', '__iadd__'])
    kind = ctx.choice('operand', ['text', 'str'])
    s = ctx.str('s', minlen=1)
    r = ctx.call(getattr(R.Text, op), t, x if kind == 'text' else s)
    t = r if op.startswith('__') else t
    runs = ctx.get(t, '_runs')
    if kind == 'text':
        ctx.ensure_eq(ctx.get(x, '_runs'), S.VList([b.family()]), 'the text that was added is unchanged')
        want = [b.family(), a.family()] if op in ('prepend', '__radd__') else [a.family(), b.family()]
        ctx.ensure_eq(runs, S.VList(want), 'all runs in order, each with its own style')
        raws = [b.raw(), a.raw()] if op in ('prepend', '__radd__') else [a.raw(), b.raw()]
        ctx.ensure_eq(ctx.call(R.Text.raw, t), ctx.cat(*raws), 'raw content')
    else:
        new = ctx.make(R.Text._TextRun('a'), _string=s, _style=None)
        want = [S.Lit([new]), a.family()] if op in ('prepend', '__radd__') else [a.family(), S.Lit([new])]
        ctx.ensure_eq(runs, S.VList(want), 'all runs in order, the string carries no style')
    ctx.call(R.Text.append, t, 'later')
    ctx.ensure_eq(ctx.get(x, '_runs'), S.VList([b.family()]), 'later pieces do not reach the text that was added')


# ------------------------------------------------------------------------------------------------ P06 / P07
COLOR_PICKS = [None, C.Colors.RED, C.Colors.HI_CYAN, C.Colors.GREY_82, C.Colors.PURPLE_3, C.Colors.RGB_GREY_4, 'rgb']
TMUX_ATTR = {'bold': 'bold', 'dim': 'dim', 'italic': 'italics', 'underlined': 'underscore', 'blink': 'blink',
             'inversed': 'reverse', 'crosslined': 'strikethrough', 'double_underlined': 'double-underscore',
             'overlined': 'overline'}
TMUX_OFF = {'nobold': ['bold'], 'nodim': ['dim'], 'noitalics': ['italics'], 'nounderscore': ['underscore', 'double-underscore'],
            'noblink': ['blink'], 'noreverse': ['reverse'], 'nostrikethrough': ['strikethrough'], 'nooverline': ['overline']}
TMUX_NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']


class FakeOut:
    """stands in for the standard output"""
    def __init__(self, tty): self.tty = tty
    def isatty(self): return self.tty
    def write(self, s): return len(s)
    def flush(self): pass


def set_up(ctx, force, c256=False, c16=False, tty=False, direct=True):
    if direct:
        ctx.call(R.SgrRenderer.set_up, force, c256, c16)
    for a in ('_force_styles', '_compatibility_256_colors', '_compatibility_16_colors'):
        pass
    import sys
    ctx.set(sys, 'stdout', FakeOut(tty))


class Cfg:
    """sets the renderer up through its public method and restores it afterwards"""
    def __init__(self, ctx, force, c256=False, c16=False, tty=False):
        import sys
        self.ctx, self.a, self.tty = ctx, (force, c256, c16), tty

    def __enter__(self):
        import sys
        self.saved = {k: v for k, v in R.SgrRenderer.__dict__.items() if isinstance(v, bool) or v is None}
        self.out = sys.stdout
        R.SgrRenderer.set_up(*self.a)
        sys.stdout = FakeOut(self.tty)

    def __exit__(self, *_):
        import sys
        sys.stdout = self.out
        for k, v in self.saved.items():
            setattr(R.SgrRenderer, k, v)


def color_params(c, bg):
    """native form of a colour"""
    if c is None or c.hex_value is None:
        return []
    if isinstance(c, C.ColorIndexed16):
        i = HEX16.index(c.hex_value)
        return [(40 if bg else 30) + i if i < 8 else (100 if bg else 90) + i - 8]
    if isinstance(c, C.ColorIndexed256):
        return [48 if bg else 38, 5, c._code]
    v = c.hex_value
    return [48 if bg else 38, 2, v >> 16, v >> 8 & 255, v & 255]


HEX16 = [0x000000, 0x800000, 0x008000, 0x808000, 0x000080, 0x800080, 0x008080, 0xc0c0c0,
         0x808080, 0xff0000, 0x00ff00, 0xffff00, 0x0000ff, 0xff00ff, 0x00ffff, 0xffffff]


def hex256(code):
    """the xterm 256-colour palette"""
    if code < 16:
        return HEX16[code]
    if code < 232:
        v = [0, 95, 135, 175, 215, 255]
        k = code - 16
        return v[k // 36] << 16 | v[k // 6 % 6] << 8 | v[k % 6]
    k = 8 + 10 * (code - 232)
    return k << 16 | k << 8 | k


def dist(a, b):
    return sum((((a >> s) & 255) - ((b >> s) & 255)) ** 2 for s in (0, 8, 16))


def nearest16(v):
    """codes 0-15 of all nearest colours"""
    m = min(dist(v, h) for h in HEX16)
    return [i for i, h in enumerate(HEX16) if dist(v, h) == m]


def nearest256(v):
    m = min(dist(v, hex256(k)) for k in range(16, 256))
    return [k for k in range(16, 256) if dist(v, hex256(k)) == m]


def split_params(ps):
    """parameter list -> list of units"""
    out, i = [], 0
    while i < len(ps):
        n = 1
        if ps[i] in (38, 48) and i + 1 < len(ps):
            n = 3 if ps[i + 1] == 5 else 5 if ps[i + 1] == 2 else 1
        out.append(tuple(ps[i:i + n]))
        i += n
    return out


def allowed_units(style, c16, c256):
    """for every unit that has to be switched on: the set of acceptable units"""
    req = [{(CODE[b],)} for b in BOOLS if getattr(style, b)]
    for col, bg in ((style.fg, False), (style.bg, True)):
        if col.hex_value is None:
            continue
        kind = 16 if isinstance(col, C.ColorIndexed16) else 256 if isinstance(col, C.ColorIndexed256) else 0
        if c16 and kind != 16:
            req.append({((40 if bg else 30) + i if i < 8 else (100 if bg else 90) + i - 8,) for i in nearest16(col.hex_value)})
        elif c256 and kind == 0:
            req.append({(48 if bg else 38, 5, k) for k in nearest256(col.hex_value)})
        else:
            req.append({tuple(color_params(col, bg))})
    return req


def match_units(units, req):
    units = list(units)
    for r in req:
        hit = [u for u in units if u in r]
        if not hit:
            return False
        units.remove(hit[0])
    return not units


def sgr_of(text):
    """parameters of a text made of SGR sequences only, None otherwise"""
    if not re.fullmatch('(\x1b\\[[0-9;]*m)*', text):
        return None
    out = []
    for m in re.finditer('\x1b\\[([0-9;]*)m', text):
        out += [int(x or 0) for x in m.group(1).split(';')]
    return out


def check_sgr_decoration(ctx, op, cl, style, c16, c256, allowed=True):
    from kv.contracts.p_pairity import apply, RESET
    o, c = sgr_of(op), sgr_of(cl)
    ctx.ensure(o is not None and c is not None, 'only SGR sequences are added', f'{op!r} {cl!r}')
    req = allowed_units(style, c16, c256) if allowed else []
    ctx.ensure(match_units(split_params(o), req), 'exactly the attributes and colours of the style are switched on',
               f'{o} for {style!r}')
    if not req:
        ctx.ensure(op == '' and cl == '', 'nothing is added', f'{op!r} {cl!r}')
    end = apply(apply({}, o), c)
    ctx.ensure(not end, 'everything is switched off again', f'{op!r} {cl!r}')


def tmux_fold(ctx, text, state):
    ctx.ensure(re.fullmatch(r'(#\[[^\]]*\])*', text) is not None, 'only tmux style blocks are added', repr(text))
    state = dict(state)
    for m in re.finditer(r'#\[([^\]]*)\]', text):
        for w in m.group(1).split():
            k, _, v = w.partition('=')
            if k in ('fg', 'bg') and v == 'default':
                state.pop(k, None)
            elif k in ('fg', 'bg'):
                state[k] = v
            elif w in TMUX_OFF:
                for x in TMUX_OFF[w]:
                    state.pop(x, None)
            else:
                ctx.ensure(w in TMUX_ATTR.values(), 'known tmux attribute', w)
                state[w] = True
    return state


def tmux_color(unit):
    p = unit[0]
    if p in (38, 48):
        return f'color{unit[2]}' if unit[1] == 5 else '#%02x%02x%02x' % unit[2:]
    base = p - (100 if p >= 100 else 90 if p >= 90 else 40 if p >= 40 else 30)
    return ('bright' if p >= 90 else '') + TMUX_NAMES[base]


def check_tmux_decoration(ctx, op, cl, style, c16, c256, allowed=True):
    st = tmux_fold(ctx, op, {})
    want = {TMUX_ATTR[b] for b in BOOLS if getattr(style, b)} if allowed else set()
    ctx.ensure({k for k in st if k not in ('fg', 'bg')} == want, 'exactly the attributes of the style are switched on', repr(op))
    for col, key, bg in ((style.fg, 'fg', False), (style.bg, 'bg', True)):
        if not allowed or col.hex_value is None:
            ctx.ensure(key not in st, f'no {key}')
            continue
        only = R.Style(**{key: col})
        acc = allowed_units(only, c16, c256)[0]
        ctx.ensure(st.get(key) in {tmux_color(u) for u in acc}, f'{key} of the style', f'{st.get(key)} {acc}')
    ctx.ensure(tmux_fold(ctx, cl, st) == {}, 'everything is switched off again', f'{op!r} {cl!r}')


RENDERERS = {'sgr': R.SgrRenderer, 'tmux': R.TmuxRenderer, 'noop': R.NoOpRenderer, 'html': R.HtmlRenderer, 'debug': R.DebugRenderer}


def decoration(ctx, kind, style):
    """what the renderer puts before and after a line, observed on the real code"""
    probe = 'Qq'
    out = RENDERERS[kind].render(probe, style)
    ctx.ensure(out.count(probe) == 1, 'the text appears exactly once', repr(out))
    return out.split(probe)


def check_decoration(ctx, kind, op, cl, style, c16, c256, allowed):
    if kind == 'sgr':
        check_sgr_decoration(ctx, op, cl, style, c16, c256, allowed)
    elif kind == 'tmux':
        check_tmux_decoration(ctx, op, cl, style, c16, c256, allowed)
    elif kind == 'noop':
        ctx.ensure(op == '' and cl == '', 'nothing is added')
    elif kind == 'html':
        ctx.ensure(re.fullmatch(r'<span( class="[^">]*")? style="[^">]*">', op) is not None and cl == '</span>',
                   'one enclosing span', f'{op!r} {cl!r}')
    else:
        o = [int(x or 0) for m in re.finditer(r'\|ǝ([0-9;]*)\|', op) for x in m.group(1).split(';')]
        c = [int(x or 0) for m in re.finditer(r'\|ǝ([0-9;]*)\|', cl) for x in m.group(1).split(';')]
        ctx.ensure(re.fullmatch(r'(\|ǝ[0-9;]*\|)*', op + cl) is not None, 'only markers are added', f'{op!r} {cl!r}')
        check_sgr_decoration(ctx, ('\x1b[' + ';'.join(map(str, o)) + 'm') if o else '',
                             ('\x1b[' + ';'.join(map(str, c)) + 'm') if c else '', style, c16, c256, True)


@contract('P06.decoration', ['P06', 'P07'], native=1, proof=True)
def _(ctx):
    """complete enumeration: every combination of the nine attributes, every kind of colour, formatting allowed or not,
    every compatibility mode - what is put around a line is exactly what the style says and is undone behind it"""
    for force, tty in ((True, False), (None, True), (False, False), (False, True)):
        allowed = force is True or force is False and tty
        for c256, c16 in ((False, False), (True, False), (False, True), (True, True)):
            with Cfg(ctx, force, c256, c16, tty):
                for mask in range(512):
                    full = mask in (0, 1, 511)
                    if not full and (c256 or c16 or not allowed):
                        continue
                    for fg, bg in ([(a, b) for a in COLOR_PICKS for b in COLOR_PICKS] if full else
                                   [(None, None), (C.Colors.RED, C.Colors.GREY_82)]):
                        fg, bg = (0x123457 if x == 'rgb' else x for x in (fg, bg))
                        kw = {b: bool(mask >> n & 1) or (None if n % 2 else False) for n, b in enumerate(BOOLS)}
                        st = R.Style(fg=fg, bg=bg, **kw)
                        for kind in RENDERERS:
                            if kind == 'html' and not full:
                                continue
                            op, cl = decoration(ctx, kind, st)
                            check_decoration(ctx, kind, op, cl, st, c16, c256, allowed)


def sort_words(ctx, v):
    """the order of the words of a CSS value comes from the iteration order of a set: compare them as sets"""
    def srt(t):
        return re.sub(r':[^;"]*', lambda m: ': ' + ' '.join(sorted(m.group().strip(': ').split())), t)
    if not isinstance(v, S.Rope):
        m = re.match(r'<span[^>]*>', v)
        return srt(m.group()) + v[m.end():] if m else v
    ps = list(v.parts)
    if ps and isinstance(ps[0], S.Lit):
        ps[0] = S.Lit(srt(ps[0].v))
    return S.norm(S.Rope('str', ps))


@contract('P06.render', ['P06'], native=3000)
def _(ctx):
    """any text: every line is the line itself between the same opening and closing, nothing else"""
    kind = ctx.choice('renderer', sorted(RENDERERS))
    text = ctx.str('text', lo=32 if kind == 'debug' else 0, alphabet='ab\n\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029 |#[]<>')
    if ctx.symbolic:  # what is put around a line is covered for every style by P06.decoration
        force, tty, c256, c16, mask, fg, bg, cls = ctx.choice('case', [
            (True, False, False, False, 511, 0, 4, None), (True, False, False, False, 12, 6, 0, 'warn'),
            (None, True, True, False, 0, 6, 1, None), (True, False, False, True, 1, 1, 6, None),
            (False, False, False, False, 511, 3, 4, 'warn'), (False, True, False, False, 1, 0, 0, None),
            (True, False, False, False, 0, 0, 0, None)])
    else:
        force, tty = ctx.choice('force', [(True, False), (None, True), (False, False), (False, True)])
        c256, c16 = ctx.choice('compat', [(False, False), (True, False), (False, True)])
        mask = ctx.choice('mask', [0, 1, 12, 511])
        fg, bg = (ctx.choice(n, list(range(len(COLOR_PICKS)))) for n in ('fg', 'bg'))
        cls = ctx.choice('class', [None, 'warn'])
    fg, bg = (0x123457 if x == 'rgb' else x for x in (COLOR_PICKS[fg], COLOR_PICKS[bg]))
    st = R.Style(fg=fg, bg=bg, class_name=cls, **{b: bool(mask >> n & 1) for n, b in enumerate(BOOLS)})
    with Cfg(ctx, force, c256, c16, tty):
        op, cl = decoration(ctx, kind, st)
        check_decoration(ctx, kind, op, cl, st, c16, c256, force is True or force is False and tty)
        out = ctx.call(RENDERERS[kind].render, text, st)
    if kind == 'html':
        out = sort_words(ctx, out)
        ctx.ensure_eq(out, ctx.cat(sort_words(ctx, op), text, cl), 'the text unchanged inside one decoration')
    elif kind == 'noop':
        ctx.ensure_eq(out, text, 'the text unchanged')
    elif ctx.symbolic:
        from kv.engine.interp import split_lines
        if not text.parts:
            lines = S.VList([])
        else:
            lines = split_lines(text.parts[0], True)
        fam = lines.parts[0]
        want = S.Rope('str', S.Rope('str', [S.Flat(fam.bv, fam.lo, fam.hi, [
            (g, fs, S.norm(S.Rope('str', [*S.parts_of(op), *t[0].parts, *S.parts_of(cl)]))) for g, fs, t in fam.cases])]).parts)
        if op == '' and cl == '':
            want = text
        ctx.ensure_eq(out, want, 'every line inside its own decoration, in order')
    else:
        ctx.ensure_eq(out, ''.join(op + x + cl for x in text.splitlines(keepends=True)), 'every line inside its own decoration')


@contract('P06.text', ['P06'], native=1500)
def _(ctx):
    """rendering through texts: pieces without style are passed through, styled ones as rendered by the renderer"""
    s1, s2 = ctx.str('s1', minlen=1, lo=1), ctx.str('s2', minlen=1, lo=1)
    kind = ctx.choice('renderer', ['sgr', 'tmux', 'noop', 'html'])
    st = R.Style(fg=C.Colors.RED, bold=True)
    with Cfg(ctx, True):
        t = ctx.call(R.Text, s1, st)
        ctx.call(R.Text.append, t, s2)
        out = ctx.call(R.Text._render_using, t, RENDERERS[kind])
        ctx.ensure_eq(out, ctx.cat(ctx.call(RENDERERS[kind].render, s1, st), s2), 'pieces in order')


# ---- P07
def palette16(): return [getattr(C.Colors, n) for n in vars(C.Colors) if isinstance(getattr(C.Colors, n), C.ColorIndexed16)]


@contract('P07.palette', ['P07', 'P05'], native=1)
def _(ctx):
    """the registered palettes are those of the terminal: 16 colours with their codes, 240 colours with theirs"""
    cols = [v for v in vars(C.Colors).values() if isinstance(v, C.Color)]
    c16 = [v for v in cols if isinstance(v, C.ColorIndexed16)]
    ctx.ensure(sorted(c.hex_value for c in c16) == sorted(HEX16), 'the 16 colours')
    for c in c16:
        for bg in (False, True):
            ctx.ensure(list(c.to_sgr(bg=bg).params) == color_params(c, bg), f'codes of {c!r}')
    c256 = [v for v in cols if isinstance(v, C.ColorIndexed256)]
    ctx.ensure(sorted(c._code for c in c256) == list(range(16, 256)), 'the 240 colours')
    for c in c256:
        ctx.ensure(c.hex_value == hex256(c._code), f'value of {c!r}')
        for bg in (False, True):
            ctx.ensure(list(c.to_sgr(bg=bg).params) == color_params(c, bg), f'codes of {c!r}')


@contract('P07.render_color', ['P07', 'P06'], native=3000)
def _(ctx):
    """any colour value: the form of the mode; the substitute is what the palette search (P05) returns"""
    force, tty = ctx.choice('force', [(True, False), (None, True), (False, False), (False, True)])
    c256, c16 = ctx.choice('compat', [(False, False), (True, False), (False, True), (True, True)])
    bg = ctx.bool('bg')
    kind = ctx.choice('kind', ['rgb', '256', '16', 'none'])
    v = ctx.int('value', 0, 0xffffff)
    code = ctx.int('code', 0, 255)
    allowed = force is True or force is False and tty
    k16 = ctx.choice('k16', list(range(16)) if kind == '16' else [0])
    if kind == 'rgb':
        col = C.ColorRGB(0)
        ctx.set(col, '_hex_value', v)
    elif kind == '256':
        col = ctx.make(C.Colors.GREY_82, _hex_value=v, _code=code) if ctx.symbolic else mk256(v, code)
    elif kind == '16':
        col = palette16()[k16]
    else:
        col = C.NOOP_COLOR
    asked = []
    sub16 = palette16()[ctx.choice('sub16', list(range(16)))] if ctx.symbolic and c16 and kind in ('rgb', '256') and allowed else None
    subcode = ctx.int('subcode', 16, 255)
    if ctx.symbolic:
        def found(cls, hex_value):
            asked.append((cls, hex_value))
            if issubclass(cls, C.ColorIndexed16):
                return sub16
            return ctx.make(C.Colors.GREY_82, _hex_value=0x808080, _code=subcode)
        ctx.stub(C._ColorIndexed.find_closest, found)
    with Cfg(ctx, True):
        ctx.call(R.SgrRenderer._render_color, col, ctx.Not(bg))     # an earlier use of the same colour, on the other side
    with Cfg(ctx, force, c256, c16, tty):
        r = ctx.call(R.SgrRenderer._render_color, col, bg)
    got = ctx.items(ctx.get(r, 'params'))
    base = 48 if bg else 38
    if not allowed or kind == 'none':
        ctx.ensure(len(got) == 0, 'nothing is emitted', str(got))
        return
    if kind == '16':
        ctx.ensure_eq(ctx.list(got), ctx.list(color_params(col, bg)), 'own code')
        return
    if c16:
        ctx.ensure(len(got) == 1, 'one 16-colour code', str(got))
        if ctx.symbolic:
            ctx.ensure(len(asked) == 1 and asked[0][0] is C.ColorIndexed16, 'searched in the 16-colour palette', str(asked))
            ctx.ensure_eq(asked[0][1], v, 'search for the value of the colour')
            ctx.ensure_eq(ctx.list(got), ctx.list(color_params(sub16, bg)), 'the substitute, on the same side')
        else:
            ok = [(40 if bg else 30) + i if i < 8 else (100 if bg else 90) + i - 8 for i in nearest16(v)]
            ctx.ensure(got[0] in ok, 'nearest 16-colour code on the same side', f'{got} {ok}')
    elif kind == 'rgb' and c256:
        ctx.ensure(len(got) == 3, 'a 256-colour code', str(got))
        ctx.ensure_eq(ctx.list(got[:2]), ctx.list([base, 5]), 'indexed form on the same side')
        if ctx.symbolic:
            ctx.ensure(len(asked) == 1 and asked[0][0] is C.ColorIndexed256, 'searched in the 256-colour palette', str(asked))
            ctx.ensure_eq(asked[0][1], v, 'search for the value of the colour')
            ctx.ensure_eq(got[2], subcode, 'the substitute')
        else:
            ctx.ensure(got[2] in nearest256(v), 'nearest of the 256-colour palette', f'{got} {nearest256(v)}')
    elif kind == '256':
        ctx.ensure_eq(ctx.list(got), ctx.list([base, 5, code]), 'indexed form')
    else:
        ctx.ensure(len(got) == 5, 'RGB form')
        ctx.ensure_eq(ctx.list(got), ctx.list([base, 2, v // 65536, v // 256 % 256, v % 256]), 'RGB form of the value')


def mk256(v, code):
    c = object.__new__(C.ColorIndexed256)
    c.__dict__.update(_hex_value=v, _code=code)
    return c


@contract('P07.joint', ['P07', 'P06'], native=4000, proof=False)
def _(ctx):
    """random styles, modes and texts through the SGR and tmux renderers"""
    d = take_style(ctx, 'style')
    kind = ctx.choice('renderer', ['sgr', 'tmux', 'debug'])
    c256, c16 = ctx.bool('c256'), ctx.bool('c16')
    text = ctx.str('text', minlen=1, lo=32, alphabet='ab\n\r\x85 ')
    parent = R.Style(**take_style(ctx, 'parent')) if ctx.bool('inherit') else None
    st = R.Style(parent, **d)
    with Cfg(ctx, True, c256, c16):
        op, cl = decoration(ctx, kind, st)
        check_decoration(ctx, kind, op, cl, st, c16, c256, True)
        out = RENDERERS[kind].render(text, st)
        ctx.ensure_eq(out, ''.join(op + x + cl for x in text.splitlines(keepends=True)), 'every line inside its own decoration')
