"""Bounded stand-ins: the whole program (argument parsing included) run in-process on generated inputs and compared with
the independent specification kv/oracle.  Never counted as proved."""
import re

from kv.engine.harness import contract
from kv.oracle import spec
from kv.oracle.e2e import run_cli, ShortReads
import kv.oracle.e2e as E2E

FRAG = [
    b'\x1b[0m', b'\x1b[m', b'\x1b[1;31m', b'\x1b[38;5;200m', b'\x1b[48;2;1;2;3m', b'\x1b[>4;2m', b'\x1b[;m', b'\x1b[?25h',
    b'\x1b[38:5:3m', b'\x1b[38;5m', b'\x1b[48;2;9;9m', b'\x1b[00m', b'\x1b[0;0m', b'\x1b[1 m', b'\x1b[ m', b'\x1b[0!m',
    b'\x1b[2J', b'\x1b[10;20H', b'\x1b[1 q', b'\x1b[', b'\x1b[12', b'\x1b[1 ', b'\x1b', b'\x1b\x1b', b'\x1b(B', b'\x1b( /0',
    b'\x1b(', b'\x1b  F', b'\x1b7', b'\x1b=', b'\x1bM', b'\x1b\\', b'\x1b]0;t\x07', b'\x1bc', b'\x1b~', b'\x1b`', b'\x1b\x7f',
    b'\x1b\xc3\xa9', b'\x1b[\xc3\xa9', b'\x1b[1\x1b[2m', b'\x1b[4\n', b'\x1b\n', b'\x1b[1;38;5;1;48;2;1;2;255;7m', b'\x1b[7;38;2;300;0;0m',
    b'\xd0\x9f', b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xf4\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xc0\x80', b'\xc1\xbf',
    b'\xe0\x80\x80', b'\xe0\xa0\x80', b'\xed\x9f\xbf', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xee\x80\x80', b'\xef\xbf\xbd',
    b'\xf0\x80\x80\x80', b'\xf0\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf1\x80\x80', b'\xe2\x82', b'\xe2', b'\xf0\x9f', b'\xc2',
    b'\x80', b'\xbf', b'\xff', b'\xfe\xff', b'\xdf\xbf', b'\xc2\x85', b'\xe2\x80\xa8', b'\xc2\xa0', b'\xc2\x80\x80', b'\xef\xbb\xbf',
    b'\xcc\x81', b'\xe4\xb8\xad', b'\xf3\xa0\x80\x81', b'\xf2\x80\x80\x80', b'\xc2\xe2\x82\xac', b'\xe2\xc3\xa9', b'\x80\xc3\xa9', b'\xff\xe2\x82\xac',
    b'\x00', b'\x00\x00', b'\x01', b'\x07', b'\x08\x08', b'\x0e\x0f', b'\x1a', b'\x1c\x1d\x1e\x1f', b'\x7f', b'\x7f\x7f', b'\x02\x03\x04\x05\x06',
    b'\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19', b'\t', b'\t\t', b'\n', b'\n\n', b'\x0b', b'\x0c\x0c', b'\r', b'\r\n', b' ', b'   ', b' \t ',
    b'a', b'abc', b'hello', b'!~', b'0m', b'[1m', b'0x1f', b'{}', b'line\n', b'end', b'%s', b'\\3', b'\\', b'm',
]


def gen_data(rng, maxfrag=14):
    k = rng.random()
    if k < .08:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))
    if k < .14:
        return bytes(rng.choice(b'\x1b[m\x80\xc3\xa9\n 0a') for _ in range(rng.randrange(0, 24)))
    if k < .2:
        return rng.choice(FRAG) * rng.randrange(1, 12)
    if k < .23:
        return rng.choice([b'a', b'\0', b' ', b'\xe1', b'ab ', b'\x7f', b'\xd0\xb6']) * rng.randrange(20, 90) + rng.choice([b'', b'\n'])
    out = []
    for _ in range(rng.randrange(0, maxfrag)):
        f = rng.choice(FRAG)
        if rng.random() < .12:
            f = f * rng.randrange(2, 5)
        if rng.random() < .06:
            f = f[:rng.randrange(0, len(f) + 1)]
        if rng.random() < .05:
            f += bytes([rng.randrange(256)])
        out.append(f)
    return b''.join(out)


CLS = spec.CLASSES
CHAR_OPTS = [f'{k}_{c}' for k in ('focus', 'ignore') for c in CLS]


def gen_opts(rng, binary=None, p=.12, limits=False):
    o = {}
    for c in CHAR_OPTS:
        if rng.random() < p:
            o[c] = True
    if binary is None:
        binary = rng.random() < .5
    if binary:
        o['binary'] = True
        if rng.random() < .85:
            o['columns'] = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 64, 300])
        else:
            o['term_cols'] = rng.choice([10, 25, 40, 80, 81, 97, 200])
        if rng.random() < .5:
            o['decode'] = True
        if rng.random() < .25:
            o['no_offsets'] = True
        if rng.random() < .3:
            o['decimal_offsets'] = True
    else:
        o['text'] = rng.random() < .5
        if rng.random() < .3:
            o['no_line_numbers'] = True
        if rng.random() < .2:
            o['no_separators'] = True
        if rng.random() < .2:
            o['decode'] = True
    o['marker'] = rng.choice([0, 0, 1, 2])
    if rng.random() < .25:
        o['color_markers'] = True
    if rng.random() < .5:
        o['buffer'] = rng.choice([1, 2, 3, 4, 5, 7, 16, 64])
    if rng.random() < .3:
        o['reads'] = [rng.randrange(1, 7) for _ in range(3)]
    if limits:
        if rng.random() < .6:
            o['max_bytes'] = rng.choice([1, 2, 3, 5, 8, 13, 20, 100])
        if rng.random() < .6:
            o['max_lines'] = rng.choice([1, 1, 2, 3, 4, 10])
    return o


def payload(d, o):
    return spec.limited(d, o.get('max_bytes'), o.get('max_lines'))


def ok_run(ctx, data, o, **kw):
    r = run_cli(data, o, **kw)
    ctx.ensure(not r.timeout, 'ends', f'no end within 10 s {o}')
    ctx.ensure(r.exc is None and r.code in (0, None), 'no error', repr(r))
    return r


class Row:
    def __init__(self, label, hexes, width, chars, raw):
        self.label, self.hexes, self.width, self.chars, self.raw = label, hexes, width, chars, raw


def binary_rows(ctx, out, o):
    """rows of the binary view, the total (or None)"""
    offs = not o.get('no_offsets')
    ctx.ensure(out.endswith('\n'), 'output ends with a line break')
    lines = out.split('\n')
    ctx.ensure(lines[-1] == '' and lines[-2] == '', 'final empty line', repr(lines[-3:]))
    lines = lines[:-2]
    total = None
    if offs:
        ctx.ensure(bool(lines), 'the total is printed')
        v = spec.strip_sgr(lines[-1])
        ctx.ensure(v.endswith('│'), 'total line', v)
        total = v[:-1]
        lines = lines[:-1]
    rows = []
    for raw in lines:
        v = spec.strip_sgr(raw)
        label = None
        if offs:
            ctx.ensure('│' in v, 'row separator', repr(v))
            label, v = v.split('│', 1)
            m = re.match(r'((?: [0-9a-f]{2})*)((?:   )*) │(.*)\Z', v, re.S)
        else:
            m = re.match(r'((?: [0-9a-f]{2})*)((?:   )*)  (.*)\Z', v, re.S)
        ctx.ensure(m is not None, 'row layout', repr(v))
        rows.append(Row(label, m[1], len(m[1]) + len(m[2]), m[3], raw))
    return rows, total


def binary_rows_o(ctx, out, o, n=None):
    """as binary_rows; without offsets the character column may begin with what looks like padding"""
    rows, total = binary_rows(ctx, out, o)
    if o.get('no_offsets') and o.get('columns'):
        cut = 3 * o['columns']
        for r in rows:
            v = spec.strip_sgr(r.raw)
            h = v[:cut]
            r.hexes, r.width = h.rstrip(' '), cut
            ctx.ensure(v[cut:cut + 2] == '  ', 'row layout', repr(v))
            r.chars = v[cut + 2:]
    return rows, total


@contract('E2E.hex_column', ['K01'], proof=False, native=700, native_thorough=30000)
def _(ctx):
    """bounded: hexadecimal column, row sizes, character counts"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, True))
    if o.get('no_offsets') and not o.get('columns'):
        o['no_offsets'] = False
    r = ok_run(ctx, d, o)
    rows, total = binary_rows_o(ctx, r.out, o)
    hexes = ''.join(x.hexes for x in rows)
    ctx.ensure_eq(hexes, ''.join(' %02x' % b for b in d), 'hexadecimal column is the input')
    for k, x in enumerate(rows):
        n = len(x.hexes) // 3
        ctx.ensure_eq(len(x.chars), n, f'one character per byte of the row {k}')
        ctx.ensure_eq(x.width, rows[0].width, 'same width of the column')
        if o.get('columns'):
            ctx.ensure(n == o['columns'] or k == len(rows) - 1 and 0 < n <= o['columns'], f'bytes in row {k}', f'{n}')
            ctx.ensure_eq(x.width, 3 * o['columns'], 'column width')
        else:
            ctx.ensure(n == rows[0].width // 3 or k == len(rows) - 1 and n > 0, f'bytes in row {k}', f'{n}')


@contract('E2E.offsets', ['K02'], proof=False, native=500, native_thorough=20000)
def _(ctx):
    """bounded: offset labels and the total"""
    d = ctx._take('data', lambda: (lambda x: x * ctx.rng.choice([1, 1, 1, 30 if len(x) < 40 else 2]))(gen_data(ctx.rng)))
    o = ctx._take('opts', lambda: dict(gen_opts(ctx.rng, True, limits=ctx.rng.random() < .3), no_offsets=False))
    r = ok_run(ctx, d, o)
    rows, total = binary_rows(ctx, r.out, o)
    off = 0
    d = payload(d, o)

    def check(label, value, what):
        s = label.strip(' ')
        if o.get('decimal_offsets'):
            ctx.ensure_eq(s, str(value), what)
        else:
            ctx.ensure(re.fullmatch('0x[0-9a-f]{4,}', s) and int(s, 16) == value, what, s)
    for k, x in enumerate(rows):
        check(x.label, off, f'offset label of row {k}')
        off += len(x.hexes) // 3
    ctx.ensure_eq(off, len(d), 'bytes shown')
    check(total, len(d), 'total')


@contract('E2E.offset_label', ['K02'], proof=False, native=300)
def _(ctx):
    """bounded: labels of any magnitude"""
    from kolombos.console import Console
    from kolombos.settings import SettingsManager
    n = ctx.int('offset', 0, None, rnd=lambda r: r.choice([r.randrange(10 ** r.randrange(1, 30)), 16 ** r.randrange(0, 20), 10 ** r.randrange(0, 20) - 1]))
    dec = ctx.bool('decimal')
    SettingsManager.init()
    SettingsManager.app_settings.decimal_offsets = dec
    for f in (Console.format_prefix_with_offset, Console.format_total_size):
        v = spec.strip_sgr(ctx.call(f, n))
        ctx.ensure(v.endswith('│'), 'separator')
        s = v[:-1].strip(' ')
        ctx.ensure(dec and s == str(n) or re.fullmatch('0x[0-9a-f]{4,}', s), 'form of the label', s)
        ctx.ensure_eq(int(s, 10 if dec else 16), n, 'reading the label back gives the offset')


def split_text(ctx, r, o):
    out = r.out
    ctx.ensure(out.endswith('\n'), 'final line break')
    return spec.strip_sgr(out[:-1])


def want_text(d, o):
    lines = spec.text_lines(d, o)
    return ''.join(x if o.get('no_line_numbers') else f'{k:2d}│{x}' for k, x in enumerate(lines, 1))


@contract('E2E.text', ['K03', 'K04', 'K05', 'K06', 'K07'], proof=False, native=1500, native_thorough=40000)
def _(ctx):
    """bounded: the whole visible text output equals the specification"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, False))
    r = ok_run(ctx, d, o)
    ctx.ensure_eq(split_text(ctx, r, o), want_text(d, o), 'visible text')


@contract('E2E.binary', ['K01', 'K04', 'K05', 'K06', 'K07'], proof=False, native=1200, native_thorough=40000)
def _(ctx):
    """bounded: the character column equals the specification"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, True))
    if o.get('no_offsets') and not o.get('columns'):
        o['no_offsets'] = False
    r = ok_run(ctx, d, o)
    rows, total = binary_rows_o(ctx, r.out, o)
    ctx.ensure_eq(''.join(x.chars for x in rows), spec.binary_chars(d, o), 'characters')
    ctx.ensure_eq(''.join(x.hexes for x in rows), ''.join(' %02x' % b for b in d), 'hexadecimal column is the input')


@contract('E2E.large', ['K01', 'K02', 'K03', 'K09'], proof=False, native=9, native_thorough=60)
def _(ctx):
    """bounded: inputs of more than 64 KiB, lines of more than 32 KiB, more than 1000 lines (time is not judged)"""
    how = ctx.choice('how', ['binary', 'line', 'lines'])
    n = ctx.int('n', 33000, 70000)
    o = {'marker': 1}
    if how == 'binary':
        d = bytes([ctx.choice('byte', [0, 0x41, 0x20])]) * (n + 33000) + b'\nend \x00'
        o.update(binary=True, columns=ctx.choice('columns', [16, 24, 64]))
    elif how == 'line':
        d = b'a\n' + b'word ' * 30 + b'x' * n + b' end\nlast'
        if ctx.bool('small'):
            o['buffer'] = 512
    else:
        d = b'abc\n' * (1001 + n % 100)
        o['buffer'] = 512
    v = run_cli(d, o, timeout=60)
    if v.timeout:
        return
    ctx.ensure(v.exc is None and v.code in (0, None), 'no error', repr(v)[:300])
    if how != 'binary':
        got, want = split_text(ctx, v, o), want_text(d, o)
        ctx.ensure(got == want, 'visible text', f'{len(got)} {len(want)} characters')
        return
    rows, total = binary_rows(ctx, v.out, o)
    ctx.ensure(''.join(x.hexes for x in rows) == ''.join(' %02x' % b for b in d), 'hexadecimal column is the input')
    ctx.ensure([int(x.label, 16) for x in rows] == list(range(0, len(d), o['columns'])), 'offset labels')
    ctx.ensure_eq(int(total, 16), len(d), 'total')


@contract('E2E.neighbours', ['K04', 'K05'], proof=False, native=32, native_thorough=32)
def _(ctx):
    """bounded: every two-byte input and every lead/continuation boundary of UTF-8, both modes"""
    import itertools
    blobs = []
    b = [bytes([x]) for x in range(256)]
    edge = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
            0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x1b, 0x5b, 0x6d, 0x20, 0x30, 0x40, 0x7e, 0x0a]
    for lead in range(0xc0, 256):
        for k in range(1, 4):
            for c in itertools.product([0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0], repeat=k):
                if k < 3 or c[1] in (0x80, 0xbf) and c[2] in (0x7f, 0x80, 0xbf, 0xc0):
                    blobs.append(bytes([lead, *c]))
    pairs = [x + y for x in b for y in b]
    esc = [b'\x1b' + x + y for x in b for y in [bytes([e]) for e in edge]]
    csi = [b'\x1b[' + bytes([x]) + bytes([y]) + b'm' for x in range(0x1a, 0x82) for y in edge]
    part = ctx.int('part', 0, None, rnd=lambda r: next(PART) % 32)
    from kolombos.console import Console
    ctx.set(Console, 'printd', staticmethod(lambda v, max_input_len=5: ''))  # debugging only, and quadratic
    for k, dd in enumerate(chunks(blobs) + chunks(pairs) + chunks(esc) + chunks(csi)):
        if k % 32 != part:
            continue
        o = {'text': True, 'no_line_numbers': True, 'marker': 2 - k // 32 % 2, 'buffer': 1 << 20}
        same_text(ctx, split_text(ctx, ok_run(ctx, dd, o), o), want_text(dd, o), 'visible text')
        if k // 32 % 4 == 0:
            o = {'binary': True, 'columns': 64, 'decode': True, 'buffer': 1 << 20}
            rows, _t = binary_rows(ctx, ok_run(ctx, dd, o).out, o)
            same_text(ctx, ''.join(x.chars for x in rows), spec.binary_chars(dd, o), 'characters')


PART = iter(range(10 ** 9))


def chunks(xs, n=60):
    return [b'~\n'.join(xs[k:k + n]) for k in range(0, len(xs), n)]


def same_text(ctx, got, want, name):
    k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
    ctx.ensure(got == want, name, f'at {k}: {got[max(0, k - 20):k + 20]!r} != {want[max(0, k - 20):k + 20]!r}')


@contract('E2E.ignore_focus', ['K06'], proof=False, native=500, native_thorough=20000)
def _(ctx):
    """bounded: an option of one class changes exactly the characters of that class"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None, p=.05))
    cls = ctx.choice('cls', CLS)
    kind = ctx.choice('kind', ['focus', 'ignore', 'both'])
    o = {k: v for k, v in o.items() if k not in (f'focus_{cls}', f'ignore_{cls}')}
    o2 = dict(o)
    if kind in ('focus', 'both'):
        o2[f'focus_{cls}'] = True
    if kind in ('ignore', 'both'):
        o2[f'ignore_{cls}'] = True
    if o.get('binary') and o.get('no_offsets'):
        o['no_offsets'] = o2['no_offsets'] = False
    a, b = ok_run(ctx, d, o), ok_run(ctx, d, o2)
    if kind == 'focus':
        va, vb = spec.strip_sgr(a.out), spec.strip_sgr(b.out)
        if cls == 'space':
            va, vb = va.replace('·', '␣'), vb.replace('·', '␣')
        ctx.ensure_eq(vb, va, 'focusing changes no character')
        # formatting of the other classes
    elif o.get('binary'):
        rows, _t = binary_rows(ctx, b.out, o2)
        ctx.ensure_eq(''.join(x.chars for x in rows), spec.binary_chars(d, o2), 'ignored marks')
    else:
        ctx.ensure_eq(split_text(ctx, b, o2), want_text(d, o2), 'ignored marks')
    # the other classes keep their formatting: compare cells of the tokens of the other classes
    ca, cb = token_cells(ctx, a, d, o), token_cells(ctx, b, d, o2)
    if ca is not None and cb is not None:
        for (k1, x), (k2, y) in zip(ca, cb):
            if spec.CLASS_OF[k1] != cls:
                ctx.ensure_eq(y, x, f'formatting of the class {spec.CLASS_OF[k1]} is not affected')


def token_cells(ctx, r, d, o):
    """[(kind, cells)] of every token of the run, or None when the layout cannot be cut (never in practice)"""
    toks = spec.tokens(d)
    cells, _ = spec.cells(r.out[:-1])
    if o.get('binary'):
        if o.get('no_offsets') and not o.get('columns'):
            return None
        # cut rows
        seq = []
        row = []
        for c in cells + [('\n', ())]:
            if c[0] == '\n':
                seq.append(row)
                row = []
            else:
                row.append(c)
        chars = []
        if not o.get('no_offsets'):
            seq = seq[:-1] if seq and not seq[-1] else seq
            seq = seq[:-1]
            for row in seq:
                bars = [k for k, c in enumerate(row) if c[0] == '│']
                chars += row[bars[1] + 1:]
        else:
            for row in seq:
                chars += row[3 * o['columns'] + 2:]
        out, p = [], 0
        for k, t in toks:
            n = len(spec.show(k, t, o))
            out.append((k, tuple(chars[p:p + n])))
            p += n
        return out
    out, p = [], 0
    line = 1
    bol = True
    for k, t in toks:
        s = spec.show(k, t, o)
        if bol and not o.get('no_line_numbers'):
            p += len(f'{line:2d}│')
        bol = False
        out.append((k, tuple(cells[p:p + len(s)])))
        p += len(s)
        if s.endswith('\n'):
            line += 1
            bol = True
    return out


@contract('E2E.formatting', ['K08'], proof=False, native=800, native_thorough=30000)
def _(ctx):
    """bounded: default formatting after each line, formatting of every character equals that of the same token alone,
    no terminal control but SGR"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None))
    if o.get('binary') and o.get('no_offsets') and not o.get('columns'):
        o['no_offsets'] = False
    r = ok_run(ctx, d, o)
    check_controls(ctx, r.out, o)
    cells, state = spec.cells(r.out)
    ctx.ensure_eq(state, {}, 'default formatting at the end')
    ctx.ensure_eq(cells[-1], ('\n', ()), 'default formatting at the end')
    for k, (c, st) in enumerate(cells):
        if c == '\n':
            ctx.ensure(not any(x in ('bg', 'inverse', 'underline', 'over', 'cross') for x, _ in st), 'nothing visible reaches over a line break', repr(st))
    check_prefixes(ctx, r, cells, o)
    got = token_cells(ctx, r, d, o)
    seen = {}
    for (k, t), (_, cs) in zip(spec.tokens(d), got):
        if k == 'nl':
            cs = cs[:1]
        key = (k, t)
        if key not in seen:
            o1 = {x: v for x, v in o.items() if x not in ('buffer', 'reads')}
            if o.get('binary'):
                o1['columns'] = 64 if len(t) < 64 else len(t)
            one = token_cells(ctx, run_cli(t, o1), t, o1)
            seen[key] = one[0][1] if k != 'nl' else one[0][1][:1]
        ctx.ensure_eq(cs, seen[key], f'formatting of {k} {t!r}')


def check_prefixes(ctx, r, cells, o):
    """prefixes and totals have their own formatting only (nothing leaks into them)"""
    lines, cur = [], []
    for c in cells[:-1]:
        cur.append(c)
        if c[0] == '\n':
            lines.append(cur)
            cur = []
    if o.get('binary') and not o.get('no_offsets') or not o.get('binary') and not o.get('no_line_numbers'):
        for k, ln in enumerate(lines):
            text = ''.join(c for c, _ in ln)
            n = text.index('│')
            last = o.get('binary') and k == len(lines) - 1
            for c, st in ln[:n]:
                st = tuple(x for x in st if x[0] != 'bold')
                ctx.ensure(st == (('fg', 36 if last else 32),), 'formatting of the prefix', repr((c, st, text)))
            ctx.ensure(ln[n][1] == (('fg', 36),), 'formatting of the separator', repr(ln[n]))
    if o.get('binary'):
        for ln in lines[:-1]:
            text = ''.join(c for c, _ in ln)
            sep = text.index('│', text.index('│') + 1) if not o.get('no_offsets') else 3 * o['columns']
            lo = text.index('│') + 1 if not o.get('no_offsets') else 0
            for c, st in ln[lo:sep]:
                if c == ' ' and st:
                    pass


def check_controls(ctx, out, o):
    v = spec.strip_sgr(out)
    bad = [c for c in v if (ord(c) < 32 or ord(c) == 127) and c != '\n' and not (c == '\t' and not o.get('binary'))]
    ctx.ensure(not bad, 'no terminal control but SGR', repr(bad[:5]))


@contract('E2E.limits', ['K09'], proof=False, native=700, native_thorough=30000)
def _(ctx):
    """bounded: limits, both modes, any delivery"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None, p=.02, limits=True))
    if o.get('binary') and o.get('no_offsets'):
        o['no_offsets'] = False
    want = payload(d, o)
    r = ok_run(ctx, d, o)
    if o.get('binary'):
        rows, total = binary_rows(ctx, r.out, o)
        ctx.ensure_eq(''.join(x.hexes for x in rows), ''.join(' %02x' % b for b in want), 'exactly the prefix')
        ctx.ensure_eq(''.join(x.chars for x in rows), spec.binary_chars(want, o), 'exactly the prefix (characters)')
    else:
        ctx.ensure_eq(split_text(ctx, r, o), want_text(want, o), 'exactly the prefix')


@contract('E2E.reader', ['K09'], proof=False, native=2000, native_thorough=60000)
def _(ctx):
    """bounded: chunks handed on by the reader"""
    from kolombos.byteio import Reader
    from kolombos.settings import SettingsManager
    import sys
    d = ctx._take('data', lambda: bytes(ctx.rng.choice(b'ab\n') for _ in range(ctx.rng.randrange(0, 30))))
    mb = ctx.int('max_bytes', 0, None, rnd=lambda r: r.choice([0, 0, r.randrange(1, 35)]))
    ml = ctx.int('max_lines', 0, None, rnd=lambda r: r.choice([0, 0, r.randrange(1, 12)]))
    buf = ctx.int('buffer', 1, None, rnd=lambda r: r.randrange(1, 12))
    sizes = ctx._take('sizes', lambda: [ctx.rng.randrange(1, 9) for _ in range(3)])
    SettingsManager.init()
    s = SettingsManager.app_settings
    s.max_bytes, s.max_lines, s.buffer = mb or None, ml or None, buf
    got = []
    rd = Reader(None, lambda b, off, fin: got.append((b, off, fin)))
    old = sys.stdin
    sys.stdin = E2E.FakeStdin(ShortReads(d, sizes))
    try:
        _, ex = ctx.attempt(rd.read)
    finally:
        sys.stdin = old
    ctx.ensure(ex is None, 'no error', repr(ex))
    want = spec.limited(d, mb, ml)
    ctx.ensure_eq(b''.join(x[0] for x in got), want, 'exactly the prefix')
    off = 0
    for b, o, f in got:
        ctx.ensure_eq(o, off, 'contiguous offsets')
        off += len(b)
    ctx.ensure_eq([x[2] for x in got], [False] * (len(got) - 1) + [True], 'end of input exactly once, last')


@contract('E2E.buffer', ['K10'], proof=False, native=700, native_thorough=30000)
def _(ctx):
    """bounded: any buffer size and delivery gives the same output as reading everything at once"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None, p=.05, limits=ctx.rng.random() < .2))
    o = {k: v for k, v in o.items() if k not in ('buffer', 'reads')}
    a = ok_run(ctx, d, dict(o, buffer=1 << 20))
    buf = ctx.int('buffer', 1, None, rnd=lambda r: r.choice([1, 1, 2, 3, 4, 5, 6, 7, 11, 16]))
    reads = ctx._take('reads', lambda: ctx.rng.choice([None, [ctx.rng.randrange(1, 9) for _ in range(4)]]))
    b = ok_run(ctx, d, dict(o, buffer=buf, reads=reads))
    ctx.ensure_eq(spec.strip_sgr(b.out), spec.strip_sgr(a.out), 'same displayed text')
    ca, _ = spec.cells(a.out)
    cb, _ = spec.cells(b.out)
    ctx.ensure_eq(cb, ca, 'same displayed formatting')


def payload_lines(out, o):
    """payload without prefixes of a run without debugging"""
    lines = out.split('\n')[:-2]
    if o.get('binary'):
        lines = lines[:-1]
        return [spec.strip_sgr(x).split('│', 1)[1] for x in lines]
    return [spec.strip_sgr(x) for x in lines]


@contract('E2E.debug', ['K11'], proof=False, native=400, native_thorough=10000)
def _(ctx):
    """bounded: payload under debugging is the same; debug lines only with the option"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None, p=.1))
    lvl = ctx.choice('level', [1, 2, 3, 4])
    if o.get('binary'):
        o['no_offsets'] = False
        o.setdefault('columns', 8)
    else:
        o['no_line_numbers'] = True
    o.setdefault('buffer', 64)
    a = ok_run(ctx, d, o)
    log = []

    def before():
        from kolombos.console import ConsoleOutputBuffer, ConsoleDebugBuffer
        for n in ('write', 'write_with_line_num', 'write_with_offset'):
            orig = getattr(ConsoleOutputBuffer, n)
            patched.append((ConsoleOutputBuffer, n, orig))

            def wrap(self, s, *x, _o=orig, **kw):
                log.append(s)
                return _o(self, s, *x, **kw)
            setattr(ConsoleOutputBuffer, n, wrap)
    patched = []
    b = ok_run(ctx, d, dict(o, debug=lvl))
    check_controls(ctx, b.out, o)
    want = payload_lines(a.out, o)
    got = [spec.strip_sgr(x) for x in b.out.split('\n')]
    if o.get('binary'):
        got2 = [x.split('│', 1)[1] for x in got if '│' in x]
    else:
        got2 = [x.split('│', 1)[1] for x in got if '│' in x]
    p = 0
    for w in want:
        while p < len(got2) and got2[p] != w:
            p += 1
        ctx.ensure(p < len(got2), 'payload unchanged by debugging', f'line {w!r} not found')
        p += 1
    if o.get('binary'):
        ctx.ensure_eq(a.out.split('\n')[:-2], [x for x in a.out.split('\n')[:-2] if x], 'nothing but rows')


@contract('E2E.debug_levels', ['K11'], proof=False, native=150, native_thorough=3000)
def _(ctx):
    """bounded: exactly the messages of the level or lower are printed, as whole lines, in every component"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None, p=.1))
    lvl = ctx.choice('level', [0, 1, 2, 3, 4])
    from kolombos.console import ConsoleDebugBuffer, Console
    calls, printed = [], []
    ow, od = ConsoleDebugBuffer.write, Console.__dict__['debug']

    def w(self, level, s, *a, **k):
        n = len(printed)
        r = ow(self, level, s, *a, **k)
        calls.append((level, s, ''.join(printed[n:])))
        return r

    def dbg(s='', end='\n'):
        printed.append(s + end)
        return od.__func__(s, end)
    ConsoleDebugBuffer.write, Console.debug = w, staticmethod(dbg)
    try:
        r = ok_run(ctx, d, dict(o, debug=lvl))
    finally:
        ConsoleDebugBuffer.write, Console.debug = ow, od
    for level, s, out in calls:
        if level <= lvl:
            ctx.ensure(out.endswith(s + '\n') and out.count('\n') == 1 + s.count('\n'), 'message is printed as whole lines', repr((level, s, out))[:300])
        else:
            ctx.ensure_eq(out, '', f'message of level {level} at {lvl}')
        ctx.ensure(level >= 1, 'level is positive')
    if lvl == 0:
        ctx.ensure_eq(printed, [], 'no debug output')


class Failing(ShortReads):
    def __init__(self, data, sizes, exc):
        super().__init__(data, sizes)
        self.exc = exc

    def read(self, n=-1):
        r = super().read(n)
        if not r:
            raise self.exc
        return r


@contract('E2E.errors', ['K12'], proof=False, native=400, native_thorough=8000)
def _(ctx):
    """bounded: failing sources, files and components; success"""
    d = ctx._take('data', lambda: gen_data(ctx.rng))
    o = ctx._take('opts', lambda: gen_opts(ctx.rng, None, p=.05))
    if o.get('binary') and o.get('no_offsets'):
        o['no_offsets'] = False
    if ctx.bool('debugging'):
        o['debug'] = ctx.choice('level', [1, 2, 3])
    how = ctx.choice('how', ['ok', 'read', 'nofile', 'dir', 'late', 'argument', 'noterm'])
    name = ctx.choice('exc', ['OSError', 'ValueError', 'RuntimeError', 'KeyError', 'UnicodeDecodeError', 'EOFError', 'MemoryError'])
    exc = {'OSError': OSError(5, 'I/O error'), 'ValueError': ValueError('bad value'), 'RuntimeError': RuntimeError('x\ny'),
           'KeyError': KeyError('key'), 'UnicodeDecodeError': UnicodeDecodeError('ascii', b'x', 0, 1, 'why'),
           'EOFError': EOFError('early'), 'MemoryError': MemoryError('mem')}[name]
    import sys
    before = None
    text = str(exc)
    want_done = d
    if how == 'ok':
        r = ok_run(ctx, d, o)
        ctx.ensure_eq(r.err, '', 'nothing is reported')
        return
    if how == 'read':
        def before():
            sys.stdin.buffer.__class__ = Failing
            sys.stdin.buffer.exc = exc
    elif how == 'nofile':
        o['filename'], name, text = '/nonexistent/file', 'FileNotFoundError', '/nonexistent/file'
    elif how == 'dir':
        o['filename'], name, text = '/', 'IsADirectoryError', '/'
    elif how in ('late', 'noterm', 'argument'):
        from kolombos.byteio.parser import Parser
        if how == 'argument':
            from kolombos import ArgumentError
            exc, name, text = ArgumentError('wrong argument'), 'ArgumentError', 'wrong argument'
        k = ctx.int('at', 0, None, rnd=lambda r: r.randrange(0, 4))
        orig = Parser.parse
        n = [0]

        def bad(self, off):
            n[0] += 1
            if n[0] > k:
                raise exc
            return orig(self, off)
        Parser.parse = bad
    try:
        r = run_cli(d, o, before=before)
    finally:
        if how in ('late', 'noterm', 'argument'):
            Parser.parse = orig
    if how in ('late', 'noterm', 'argument') and n[0] <= k:
        return
    ctx.ensure(r.exc is None and not r.timeout, 'the error does not escape', repr(r))
    ctx.ensure_eq(r.code, 1, 'exit status')
    err = spec.strip_sgr(r.err)
    ctx.ensure(err.startswith('ERROR: ') and err.count('ERROR: ') == 1 and name in err and err.endswith('\n'), 'one message names the error', repr(err))
    ctx.ensure(text in err, 'message of the error', repr(err))
    if how == 'read' and not o.get('debug'):
        # everything complete so far is shown before the failure
        if o.get('binary'):
            cols = o.get('columns')
            if cols:
                n_rows = len(d) // cols
                want = ''.join(' %02x' % b for b in d)
                got = ''
                for line in r.out.split('\n'):
                    v = spec.strip_sgr(line)
                    m = re.match(r' *[0-9a-fx]+│((?: [0-9a-f]{2})+)(?:   )* │', v)
                    if m:
                        got += m[1]
                ctx.ensure(want.startswith(got) and len(got) // 3 >= (max(0, len(d) - 60) // cols) * cols and len(got) // 3 % cols == 0,
                           'output so far', repr((want, got)))
        else:
            full = want_text(d, o)
            v = spec.strip_sgr(r.out)
            done = [x for x in full.split('\n')[:d.count(b'\n')]]
            ctx.ensure(v.startswith(''.join(x + '\n' for x in done)) or b'\x1b' in d, 'lines so far', repr((v, done)))
