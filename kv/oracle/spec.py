"""Plain specification of what kolombos displays, written from README/legend and the
property statements (never from the code under check).  Everything here is ordinary Python on
concrete values; it is the oracle for replaying verifier counterexamples and for the
bounded stand-ins."""
from __future__ import annotations

# ---------------------------------------------------------------- tokens
WS = {0x09: 'tab', 0x0a: 'nl', 0x0b: 'vt', 0x0c: 'ff', 0x0d: 'cr', 0x20: 'sp'}
CLASS_OF = {'utf8': 'utf8', 'bin': 'binary', 'csi': 'esc', 'sgr': 'esc', 'sgr0': 'esc', 'nf': 'esc', 'fp': 'esc',
            'fe': 'esc', 'fs': 'esc', 'ctl': 'control', 'nul': 'control', 'bs': 'control', 'esc1': 'control',
            'del': 'control', 'tab': 'space', 'nl': 'space', 'vt': 'space', 'ff': 'space', 'cr': 'space',
            'sp': 'space', 'pr': 'printable'}
CLASSES = ['control', 'esc', 'space', 'utf8', 'binary', 'printable']


def utf8_len(d: bytes, i: int) -> int:
    """length of the well-formed UTF-8 encoded non-ASCII code point starting at i, or 0"""
    b = d[i]
    n = 2 if 0xc0 <= b <= 0xdf else 3 if 0xe0 <= b <= 0xef else 4 if 0xf0 <= b <= 0xf7 else 0
    if not n or i + n > len(d):
        return 0
    cp = b & (0x7f >> n)
    for k in range(1, n):
        c = d[i + k]
        if not 0x80 <= c <= 0xbf:
            return 0
        cp = (cp << 6) | (c & 0x3f)
    if cp < {2: 0x80, 3: 0x800, 4: 0x10000}[n] or 0xd800 <= cp <= 0xdfff or cp > 0x10ffff:
        return 0
    return n


def esc_token(d: bytes, i: int):
    """(kind, length) of the complete escape sequence starting at d[i] == ESC, or None"""
    n = len(d)
    if i + 1 >= n:
        return None
    b = d[i + 1]
    if b == 0x5b:
        j = i + 2
        while j < n and 0x30 <= d[j] <= 0x3f:
            j += 1
        pe = j
        while j < n and 0x20 <= d[j] <= 0x2f:
            j += 1
        if j < n and 0x40 <= d[j] <= 0x7e:
            if d[j] == 0x6d:
                return ('sgr0' if d[i + 2:pe] in (b'', b'0') else 'sgr'), j + 1 - i
            return 'csi', j + 1 - i
        return 'fe', 2          # 1b 5b alone is the two-byte Fe sequence
    if 0x20 <= b <= 0x2f:
        j = i + 2
        while j < n and 0x20 <= d[j] <= 0x2f:
            j += 1
        if j < n and 0x30 <= d[j] <= 0x7e:
            return 'nf', j + 1 - i
        return None
    if 0x30 <= b <= 0x3f:
        return 'fp', 2
    if 0x40 <= b <= 0x5f:
        return 'fe', 2
    if 0x60 <= b <= 0x7e:
        return 'fs', 2
    return None


def tokens(d: bytes):
    """list of (kind, bytes); one-byte kinds are returned byte by byte"""
    out = []
    i = 0
    while i < len(d):
        b = d[i]
        if b >= 0x80:
            n = utf8_len(d, i)
            if n:
                out.append(('utf8', d[i:i + n]))
                i += n
            else:
                out.append(('bin', d[i:i + 1]))
                i += 1
            continue
        if b == 0x1b:
            t = esc_token(d, i)
            if t:
                out.append((t[0], d[i:i + t[1]]))
                i += t[1]
            else:
                out.append(('esc1', d[i:i + 1]))
                i += 1
            continue
        kind = WS.get(b)
        if kind is None:
            kind = ('nul' if b == 0 else 'bs' if b == 8 else 'del' if b == 0x7f else 'ctl' if b < 0x20 else 'pr')
        out.append((kind, d[i:i + 1]))
        i += 1
    return out


# ---------------------------------------------------------------- display
MARK = {'nul': 'Ø', 'bs': '←', 'del': '→', 'esc1': '∌', 'ctl': 'Ɐ', 'vt': '⤓', 'ff': '↡', 'cr': '⇤', 'sgr0': 'θ',
        'sgr': 'ǝ', 'csi': 'Ͻ', 'nf': 'ꟻ', 'fp': 'ꟼ', 'fe': 'Ǝ', 'fs': 'Ꙅ'}
IGN = '×'
BOX = '▯'
SEP_L, SEP_R, M1SEP = '⢸', '⡇', '･'


def sgr_brief(params: bytes) -> str:
    """short form of SGR parameters (marker level 1)"""
    codes = []
    for p in params.decode('ascii').split(';'):
        head = p.split(':')[0]
        if head and len(head) <= 4300 and all('0' <= c <= '9' for c in head):
            codes.append(int(head))
    names = []
    i = 0
    while i < len(codes):
        c = codes[i]
        if c in (38, 48):
            t = 'F' if c == 38 else 'B'
            if len(codes) - i >= 3 and codes[i + 1] == 5:
                names.append('%s%d' % (t, codes[i + 2]))
                i += 3
                continue
            if len(codes) - i >= 5 and codes[i + 1] == 2:
                r, g, b = codes[i + 2:i + 5]
                names.append('%s%06X' % (t, r * 65536 + g * 256 + b))
                i += 5
                continue
        names.append(str(c))
        i += 1
    return M1SEP.join(names)


def sgr_params(tok: bytes) -> bytes:
    j = 2
    while 0x30 <= tok[j] <= 0x3f:
        j += 1
    return tok[2:j]


def show(kind: str, raw: bytes, o: dict) -> str:
    """visible text of one token under options o"""
    cls = CLASS_OF[kind]
    binary = o.get('binary', False)
    if o.get('ignore_' + cls):
        return IGN * len(raw) + ('\n' if kind == 'nl' and not binary else '')
    focused = o.get('focus_' + cls)
    m = o.get('marker', 0)
    if kind == 'utf8':
        if not binary:
            return raw.decode('utf-8')
        if o.get('decode'):
            return raw.decode('utf-8').rjust(len(raw), '_')
        return BOX * len(raw)
    if kind == 'bin':
        return (BOX if binary else 'Ḇ') * len(raw)
    if kind == 'pr':
        return raw.decode('ascii')
    if kind == 'tab':
        return '⇥' if binary else '⇥\t'
    if kind == 'nl':
        return '↵' if binary else '↵\n'
    if kind == 'sp':
        return '·' if focused else '␣'
    if cls == 'esc':
        if binary:
            return MARK[kind] + raw[1:].decode('ascii')
        if m <= 0:
            return MARK[kind]
        if m == 1:
            s = MARK[kind] + (sgr_brief(sgr_params(raw)) if kind == 'sgr' else '')
        else:
            s = MARK[kind] + raw[1:].decode('ascii')
        return s if o.get('no_separators') else SEP_L + s + SEP_R
    if kind == 'ctl' and not binary and m >= 1:
        return MARK['ctl'] + (chr(raw[0] + 64) if m == 1 else '%02x' % raw[0])
    return MARK[kind]


def text_lines(d: bytes, o: dict):
    """visible text lines (without prefixes; each ends with a line feed)"""
    s = ''.join(show(k, r, o) for k, r in tokens(d))
    if not s:
        return []
    lines = s.split('\n')
    if lines[-1] == '':
        lines.pop()
    return [x + '\n' for x in lines]


def binary_chars(d: bytes, o: dict) -> str:
    o = dict(o, binary=True)
    return ''.join(show(k, r, o) for k, r in tokens(d))


def limited(d: bytes, max_bytes, max_lines) -> bytes:
    """what -B / -L leave of the input"""
    if max_lines:
        parts = d.split(b'\n')
        if len(parts) > max_lines:
            d = b'\n'.join(parts[:max_lines])
    if max_bytes:
        d = d[:max_bytes]
    return d


# ---------------------------------------------------------------- terminal
def strip_sgr(s: str) -> str:
    """remove ESC [ digits/semicolons m"""
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\x1b' and i + 1 < len(s) and s[i + 1] == '[':
            j = i + 2
            while j < len(s) and s[j] in '0123456789;':
                j += 1
            if j < len(s) and s[j] == 'm':
                i = j + 1
                continue
        out.append(s[i])
        i += 1
    return ''.join(out)


ATTR_ON = {1: ('bold', 1), 2: ('bold', 2), 3: ('italic', 1), 4: ('underline', 1), 21: ('underline', 2),
           5: ('blink', 1), 6: ('blink', 2), 7: ('inverse', 1), 8: ('hidden', 1), 9: ('cross', 1), 53: ('over', 1)}
ATTR_OFF = {22: 'bold', 23: 'italic', 24: 'underline', 25: 'blink', 27: 'inverse', 28: 'hidden', 29: 'cross',
            55: 'over', 39: 'fg', 49: 'bg'}


def apply_sgr(state: dict, params) -> dict:
    """terminal attribute state after one SGR sequence with these parameters"""
    s = dict(state)
    p = list(params) or [0]
    i = 0
    while i < len(p):
        c = p[i]
        if c == 0:
            s = {}
        elif c in (38, 48):
            k = 'fg' if c == 38 else 'bg'
            if i + 2 < len(p) and p[i + 1] == 5:
                s[k] = ('i', p[i + 2])
                i += 2
            elif i + 4 < len(p) and p[i + 1] == 2:
                s[k] = ('rgb', p[i + 2], p[i + 3], p[i + 4])
                i += 4
            else:
                break
        elif c in ATTR_ON:
            k, v = ATTR_ON[c]
            if k == 'bold':
                s['bold'] = tuple(sorted(set(s.get('bold', ())) | {v}))
            else:
                s[k] = v
        elif c in ATTR_OFF:
            s.pop(ATTR_OFF[c], None)
        elif 30 <= c <= 37 or 90 <= c <= 97:
            s['fg'] = c
        elif 40 <= c <= 47 or 100 <= c <= 107:
            s['bg'] = c
        i += 1
    return s


def cells(s: str, state: dict | None = None):
    """[(char, state)] of the visible characters and the final state"""
    st = dict(state or {})
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\x1b' and s[i + 1:i + 2] == '[':
            j = i + 2
            while j < len(s) and s[j] in '0123456789;':
                j += 1
            if j < len(s) and s[j] == 'm':
                ps = [int(x or 0) for x in s[i + 2:j].split(';')] if j > i + 2 else []
                st = apply_sgr(st, ps)
                i = j + 1
                continue
        out.append((s[i], tuple(sorted(st.items()))))
        i += 1
    return out, st
