PRELUDE = '''import os, re, subprocess, sys, tempfile


def cli(data, *args, cols='80'):
    e = dict(os.environ, PYTHONPATH=os.getcwd(), COLUMNS=cols, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    r = subprocess.run([sys.executable, '-m', 'kolombos', *args], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    return r.returncode, r.stdout.decode(), r.stderr.decode()


def strip(s):
    return re.sub('\\x1b\\\\[[0-9;]*m', '', s)


def check(cond, *info):
    if not cond:
        print('FAIL', *info)
        sys.exit(1)


'''
B = 'kolombos/byteio/'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, also=()):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


seed('P01-complex-window', 'P01', [('pytermor/ansi.py', "            for complex_len in range(1, min(len(opening_params),\n                                            cls._complex_code_max_len + 1)):",
     "            for complex_len in range(1, min(len(opening_params) - 1,\n                                            cls._complex_code_max_len + 1)):")],
     'a 256-colour code at the very end of the parameter list (38;5;n last): the two-code prefix is no longer considered',
     'the closing of an indexed colour is composed from its single codes: colour stays on, blinking is switched off',
     '''
from pytermor import SequenceSGR, Span
check(Span(38, 5, 196).closing_seq.params == [39], Span(38, 5, 196))
check(Span(1, 48, 5, 3).closing_seq.params == [22, 49])
check(Span(48, 2, 1, 2, 3, 4).closing_seq.params == [49, 24])
''')
seed('P01-rgb-params', 'P01', [('pytermor/ansi.py', "                    opening_params = opening_params[complex_total_len:]\n",
     "                    while opening_params and complex_total_len > 0 and not (complex_total_len == 1 and opening_params[0] in cls._code_to_breaker_map and len(opening_params) > 1 and opening_params[1] in cls._code_to_breaker_map):\n                        opening_params.pop(0)\n                        complex_total_len -= 1\n")],
     'an extended colour whose last channel value coincides with an attribute code and is followed by another attribute code',
     'the last channel of the colour is taken for an attribute, the closing switches off an attribute that the opening did not touch',
     '''
from pytermor import Span
check(Span(38, 5, 7, 1).closing_seq.params == [39, 22], Span(38, 5, 7, 1))
check(Span(38, 2, 1, 2, 200, 1).closing_seq.params == [39, 22])
''')
seed('P02-add-empty', 'P02', [('pytermor/ansi.py', "        self._ensure_sequence(other)\n        return SequenceSGR(*self._params, *other._params)",
     "        self._ensure_sequence(other)\n        if not self._params:\n            return other\n        if not other._params:\n            return self\n        result = SequenceSGR(*self._params)\n        result._params += other._params if other._params[0] != 0 else other._params[-1:]\n        return result")],
     'adding a sequence that begins with the reset parameter 0 followed by more parameters',
     'parameters of the right operand are lost',
     '''
from pytermor import SequenceSGR as S
check((S(31) + S(0, 1, 4)).params == [31, 0, 1, 4], S(31) + S(0, 1, 4))
''')
seed('P02-alias', 'P02', [('pytermor/ansi.py', "            elif isinstance(arg, SequenceSGR):\n                result.extend(arg.params)\n            else:",
     "            elif isinstance(arg, SequenceSGR):\n                if not result:\n                    result = arg.params\n                else:\n                    result.extend(arg.params)\n            else:")],
     'a sequence is built from another sequence followed by more arguments; the first operand is used afterwards',
     'building a sequence changes the sequence it was built from',
     '''
from pytermor import SequenceSGR as S
a = S(31)
b = S(a, 1)
check(a.params == [31] and b.params == [31, 1], a, b)
''')
seed('P03-center-odd', 'P03', [('pytermor/util/stdlib_ext.py', "    right_fill_len = fill_len // 2\n    left_fill_len = fill_len - right_fill_len\n",
     "    left_fill_len = fill_len // 2 + (fill_len & width & 1)\n    right_fill_len = fill_len - left_fill_len\n")],
     'an odd number of fill characters in an even width (as str.center does it)',
     'the right side gets the odd fill character',
     '''
from pytermor.util import center_sgr
check(center_sgr('abc', 6, '.') == '..abc.', center_sgr('abc', 6, '.'))
check(center_sgr('ab', 5, '.') == '..ab.', center_sgr('ab', 5, '.'))
''')
seed('P04-hue-360', 'P04', [('pytermor/color.py', "        elif v == rn:\n            h = 60 * (0 + (gn - bn)/c)\n", "        elif v == rn:\n            h = 60 * (0 + (gn - bn)/c) + (360 if gn <= bn else 0)\n")],
     'red is the largest channel and green equals blue (e.g. 0xff8080)',
     'the hue of pure reds is 360, outside [0, 360)',
     '''
from pytermor.color import Color
for c in (0xff0000, 0xff8080, 0x400000):
    h, s, v = Color.hex_value_to_hsv_channels(c)
    check(h == 0, hex(c), h)
check(abs(Color.hex_value_to_hsv_channels(0xff0080)[0] - 329.88) < .1)
''')
seed('P05-cache-kept', 'P05', [('pytermor/color.py', "        if color.hex_value not in self._lookup_table.keys():\n            self._approximation_cache.clear()\n            self._lookup_table[color.hex_value] = color",
     "        if color.hex_value not in self._lookup_table.keys():\n            if color.hex_value not in self._approximation_cache:\n                self._approximation_cache.clear()\n            self._lookup_table[color.hex_value] = color")],
     'a colour is searched for before being registered, and is then registered: the old answer and the answers of its neighbours survive',
     'find_closest returns a colour farther than a registered one',
     '''
from pytermor.color import Approximator


class C:
    def __init__(self, v):
        self.hex_value = v


a = Approximator()
a.add_to_map(C(0x000000))
check(a.find_closest(0x808080).hex_value == 0)
a.add_to_map(C(0x808080))
check(a.find_closest(0x808080).hex_value == 0x808080)
''')
seed('P05-distance', 'P05', [('pytermor/color.py', "                           pow(map_b - input_b, 2))\n\n            result.append((cached_color, distance_sq))",
     "                           pow(map_b - input_b, 2))\n            if result and distance_sq > max_results * result[0][1] * 4 and len(result) >= max_results:\n                continue  # hopeless\n            if distance_sq == 0:\n                result.clear()\n            result.append((cached_color, distance_sq))")],
     'the list form (max_results > 1) for a colour that is registered itself',
     'colours that are among the nearest are missing from the list: it is shorter than the palette allows and not the nearest ones',
     '''
from pytermor.color import Approximator


class C:
    def __init__(self, v):
        self.hex_value = v


a = Approximator()
for v in (0, 0x101010, 0x202020, 0x303030):
    a.add_to_map(C(v))
got = [c.hex_value for c in a.approximate(0x202020, 3)]
check(got[0] == 0x202020 and sorted(got[1:]) == [0x101010, 0x303030], got)
''')
seed('P06-lines', 'P06', [('pytermor/render.py', "        rendered_text = ''\n        for line in str(text).splitlines(keepends=True):\n            rendered_text += Span(opening_seq).wrap(line)\n        return rendered_text",
     "        span = Span(opening_seq)\n        return '\\n'.join(span.wrap(line) if line else line for line in str(text).split('\\n'))")],
     'a text with a carriage return, form feed or other line boundary that is not a line feed',
     'formatting crosses the line break',
     '''
from pytermor import Style, SgrRenderer
SgrRenderer.set_up(force_styles=True)
s = SgrRenderer.render('a\\r\\nb\\rc\\x0cd', Style(bold=True))
check(s == ''.join('\\x1b[1m%s\\x1b[22m' % x for x in ('a\\r\\n', 'b\\r', 'c\\x0c', 'd')), repr(s))
''')
seed('P07-256-in-16', 'P07', [('pytermor/render.py', "        elif isinstance(color, ColorIndexed256):\n            if cls._compatibility_16_colors:\n                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)",
     "        elif isinstance(color, ColorIndexed256):\n            if cls._compatibility_16_colors and not cls._compatibility_256_colors:\n                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)")],
     'both compatibility modes set at once (16 colours must win)',
     '256-colour codes are emitted in 16-colour mode',
     '''
from pytermor import Style, SgrRenderer, Colors
SgrRenderer.set_up(force_styles=True, compatibility_256_colors=True, compatibility_16_colors=True)
s = SgrRenderer.render('x', Style(fg=Colors.DEEP_SKY_BLUE_1))
check('38;5' not in s, repr(s))
''')
seed('P08-self-append', 'P08', [('pytermor/render.py', "        elif isinstance(text, Text):\n            self._runs = text._runs + self._runs\n", "        elif isinstance(text, Text):\n            text._runs.extend(self._runs)\n            self._runs = text._runs\n")],
     'a text is prepended and used again afterwards',
     'the text that was added is changed (and shares its pieces from then on)',
     '''
from pytermor import Text
a, b = Text('a'), Text('b')
b.prepend(a)
check(b.raw() == 'ab' and a.raw() == 'a', a.raw(), b.raw())
''')
seed('P08-len', 'P08', [('pytermor/render.py', "    def __len__(self) -> int:\n        return sum(len(r) for r in self._runs)\n", "    def __len__(self) -> int:\n        return sum(len(r) for r in dict.fromkeys(self._runs))\n")],
     'the same piece occurs twice in a text (a text added twice)',
     'length is less than the length of the content',
     '''
from pytermor import Text
a, b = Text('a'), Text('bcd')
a.append(b)
a.append(b)
check(len(a) == len(a.raw()) == 7, len(a), a.raw())
''')
seed('P09-disabled', 'P09', [('pytermor/render.py', "            if getattr(self, attr) is None and inherit_val is not None:\n", "            if not getattr(self, attr) and inherit_val is not None:\n")],
     'a style that explicitly disables an attribute its parent enables',
     'the disabled attribute is switched on',
     '''
from pytermor import Style
check(Style(Style(bold=True), bold=False).bold is False)
''')
seed('P09-noop-color', 'P09', [('pytermor/render.py', "        if self._fg is None:\n            self._fg = NOOP_COLOR\n        if self._bg is None:\n            self._bg = NOOP_COLOR\n",
     "        if self._fg is None or self._fg.hex_value is None:\n            self._fg = inherit._fg if inherit else NOOP_COLOR\n        if self._bg is None:\n            self._bg = NOOP_COLOR\n")],
     'a style that explicitly sets its foreground to the no-colour value, with a parent that has a foreground',
     'an explicitly set property is taken from the parent',
     '''
from pytermor import Style, NOOP_COLOR
check(Style(Style(fg=0xff0000), fg=NOOP_COLOR).fg is NOOP_COLOR)
''')
seed('P11-sign', 'P11', [('pytermor/util/time_delta.py', "            elif not next_unit_ratio or num < next_unit_ratio:\n                result = f'{sign}{floor(num):d}{unit_separator}{unit_name_suffixed:s}'",
     "            elif not next_unit_ratio or num < next_unit_ratio:\n                result = f'{sign}{round(num):d}{unit_separator}{unit_name_suffixed:s}'")],
     'a fractional number of seconds (or a formatter whose smallest unit is displayed after the point)',
     'the amount shown is rounded instead of truncated (59.7 seconds are shown as 60)',
     '''
from pytermor.util import format_time_delta
check(format_time_delta(59.7, 3) == '59s', format_time_delta(59.7, 3))
''')
seed('P11-always-max', 'P11', [('pytermor/util/time_delta.py', "        if result is None:\n            result = self._overflow_msg[:self.max_len]\n\n        if always_max_len:\n",
     "        if result is None:\n            return self._overflow_msg[:self.max_len]\n\n        if always_max_len:\n")],
     'an overflow together with the explicit padding request, in a formatter longer than the message',
     'the result is shorter than the length of the formatter',
     '''
from pytermor.util.time_delta import registry
for f in registry._formatters.values():
    check(len(f.format(10 ** 15, True)) == f.max_len, f.max_len, f.format(10 ** 15, True))
''')

# ---- application --------------------------------------------------------------------------------------------------------
seed('K02-decimal-group', 'K02', [('kolombos/console.py', "            offset_str = f'{offset:d}'\n", "            offset_str = f'{offset:,d}' if offset >= 10 ** 7 else f'{offset:d}'\n")],
     'decimal offsets of ten millions and more',
     'the label is not a plain number any more',
     '''
from kolombos.console import Console
from kolombos.settings import SettingsManager
SettingsManager.init()
SettingsManager.app_settings.decimal_offsets = True
for n in (0, 5, 9999999, 10000000, 123456789012):
    s = strip(Console.format_prefix_with_offset(n)).rstrip('│').strip()
    check(int(s) == n and '_' not in s and ',' not in s if s.replace(',', '').isdigit() and ',' not in s else False, s)
''')
seed('K03-newline-last', 'K03', [(B + 'segment/segment.py', "        return '\\n' in self._processed\n", "        return self._raw[-1:] == b'\\n' and len(self._processed) > 2\n")],
     'whitespace is ignored (the marker of a line feed is then only two characters)',
     'lines are joined: the line break is not recognised, lines carry no numbers of their own',
     '''
rc, out, err = cli(b'a\\nb\\n', '-S')
check(strip(out) == ' 1│a×\\n 2│b×\\n\\n', repr(strip(out)))
rc, out, err = cli(b'a\\nb\\n')
check(strip(out) == ' 1│a↵\\n 2│b↵\\n\\n', repr(strip(out)))
''')
seed('K03-line-number', 'K03', [('kolombos/console.py', "            prefix = fmt_(f'{line_num:2d}') + Console.get_separator()\n", "            prefix = fmt_(f'{line_num:2d}'[-4:]) + Console.get_separator()\n")],
     'more than 9999 lines',
     'line numbers are cut to four digits and repeat',
     '''
import contextlib, io
from kolombos.console import ConsoleOutputBuffer
from kolombos.settings import SettingsManager
SettingsManager.init()
o = io.StringIO()
with contextlib.redirect_stdout(o):
    for n in (9, 9999, 10001, 123456):
        ConsoleOutputBuffer().write_with_line_num('x', n, end='\\n')
check(strip(o.getvalue()) == ' 9│x\\n9999│x\\n10001│x\\n123456│x\\n', repr(o.getvalue()))
''')
seed('K04-nf-final', 'K04', [(B + 'parser/parser.py', "                b'((\\x1b)([\\x20-\\x2f])([\\x20-\\x2f]*)([\\x30-\\x7e]))|'          # [ 8| 9-12] nF escape sequences",
     "                b'((\\x1b)([\\x20-\\x2f])([\\x20-\\x2f]{0,3})([\\x30-\\x7e]))|'      # [ 8| 9-12] nF escape sequences")],
     'an nF escape sequence with more than four intermediate bytes',
     'a complete sequence is shown as a lone escape control character followed by text',
     '''
rc, out, err = cli(b'\\x1b(((((Ba', '-P')
check(strip(out) == ' 1│ꟻ×\\n\\n', repr(strip(out)))
''')
seed('K04-csi-sgr', 'K04', [(B + 'parser/parser.py', "            if sgr_params == b'' or sgr_params == b'0':", "            if not sgr_params.strip(b'0'):")],
     'an SGR sequence whose parameter is a run of several zeros (ESC[00m)',
     'it is shown as a reset although its parameter is not a single 0',
     '''
rc, out, err = cli(b'\\x1b[00mx\\x1b[0m\\x1b[m')
check(strip(out) == ' 1│ǝxθθ\\n\\n', repr(strip(out)))
''')
seed('K05-bom', 'K05', [(B + 'template/template_utf8.py', "            decoded = raw.decode('utf8', errors='replace')\n", "            decoded = raw.decode('utf-8-sig', errors='replace')\n")],
     'the byte order mark U+FEFF anywhere in the input',
     'it is displayed as nothing (text) or as underscores only (binary)',
     '''
rc, out, err = cli(b'a\\xef\\xbb\\xbfb')
check(strip(out) == ' 1│a\\ufeffb\\n\\n', repr(strip(out)))
''')
seed('K05-plane16', 'K05', [(B + 'parser/parser.py', "                b'\\xf4[\\x80-\\x8f][\\x80-\\xbf]{2}'       # - plane 16           # double", "                b'\\xf4[\\x80-\\x8e][\\x80-\\xbf]{2}'       # - plane 16           # double")],
     'a code point from U+10F000 on', 'the last code points of plane 16 are shown as binary data',
     '''
rc, out, err = cli('\\U0010fffd'.encode())
check(strip(out) == ' 1│\\U0010fffd\\n\\n', repr(strip(out)))
''')
seed('K06-tab', 'K06', [(B + 'template/template.py', "    def _process_byte(self, b: int) -> str:\n        return self._label_stack.get(self._display_mode, self._read_mode)\n", "    def _process_byte(self, b: int) -> str:\n        return self._label_stack.get(self._read_mode, self._display_mode)\n")],
     'a tabulation in text mode with whitespace ignored (or binary data ignored in binary mode)',
     'bytes of the ignored class are displayed with their own marker',
     '''
rc, out, err = cli(b'a\\tb c', '-S')
check(strip(out) == ' 1│a×b×c\\n\\n', repr(strip(out)))
''')
seed('K06-both', 'K06', [('kolombos/settings.py', "        if getattr(self, attr_ignored):\n            return DisplayMode.IGNORED\n        if getattr(self, attr_focused):\n            return DisplayMode.FOCUSED\n",
     "        if getattr(self, attr_focused):\n            return DisplayMode.FOCUSED\n        if getattr(self, attr_ignored):\n            return DisplayMode.IGNORED\n")],
     'focus and ignore set for the same class (settings object: the command line refuses the combination)',
     'focusing wins over ignoring',
     '''
from kolombos.settings import Settings
from kolombos.byteio import CharClass, DisplayMode
s = Settings()
s.focus_space = s.ignore_space = True
check(s.get_char_class_display_mode(CharClass.WHITESPACE) is DisplayMode.IGNORED)
''')
seed('K06-focus-sgr', 'K06', [(B + 'template/template_escape.py', "        if self._display_mode.is_ignored:\n            return super().substitute(raw)\n", "        if self._display_mode.is_ignored and len(raw) > 1:\n            return super().substitute(raw[:1] + raw[1:].replace(b'm', b'm'))[:1]\n"),
     (B + 'template/template_escape.py', "        if self._marker_details is MarkerDetailsEnum.NO_DETAILS:\n            return\n\n        params_processed", "        if self._marker_details is MarkerDetailsEnum.NO_DETAILS or self._display_mode.is_focused and len(params_raw) > 16:\n            return\n\n        params_processed")],
     'a focused escape sequence longer than 17 bytes with details',
     'focusing the class drops the details (and, in binary mode, the bytes) of long sequences',
     '''
d = b'\\x1b[38;2;100;100;100;48m'
rc, a, err = cli(d, '-m2')
rc, b, err = cli(d, '-m2', '-e')
check(strip(a) == strip(b), a, b)
''')
seed('K07-hex6', 'K07', [(B + 'template/template_escape_sgr.py', "pcodes_allowed[-2] * 256 + pcodes_allowed[-1]:06X}'", "pcodes_allowed[-2] * 256 + pcodes_allowed[-1]:05X}'")],
     'an RGB colour with a red channel below 16 in a brief marker', 'five hexadecimal digits instead of six',
     '''
rc, out, err = cli(b'\\x1b[38;2;1;2;3m', '-m1')
check(strip(out) == ' 1│⢸ǝF010203⡇\\n\\n', repr(strip(out)))
rc, out, err = cli(b'\\x1b[48;2;255;2;3m', '-m1')
check(strip(out) == ' 1│⢸ǝBFF0203⡇\\n\\n', repr(strip(out)))
''')
seed('K07-caret', 'K07', [(B + 'template/template_control.py', "            0x07: 'G', 0x0e: 'N', 0x0f: 'O',", "            0x07: 'G', 0x0e: 'N', 0x0f: '0',")],
     'the byte 0f with brief details', 'a digit zero instead of the letter O',
     '''
rc, out, err = cli(b'\\x0f', '-m1')
check(strip(out) == ' 1│ⱯO\\n\\n', repr(strip(out)))
''')
seed('K07-stale', 'K07', [(B + 'template/template_escape_sgr.py', "        self._brief_details_processed = f'{Seqs.UNDERLINED_OFF}", "        if not brief_names:\n            return\n        self._brief_details_processed = f'{Seqs.UNDERLINED_OFF}")],
     'an SGR sequence without numeric parameters (ESC[>m, ESC[;m) after another SGR sequence, brief details',
     'the details of the previous sequence are shown again',
     '''
rc, out, err = cli(b'\\x1b[1m\\x1b[;m', '-m1')
check(strip(out) == ' 1│⢸ǝ1⡇⢸ǝ⡇\\n\\n', repr(strip(out)))
''')
seed('K08-framed', 'K08', [(B + 'template/template_escape_sgr.py', "            elif pcode in self.ALLOWED_SGRS_FOR_MARKER_FORMAT:\n", "            elif pcode in self.ALLOWED_SGRS_FOR_MARKER_FORMAT or 10 < pcode < 20:\n")],
     'coloured markers and an SGR sequence with an alternative font code (11-19)',
     'the font is switched on with the marker and never off: formatting leaks to the following characters and lines',
     '''
rc, out, err = cli(b'\\x1b[13mabc\\n', '--color-markers', '-m2')
check('\\x1b[13m' not in out and ';13' not in out, repr(out))
''')
seed('K08-newline-reset', 'K08', [(B + 'template/template_newline.py', "            return f'{default}{Seqs.RESET}\\n'  # prevent", "            return f'{default}\\n' if self._display_mode.is_default else f'{default}{Seqs.COLOR_OFF}\\n'  # prevent")],
     'whitespace is focused and a line feed is printed: its coloured background is open at the line break',
     'the background of the focused marker reaches over the line break',
     '''
rc, out, err = cli(b'a\\nb\\n', '-s')
line = out.split('\\n')[0]
bg = None
for m in re.finditer('\\x1b\\\\[([0-9;]*)m', line):
    for p in (m[1] or '0').split(';'):
        if p == '46':
            bg = 46
        elif p in ('0', '49'):
            bg = None
check(bg is None, repr(line))
''')
seed('K08-del', 'K08', [(B + 'template/template_printable.py', "        return chr(b)\n", "        return chr(b)\n\n    def _process(self, raw: bytes) -> str:\n        return super()._process(raw) if self._display_mode.is_ignored else raw.decode('unicode_escape' if raw.endswith(b'\\\\') and False else 'ascii').replace('\\\\033', '\\x1b')\n")],
     'the literal text \\033 (backslash and three digits) in the input',
     'a real escape character is sent to the terminal',
     '''
rc, out, err = cli(b'a\\\\033[2J')
check('\\x1b[2J' not in out and strip(out) == ' 1│a\\\\033[2J\\n\\n', repr(out))
''')
seed('K09-chunk-limit', 'K09', [(B + 'reader.py', "                if max_bytes and self._offset + len(raw_input) > max_bytes:\n                    raw_input = raw_input[:max_bytes - self._offset]\n",
     "                if max_bytes and self._offset + len(raw_input) > max_bytes:\n                    raw_input = raw_input[:max_bytes % self._chunk_size or max_bytes]\n")],
     'a source that returns less than the buffer size per read (pipe, terminal), with a byte limit',
     'more or fewer bytes than the limit are shown',
     '''
from kolombos.byteio import Reader
from kolombos.settings import SettingsManager
import io
SettingsManager.init()
SettingsManager.app_settings.max_bytes = 7
SettingsManager.app_settings.buffer = 4


class Src(io.RawIOBase):
    def __init__(self, parts):
        self.parts = parts

    def read(self, n=-1):
        return self.parts.pop(0) if self.parts else b''


class Std:
    pass


for parts in ([b'abcd', b'efgh', b'i'], [b'abc', b'def', b'ghi']):
    Std.buffer = Src(list(parts))
    sys.stdin = Std
    got = []
    Reader(None, lambda b, o, f: got.append(b)).read()
    check(b''.join(got) == b'abcdefg', parts, got)
''')
seed('K09-both', 'K09', [(B + 'reader.py', "                            raw_input = raw_input[:line_break.end()-1]\n", "                            raw_input = raw_input[:line_break.start()]\n                            max_bytes = None\n")],
     'both limits, the line limit reached in a chunk where the byte limit is the shorter one',
     'the byte limit is ignored',
     '''
rc, out, err = cli(b'abcdef\\nghi\\n', '-L1', '-B3')
check(strip(out) == ' 1│abc\\n\\n', repr(strip(out)))
''')
seed('K10-append', 'K10', [(B + 'parser/buffer.py', "        self._raw_buffer += b\n", "        self._raw_buffer = (self._raw_buffer + b)[-8192:]\n")],
     'a read buffer larger than 8192 bytes (or a very long unfinished sequence)',
     'bytes are lost depending on the read buffer size',
     '''
d = b'x' * 9000
a = cli(d, '-b', '-w16', '-f100')[1]
b = cli(d, '-b', '-w16', '-f9000')[1]
check(strip(a) == strip(b))
''', also=['K01'])
seed('K11-level', 'K11', [('kolombos/console.py', "        if SettingsManager.app_settings.debug < level:\n            return\n", "        if not SettingsManager.app_settings.debug >= level - (level > 2 and isinstance(offset, int)):\n            return\n")],
     'debug level 2 and a message of level 3 that carries an offset',
     'messages of a higher level are printed',
     '''
from kolombos.console import ConsoleDebugBuffer, Console
from kolombos.settings import SettingsManager
import io, contextlib
SettingsManager.init()
SettingsManager.app_settings.debug = 2
o = io.StringIO()
with contextlib.redirect_stdout(o):
    ConsoleDebugBuffer('x').write(3, 'msg', offset=5)
check(o.getvalue() == '', o.getvalue())
''')
seed('K12-eio', 'K12', [(B + 'reader.py', "        except KeyboardInterrupt:\n            pass\n", "        except (KeyboardInterrupt, EOFError, InterruptedError, TimeoutError):\n            pass\n")],
     'a read that fails with a time-out (network file system, terminal) in the middle of the input',
     'the failure is not reported and the exit status is 0',
     '''
import io, contextlib
from kolombos.app import App


class Src(io.RawIOBase):
    n = 0

    def read(self, n=-1):
        Src.n += 1
        if Src.n > 1:
            raise TimeoutError(110, 'Connection timed out')
        return b'abc\\n'


class Std:
    buffer = Src()


sys.stdin = Std
sys.argv = ['kolombos']
o, e = io.StringIO(), io.StringIO()
code = None
with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
    try:
        App().run()
    except SystemExit as x:
        code = x.code
check(code == 1 and 'TimeoutError' in e.getvalue(), code, e.getvalue())
''')
seed('K12-except', 'K12', [('kolombos/app.py', "        except Exception as e:\n            Console.on_exception(e)\n            self._exit(1)\n", "        except (OSError, ValueError, RuntimeError, ArithmeticError, LookupError) as e:\n            Console.on_exception(e)\n            self._exit(1)\n")],
     'a failure that is none of the usual kinds (MemoryError, TypeError, AssertionError)',
     'the error escapes as a traceback, output so far is not flushed',
     '''
import io, contextlib
from kolombos.app import App
from kolombos.byteio.parser import Parser


def bad(self, off):
    raise TypeError('unexpected')


class Std:
    buffer = io.BytesIO(b'abc')


Parser.parse = bad
sys.stdin = Std
sys.argv = ['kolombos']
o, e = io.StringIO(), io.StringIO()
code = None
with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
    try:
        App().run()
    except SystemExit as x:
        code = x.code
    except TypeError:
        code = 'escaped'
check(code == 1 and 'TypeError: unexpected' in e.getvalue(), code, e.getvalue())
''')
seed('K12-flush', 'K12', [('kolombos/console.py', "        for buffer in Console.buffers:\n            buffer.flush()\n", "        for buffer in Console.buffers[-2:]:\n            buffer.flush()\n")],
     'text written without flushing to a buffer registered before the last two, and a failure', 'that text is never printed',
     '''
import io, contextlib
from kolombos.console import Console, ConsoleOutputBuffer
from kolombos.settings import SettingsManager
SettingsManager.init()
o, e = io.StringIO(), io.StringIO()
with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
    bs = [ConsoleOutputBuffer() for _ in range(4)]
    for k, b in enumerate(bs):
        b.write('part%d' % k, flush=False)
    Console.on_exception(ValueError('bad'))
check(all('part%d' % k in o.getvalue() for k in range(4)) and 'ValueError: bad' in e.getvalue(), o.getvalue(), e.getvalue())
''')

# ---- second round -----------------------------------------------------------------------------------------------------
F = B + 'formatter/'
T = B + 'template/'
seed('K01-pad-req', 'K01', [(F + 'binary.py', "            self._output_buffer.write_with_offset(\n                final_raw_row +\n                self._justify_raw(cur_cols - data_len) +",
     "            self._output_buffer.write_with_offset(\n                final_raw_row +\n                self._justify_raw(req_bytes - data_len) +")],
     'a last row delivered after the rows before it were already printed (input longer than the read buffer)',
     'the hexadecimal column of the last row is not padded to the width of the others', '''
rc, o, e = cli(bytes(range(0x41, 0x41 + 26)), '-b', '-w', '16', '-f', '16', '--no-offsets')
rows = strip(o).split('\\n')[:2]
check(rows[1] == ' 51 52 53 54 55 56 57 58 59 5a' + '   ' * 6 + '  QRSTUVWXYZ', rows)
''')
seed('K02-trunc', 'K02', [('kolombos/console.py', "    def format_prefix_with_offset(offset: int, f: Span = Spans.GREEN) -> str:\n        if SettingsManager.app_settings.decimal_offsets:\n            offset_str = f'{offset:d}'\n        else:\n",
     "    def format_prefix_with_offset(offset: int, f: Span = Spans.GREEN) -> str:\n        if SettingsManager.app_settings.decimal_offsets:\n            offset_str = f'{offset:d}'\n        elif offset.bit_length() > 32:\n            offset_str = '0x%08x' % (offset & 0xffffffff)\n        else:\n")],
     'an offset of 4 GiB or more', 'hexadecimal labels wrap around at 32 bits', '''
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.console import Console
for n in (0, 15, 4096, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40 + 5):
    v = strip(Console.format_prefix_with_offset(n)).strip(' │')
    check(v.startswith('0x') and int(v, 16) == n, n, v)
''')
seed('K03-long', 'K03', [(B + 'segment/buffer.py', "            if el.is_newline:\n                has_newline = True\n                break\n",
     "            if el.is_newline or avail_bytes >= 0x8000:  # do not let the chain grow forever\n                has_newline = True\n                break\n")],
     'a line of 32 KiB or more that is delivered in several segments', 'a long line is printed as several numbered lines', '''
d = b'ab ' * 12000 + b'\\nend'
rc, o, e = cli(d, '-t', '-f', '1000000')
check(len(strip(o).rstrip('\\n').split('\\n')) == 2, len(strip(o).split('\\n')))
''')
seed('K04-nf-inter', 'K04', [(B + 'parser/parser.py', "                b'((\\x1b)([\\x20-\\x2f])([\\x20-\\x2f]*)([\\x30-\\x7e]))|'", "                b'((\\x1b)([\\x20-\\x2f])([\\x20-\\x2f]{0,3})([\\x30-\\x7e]))|'")],
     'an nF sequence with five or more intermediate bytes', 'a long nF sequence is shown as a lone escape and text', '''
from kolombos.settings import SettingsManager
for k in (1, 2, 4, 5, 9):
    rc, o, e = cli(b'A\\x1b' + b'(' * k + b'0B', '-t', '-m2', '--no-line-numbers')
    check('⢸' in strip(o), k, strip(o))
''')
seed('K04-csi-inter', 'K04', [(B + 'parser/parser.py', "([\\x30-\\x3f]*)([\\x20-\\x2f]*)([\\x40-\\x7e]))|'", "([\\x30-\\x3f]*)([\\x20-\\x2f]?)([\\x40-\\x7e]))|'")],
     'a CSI sequence with two intermediate bytes', 'such a sequence is split: ESC [ is shown as an Fe sequence, the rest as text', '''
rc, o, e = cli(b'\\x1b[1 !p', '-t', '-m2', '--no-line-numbers')
check('[1 !p' in strip(o), strip(o))
''')
seed('K05-surrogate', 'K05', [(B + 'parser/parser.py', "                b'\\xed[\\x80-\\x9f][\\x80-\\xbf]|'         # - excluding surrogates", "                b'\\xed[\\x80-\\xa0][\\x80-\\xbf]|'         # - excluding surrogates")],
     'bytes ED A0 xx (an encoded high surrogate)', 'an ill-formed sequence is taken for UTF-8', '''
rc, o, e = cli(b'a\\xed\\xa0\\x80z', '-b', '-w4', '-U', '--no-offsets')
check('×' not in o, o)
''')
seed('K06-full-ignored', 'K06', [(T + 'template_control.py', "        if self._display_mode.is_ignored:\n            return\n\n        if self._marker_details is MarkerDetailsEnum.BINARY_STRICT or \\\n           self._marker_details is MarkerDetailsEnum.NO_DETAILS:\n            return\n\n        elif self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:\n",
     "        if self._marker_details is MarkerDetailsEnum.BINARY_STRICT or \\\n           self._marker_details is MarkerDetailsEnum.NO_DETAILS:\n            return\n\n        elif self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS:\n            if self._display_mode.is_ignored:\n                return\n")],
     'control characters ignored while full details are requested', 'ignored control characters keep their details', '''
rc, o, e = cli(b'a\\x01\\x02b', '-t', '-C', '-m2', '--no-line-numbers')
check(strip(o).strip() == 'a××b', strip(o))
''')
seed('K06-esc-one', 'K06', [(T + 'template_escape.py', "        if self._display_mode.is_ignored:\n            return super().substitute(raw)\n", "        if self._display_mode.is_ignored and self._read_mode is ReadMode.BINARY:\n            return super().substitute(raw)\n        if self._display_mode.is_ignored:  # one mark per sequence\n            segments = super().substitute(raw)\n            segments[0]._processed = segments[0]._processed[:1]\n            return segments\n")],
     'escape sequences ignored in text mode', 'an ignored sequence is shown by one mark instead of one per byte', '''
rc, o, e = cli(b'a\\x1b[31mb\\x1b7c', '-t', '-E', '--no-line-numbers')
check(strip(o).strip() == 'a×××××b××c', strip(o))
''')
seed('K07-sep-short', 'K07', [(T + 'template_escape.py', "        if (self._read_mode != ReadMode.BINARY and\n", "        if (self._read_mode != ReadMode.BINARY and len(params_raw) > 1 and\n")],
     'a two-byte escape sequence (Fp, Fe, Fs) at details level 1 or 2', 'it is not enclosed in separators', '''
for d in (b'\\x1b7', b'\\x1bM', b'\\x1bc', b'\\x1b(0', b'\\x1b[m'):
    for m in '12':
        rc, o, e = cli(d, '-t', '-m1' + m, '--no-line-numbers')
        t = strip(o).strip()
        check(t[0] == '⢸' and t[-1] == '⡇', d, t)
''')
seed('K07-rgb-last', 'K07', [(T + 'template_escape_sgr.py', "                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:", "                if len(pcodes) > 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:")],
     'an RGB colour that ends the parameter list, at level 1', 'the colour is shown as five separate codes', '''
rc, o, e = cli(b'\\x1b[1;38;2;1;2;255mx', '-t', '-m1', '--no-line-numbers')
check('1･F0102FF' in strip(o), strip(o))
''')
seed('K08-debug-del', 'K08', [(B + 'const.py', "PRINTABLE_CHARCODES = list(range(0x21, 0x7f))", "PRINTABLE_CHARCODES = list(range(0x21, 0x80))")],
     'byte 7f in the input and debug output on', 'the raw control byte is sent to the terminal in a debug row', '''
for args in (('-b', '-w4', '-D'), ('-t', '-DDDD'), ('-t',)):
    rc, o, e = cli(b'a\\x7fb\\n', *args)
    check('\\x7f' not in o, args, repr(o))
''')
seed('K09-eof-twice', 'K09', [(B + 'reader.py', "                self._read_callback(raw_input, self._offset, False)\n", "                self._read_callback(raw_input, self._offset, bool(max_lines) and lines >= max_lines)\n")],
     'a line limit that is reached', 'the end of input is signalled twice: the total is printed twice in binary mode', '''
rc, o, e = cli(b'ab\\ncd\\nef', '-b', '-w4', '-L', '2', '--decimal-offsets')
check(len([x for x in strip(o).split('\\n') if x.strip()]) == 3, strip(o))
''')
seed('K10-partial-row', 'K10', [(F + 'binary.py', "        if self._parser_buffer.closed:\n            req_bytes = min(self._segment_buffer.data_len, cur_cols)\n", "        if self._segment_buffer.data_len:\n            req_bytes = min(self._segment_buffer.data_len, cur_cols)\n")],
     'an input shorter than a row left over at a read boundary', 'a row is printed with fewer bytes than requested, depending on the read buffer size', '''
d = bytes(range(0x30, 0x30 + 50))
a = cli(d, '-b', '-w', '16', '-f', '4')[1]
b = cli(d, '-b', '-w', '16')[1]
check(strip(a) == strip(b), a, b)
''')
seed('K11-preview-pop', 'K11', [(B + 'segment/buffer.py', "[self._preview_sgr(sgr.assemble()) for sgr in self._active_sgrs])\n", "[self._preview_sgr(self._active_sgrs.pop(0).assemble()) for _ in list(self._active_sgrs)])\n")],
     'debug level 4 and a row that ends inside a formatted run', 'the preview consumes the list of active sequences: processing fails', '''
d = b'\\xff' * 40
rc, o, e = cli(d, '-b', '-w', '16', '-DDDD')
check(rc == 0 and 'ERROR' not in e, rc, e)
''')
seed('K11-verbose-cut', 'K11', [(B + 'segment/buffer.py', "            if idx >= max_input_len:\n                max_input_exceeded = True\n", "            if idx >= max_input_len:\n                max_input_exceeded = True\n            elif isinstance(el, Segment) and el.data_len > 32 and SettingsManager.app_settings.debug_buffer_contents_full:\n                self._segment_chain[idx] = Segment(el.opening_seq, el.type_label, el.raw[:32], el.processed[:32])\n")],
     'debug level 4 and a run of more than 32 bytes', 'the preview of the queue cuts the queued data itself', '''
d = b'x' * 100
for args in ((), ('-D',), ('-DDDD',)):
    rc, o, e = cli(d, '-t', *args)
    check('x' * 100 in strip(o), args, strip(o)[-300:])
''')
seed('K12-debug-name', 'K12', [('kolombos/console.py', "            error = tb_lines.pop(-1)\n", "            error = tb_lines.pop(0)\n")],
     'a failure while debugging', 'the message on the standard error stream does not name the error', '''
rc, o, e = cli(b'', '-D', '/nonexistent/file')
check(rc == 1 and 'FileNotFoundError' in e, rc, e)
''')
seed('P01-bg-rgb-len', 'P01', [('pytermor/ansi.py', "        cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 3, IntCodes.BG_COLOR_OFF)", "        cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 2, IntCodes.BG_COLOR_OFF)")],
     'an RGB background whose blue channel value equals the number of a known code', 'the closing switches off an attribute the opening never touched', '''
from pytermor import Span
check(Span(48, 2, 10, 20, 4).closing_seq.params == [49], Span(48, 2, 10, 20, 4))
check(Span(48, 2, 10, 20, 200, 1).closing_seq.params == [49, 22])
''')
seed('P02-blue', 'P02', [('pytermor/ansi.py', "        [cls._validate_extended_color(color) for color in [r, g, b]]\n", "        all(cls._validate_extended_color(color) for color in [r, g, b])\n")],
     'a channel other than the first is out of range', 'green and blue are not validated any more (the checker returns None, so all() stops after the first)', '''
from pytermor import SequenceSGR
for a in ((1, 256, 1), (1, 1, -1), (1, 1, 999), (300, 1, 1)):
    try:
        SequenceSGR.init_color_rgb(*a)
        check(False, a)
    except ValueError:
        pass
check(SequenceSGR.init_color_rgb(1, 2, 3).params == [38, 2, 1, 2, 3])
''')
seed('P03-newline', 'P03', [('pytermor/util/stdlib_ext.py', "    sanitized = ReplaceSGR().apply(s)\n    return s + fillchar * max(0, width - len(sanitized))", "    sanitized = ReplaceSGR().apply(s).rstrip(fillchar)\n    s = s if sanitized or not s else s.rstrip(fillchar)\n    return s + fillchar * max(0, width - len(ReplaceSGR().apply(s)))")],
     'left justification of a text that consists of fill characters only and is longer than the width', 'the text is shortened', '''
from pytermor.util.stdlib_ext import ljust_sgr
check(ljust_sgr('     ', 3) == '     ', repr(ljust_sgr('     ', 3)))
check(ljust_sgr('ab', 4) == 'ab  ')
''')
seed('P04-small-neg', 'P04', [('pytermor/color.py', "        if h < 0:\n            h += 360\n", "        if h <= -1:\n            h += 360\n")],
     'a red whose blue exceeds its green by a hair (0xff0001)', 'hue is slightly negative', '''
from pytermor.color import Color
for v in (0xff0001, 0xff0002, 0xff00ff, 0x800001, 0x00ff01):
    h, s, x = Color.hex_value_to_hsv_channels(v)
    check(0 <= h < 360, hex(v), h)
''')
seed('P05-near-enough', 'P05', [('pytermor/color.py', "            result.append((cached_color, distance_sq))\n", "            result.append((cached_color, distance_sq))\n            if max_results == 1 and distance_sq < 32:  # indistinguishable\n                break\n")],
     'two registered colours close to each other, the farther one registered first', 'the search stops at a colour that is near but not nearest', '''
from pytermor.color import ColorIndexed256
import pytermor
c = ColorIndexed256.find_closest(0x616161)
check(c.hex_value == 0x626262, c)
''')
seed('P05-zero', 'P05', [('pytermor/color.py', "        return [c for c, _ in sorted_result[:max_results]]", "        return [c for c, _ in sorted_result[:max_results or None]]")],
     'a request for no results at all (max_results 0)', 'the list is longer than requested', '''
from pytermor.color import ColorIndexed16
check(len(ColorIndexed16._approximator.approximate(0x123456, 0)) == 0)
check(len(ColorIndexed16._approximator.approximate(0x123456, 3)) == 3)
''')
seed('P06-tmux-blank', 'P06', [('pytermor/render.py', "            rendered_text += opening_tmux_style + line + closing_tmux_style\n", "            if line.isspace() and opening_tmux_style:\n                rendered_text += line.lstrip(' ')\n                continue\n            rendered_text += opening_tmux_style + line + closing_tmux_style\n")],
     'a styled text with a line of blanks only, rendered for tmux', 'the blanks of that line are lost', '''
from pytermor.render import TmuxRenderer, SgrRenderer, Style
SgrRenderer.set_up(force_styles=True)
TmuxRenderer.set_up(force_styles=True)
v = TmuxRenderer.render('a\\n   \\nb', Style(bold=True))
check(re.sub(r'#\\[[^]]*\\]', '', v) == 'a\\n   \\nb', repr(v))
''')
seed('P06-bold-dim', 'P06', [('pytermor/render.py', "        if style.dim:               result += [Seqs.DIM]\n", "        if style.dim and not style.bold:  result += [Seqs.DIM]\n")],
     'a style that is both bold and dim', 'one of the attributes set in the style is not switched on', '''
from pytermor.render import SgrRenderer, Style
SgrRenderer.set_up(force_styles=True)
check(SgrRenderer.render('x', Style(bold=True, dim=True)).startswith('\\x1b[1;2m'))
''')
seed('P07-both', 'P07', [('pytermor/render.py', "            if cls._compatibility_16_colors:\n                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)\n            if cls._compatibility_256_colors:\n                return ColorIndexed256.find_closest(hex_value).to_sgr(bg=bg)\n            return color.to_sgr(bg=bg)\n",
     "            if cls._compatibility_256_colors:\n                return ColorIndexed256.find_closest(hex_value).to_sgr(bg=bg)\n            if cls._compatibility_16_colors:\n                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)\n            return color.to_sgr(bg=bg)\n")],
     'both compatibility modes requested and an RGB colour', '256-colour codes are emitted in 16-colour mode', '''
from pytermor.render import SgrRenderer, Style
SgrRenderer.set_up(force_styles=True, compatibility_256_colors=True, compatibility_16_colors=True)
v = SgrRenderer.render('x', Style(fg=0x123456))
check('38;5' not in v, repr(v))
''')
seed('P08-alias-empty', 'P08', [('pytermor/render.py', "            self._runs += text._runs\n", "            if len(self):\n                self._runs += text._runs\n            else:\n                self._runs = text._runs\n")],
     'a text added to an empty one that is then extended further', 'the added text changes with its new owner', '''
from pytermor.render import Text
a, b = Text(''), Text('abc')
a.append(b)
a.append('def')
check(b.raw() == 'abc' and a.raw() == 'abcdef', b.raw(), a.raw())
''')
seed('P09-falsy', 'P09', [('pytermor/render.py', "            if getattr(self, attr) is None and inherit_val is not None:\n", "            if getattr(self, attr) is None and inherit_val:\n")],
     'a parent with an explicitly disabled attribute and a child that does not set it', 'the child does not take the disabled state (a grandchild of an enabled style then gets it enabled)', '''
from pytermor.render import Style
p = Style(bold=False)
c = Style(p)
check(c.bold is False, c.bold)
g = Style(Style(Style(), bold=False), italic=True)
check(g.bold is False and g.italic is True)
''')
seed('P10-exact', 'P10', [('pytermor/render.py', "    if spaces_amount < gapes_amount:\n", "    if spaces_amount <= gapes_amount and (pad_before or pad_after):\n        raise ValueError(f'There is not enough space for all values with padding')\n    if spaces_amount < gapes_amount:\n")],
     'padding requested and values that fit exactly', 'an error although the values fit', '''
from pytermor.render import distribute_padded
check(distribute_padded(['ab', 'cd'], 6, True, False) == ' ab cd')
check(distribute_padded(['ab', 'cd'], 7, True, True) == ' ab cd ')
''')
seed('P11-restart', 'P11', [('pytermor/util/time_delta.py', "                prev_frac = '{:d}{:s}'.format(floor(num - (next_num * next_unit_ratio)), short_unit_name)\n", "                prev_frac = '{:d}{:s}'.format(floor(num / next_unit_ratio * next_unit_ratio - next_num * next_unit_ratio), short_unit_name)\n")],
     'a number of units whose quotient is not exact in binary', 'the second unit is off by one for some values', '''
from pytermor.util.time_delta import registry
f = registry.get_longest()
for d in range(0, 10):
    for h in range(0, 24):
        v = f.format(d * 86400 + h * 3600)
        if d:
            check(v == '%dd %dh' % (d, h), d, h, v)
for h in range(1, 24):
    for m in range(60):
        check(f.format(h * 3600 + m * 60) == '%dh %dmin' % (h, m), h, m, f.format(h * 3600 + m * 60))
''')
seed('P12-thousand', 'P12', [('pytermor/util/prefixed_unit.py', "            elif abs(value) >= self._mcoef:\n", "            elif abs(value) > self._mcoef:\n")],
     'a negative value that is exactly one thousand of some prefixed unit', 'the value is refused with an error', '''
from pytermor.util.prefixed_unit import format_si_metric
for k in range(0, 8):
    for s in (1, -1):
        v = format_si_metric(s * 1000.0 * 1000 ** k, 'V')
        check(len(v) <= 7, v)
''')
seed('P12-exponent-len', 'P12', [('pytermor/util/auto_float.py', "        exponent_len = len(str(exponent)) + 1  # 'e'\n", "        exponent_len = 3 if -10 < exponent < 10 and exponent < 0 else 4 if exponent < 0 else 2 + (exponent > 9)  # 'e'\n")],
     'a number below 1e-99 or above 1e99', 'the text is longer than required', '''
from pytermor.util.auto_float import format_auto_float
for e in range(-300, 300, 3):
    for n in range(1, 9):
        v = format_auto_float(1.2 * 10.0 ** e, n)
        check(len(v) == n, e, n, v)
''')
seed('P12-overflow-sign', 'P12', [('pytermor/util/auto_float.py', "            return _OVERFLOW_CHAR * (len(sign) + req_len)\n", "            return _OVERFLOW_CHAR * max(1, req_len)\n")],
     'a negative number whose exponent does not fit', 'one character is missing', '''
from pytermor.util.auto_float import format_auto_float
for v in (-1e20, 1e20, -1e-20, 1e-20, -5e120):
    for n in range(1, 9):
        check(len(format_auto_float(v, n)) == n, v, n, format_auto_float(v, n))
''')
seed('P12-round-down', 'P12', [('pytermor/util/auto_float.py', "        if len(integer_str) > integer_len:\n", "        if len(integer_str) > req_len + len(sign):\n")],
     'a negative number just below a power of ten in as many places as it has digits', 'the text is one character longer than required', '''
from pytermor.util.auto_float import format_auto_float
for k in range(1, 9):
    for n in range(1, 12):
        for v in (10 ** k - .4, .4 - 10 ** k):
            check(len(format_auto_float(v, n)) == n, v, n, format_auto_float(v, n))
''')
seed('P12-kilo-digits', 'P12', [('pytermor/util/prefixed_unit.py', "                value *= self._mcoef\n", "                value *= self._mcoef if value > 0 else 1000\n")],
     'a small negative value in binary units', 'the number shown is off by the ratio of 1024 to 1000', '''
from pytermor.util.prefixed_unit import format_si_binary
for k in range(1, 6):
    a, b = format_si_binary(.9 / 1024 ** k), format_si_binary(-.9 / 1024 ** k)
    check(abs(float(a.split()[0]) + float(b.replace('- ', '-').split()[0])) < 1e-2, a, b)
''')
# ------------------------------------------------------------------------------------------------ third round
seed('K04-reset-zeros', 'K04', [(B + 'parser/parser.py', "            if sgr_params == b'' or sgr_params == b'0':", "            if not sgr_params.strip(b'0;'):")],
     'an SGR sequence with several zero or empty parameters (0;0 or ;)', 'it is displayed with the marker of the reset', '''
_, plain, _ = cli(b'a\\x1b[mb\\x1b[1mc\\n', '-t', '-m2', '--no-separators')
_, out, _ = cli(b'a\\x1b[0;0mb\\x1b[;md\\n', '-t', '-m2', '--no-separators')
reset, sgr = strip(plain).split('a')[1][0], strip(plain).split('b')[1][0]
check(reset != sgr)
check(reset not in strip(out) and strip(out).count(sgr) == 2, out)
''')
seed('K09-crlf', 'K09', [(B + 'reader.py', "re.finditer(b'\\x0a', raw_input)", "re.finditer(b'\\x0d?\\x0a', raw_input)"), (B + 'reader.py', 'raw_input = raw_input[:line_break.end()-1]', 'raw_input = raw_input[:line_break.start()]')],
     'a line limit and a carriage return before the last line break', 'the last byte of the last line is lost', '''
_, out, _ = cli(b'a\\r\\nb\\r\\nc\\r\\n', '-b', '-w4', '-L2')
check(strip(out).count('0d') + strip(out).count('0D') == 2, out)
''')
seed('P03-long-params', 'P03', [('pytermor/util/string_filter.py', "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])*)(m)')", "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;]){0,99})(m)')")],
     'an SGR sequence with a hundred characters of parameters or more', 'it is not removed and counts as visible text', '''
from pytermor.util import ReplaceSGR, ljust_sgr
s = '\\x1b[' + ';'.join(['38;2;100;100;100'] * 8) + 'mab\\x1b[m'
check(ReplaceSGR().apply(s) == 'ab')
check(ljust_sgr(s, 4, '.') == s + '..')
''')
seed('P02-eq-order', 'P02', [('pytermor/ansi.py', "    def __eq__(self, other: SequenceSGR):\n        if type(self) != type(other):\n            return False\n        return self._params == other._params", "    def __eq__(self, other: SequenceSGR):\n        if type(self) != type(other):\n            return False\n        return sorted(map(str, self._params)) == sorted(map(str, other._params))")],
     'two sequences with the same parameters in different order', 'they are equal', '''
from pytermor import SequenceSGR as S
check(S(1, 31) == S(1, 31) and S(1, 31) != S(31, 1) and S(1) != S(1, 1))
''')
seed('P04-near-grey', 'P04', [('pytermor/color.py', "        if c == 0:\n            h = 0\n", "        if c <= 1/255:\n            h = 0\n")],
     'a colour whose channels differ by one', 'the hue of an almost grey colour is 0', '''
from pytermor.color import Color
check(abs(Color.hex_value_to_hsv_channels(0x7f807f)[0] - 120) < 1e-6)
check(abs(Color.hex_value_to_hsv_channels(0x7f7f80)[0] - 240) < 1e-6)
''')
seed('P05-alias', 'P05', [('pytermor/color.py', "            self._approximation_cache = self._lookup_table.copy()\n", "            self._approximation_cache = self._lookup_table\n")],
     'several searches one after another: an answer becomes a colour of the palette', 'a search returns a colour that is not the nearest', '''
from pytermor.color import ColorIndexed16, ColorIndexed256, Color
import random
r = random.Random(5)
qs = [r.randrange(1 << 24) for _ in range(600)]
first = [ColorIndexed256.find_closest(q) for q in qs]
pal = {c.hex_value for c in first}
def d(a, b):
    x, y = Color.hex_value_to_rgb_channels(a), Color.hex_value_to_rgb_channels(b)
    return sum((p - q) ** 2 for p, q in zip(x, y))
for q, c in zip(qs, first):
    check(d(q, c.hex_value) == min(d(q, p) for p in pal), hex(q), c)
''')
seed('P07-lowbit', 'P07', [('pytermor/render.py', "        if isinstance(color, ColorRGB):\n            if cls._compatibility_16_colors:\n                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)", "        if isinstance(color, ColorRGB):\n            if cls._compatibility_16_colors:\n                return ColorIndexed16.find_closest(hex_value & 0xfefefe).to_sgr(bg=bg)")],
     'an RGB colour with an odd channel near the middle between two colours of the 16-colour palette', 'the substituted colour is not the nearest one', '''
from pytermor.render import SgrRenderer
from pytermor.color import ColorRGB, ColorIndexed16
SgrRenderer.set_up(force_styles=True, compatibility_16_colors=True)
bad = 0
for v in range(0, 256):
    for base in (0, 0x400000, 0xc000, 0xc0):
        c = ColorRGB(base | v * 0x010101 & 0xffffff)
        bad += SgrRenderer._render_color(c, False) != ColorIndexed16.find_closest(c.hex_value).to_sgr(bg=False)
check(bad == 0, bad)
''')
seed('P08-prepend-order', 'P08', [('pytermor/render.py', "            self._runs = text._runs + self._runs\n", "            for run in text._runs:\n                self._runs.insert(0, run)\n")],
     'a text of two pieces is prepended', 'its pieces come in reverse order', '''
from pytermor.render import Text
a, b = Text('12'), Text('ab')
b.append('cd')
a.prepend(b)
check(a.raw() == 'abcd12', a.raw())
''')
seed('P09-half', 'P09', [('pytermor/render.py', "        for attr in list(self.__dict__.keys()) + ['_fg', '_bg']:", "        for attr in list(self.__dict__.keys()) + ([] if self._fg or self._bg else ['_fg', '_bg']):")],
     'a style with its own foreground and a parent with a background', 'the background of the parent is not taken', '''
from pytermor.render import Style
p = Style(fg=0x112233, bg=0x445566)
check(Style(p, fg=0x010203).bg.hex_value == 0x445566)
check(Style(p, bg=0x010203).fg.hex_value == 0x112233)
check(Style(p).bg.hex_value == 0x445566)
''')
seed('P10-empty-first', 'P10', [('pytermor/render.py', "    if pad_before:\n        values.insert(0, '')", "    if pad_before and values[:1] != ['']:\n        values.insert(0, '')")],
     'the first value is empty and padding before is requested', 'the gap between the padding and the first value is missing', '''
from pytermor.render import distribute_padded
check(distribute_padded(['', 'ab'], 6, True, False) == '    ab')
check(distribute_padded(['', 'ab', 'c'], 9, True, False) == '    ab  c', distribute_padded(['', 'ab', 'c'], 9, True, False))
''')
seed('P11-frac-round', 'P11', [('pytermor/util/time_delta.py', "'{:d}{:s}'.format(floor(num - (next_num * next_unit_ratio)), short_unit_name)", "'{:d}{:s}'.format(round(num - (next_num * next_unit_ratio)), short_unit_name)")],
     'a number of seconds with a fraction of one half or more', 'the smaller unit is rounded up, up to 60 seconds', '''
from pytermor.util.time_delta import registry, TimeUnit, TimeDeltaFormatter
f = TimeDeltaFormatter([TimeUnit('sec', 60), TimeUnit('min', 60, custom_short='min', collapsible_after=10), TimeUnit('hour', 24)], allow_negative=True, unit_separator=' ')
check(f.format_raw(119.7) == '1min 59s', f.format_raw(119.7))
check(f.format_raw(100.2) == '1min 40s', f.format_raw(100.2))
''')
seed('K02-total-cols', 'K02', [(B + 'formatter/binary.py', "            self._offset += data_len\n", "            self._offset += data_len if force else cur_cols\n"), (B + 'formatter/binary.py', "                force = self._parser_buffer.closed\n", "                force = self._parser_buffer.closed and self._segment_buffer.data_len < req_bytes\n")],
     'a row served from the end of the input', 'offset labels run past the data', '''
for n in (1, 3, 15, 16, 17, 31, 32, 33):
    _, out, _ = cli(b'a' * n, '-b', '-w16', '--decimal-offsets')
    nums = [int(x) for x in re.findall(r'(\\d+)', strip(out))]
    check(n in nums[-3:], n, out)
''')
seed('K05-nfc', 'K05', [(B + 'template/template_utf8.py', "            decoded = raw.decode('utf8', errors='replace')\n", "            from unicodedata import normalize\n            decoded = normalize('NFC', raw.decode('utf8', errors='replace'))\n")],
     'a character with a canonical singleton decomposition (the Kelvin sign, the Angstrom sign, a compatibility ideograph)', 'another character is displayed', '''
for ch in '\\u212a\\u212b\\u2126\\uf900\\u00e9\\u4e2d':
    _, out, _ = cli(ch.encode() + b'\\n', '-t')
    check(ch in strip(out), hex(ord(ch)), out)
''')
seed('K06-focus-utf8', 'K06', [(B + 'template/template_utf8.py', "        if self._display_mode.is_ignored:\n            return default()\n", "        if not self._display_mode.is_default:\n            return default()\n")],
     'focus on UTF-8 sequences', 'focused sequences are displayed as their marker instead of the character', '''
data = '\\u00e9x\\u4e2d\\n'.encode()
check(strip(cli(data, '-t')[1]) == strip(cli(data, '-t', '-u')[1]))
check(strip(cli(data, '-b', '-d', '-w8')[1]) == strip(cli(data, '-b', '-d', '-w8', '-u')[1]))
''')
seed('K07-private', 'K07', [(B + 'template/template_escape_sgr.py', "        if self._brief_details_processed is not None:\n", "        if self._brief_details_processed:\n")],
     "an SGR sequence with private parameters only ('?' or '>') at level 1", 'the short form contains text that is not a code number', '''
for p in ('?', '>', '?4', '>4'):
    _, out, _ = cli(('ab\\x1b[%smcd\\n' % p).encode(), '-t', '-m1', '--no-separators')
    check('?' not in strip(out) and '>' not in strip(out), p, out)
''')
seed('K12-errno', 'K12', [('kolombos/app.py', "            self._exit(1)\n", "            self._exit(getattr(e, 'errno', None) or 1)\n")],
     'a file that does not exist or cannot be read', 'the exit status is the error number', '''
rc, out, err = cli(b'', '/nonexistent/file')
check(rc == 1, rc, err)
rc, out, err = cli(b'', tempfile.gettempdir())
check(rc == 1, rc, err)
''')
# ------------------------------------------------------------------------------------------------ fourth round
seed('K01-wide', 'K01', [(B + 'formatter/binary.py', "        req_bytes = cur_cols\n", "        req_bytes = min(cur_cols, 256)\n")],
     'more than 256 columns requested and more than 256 bytes of input left', 'rows carry 256 bytes and have different widths', '''
_, out, _ = cli(bytes(range(33, 123)) * 7, '-b', '-w300', '--no-offsets')
rows = [len(re.findall(r' [0-9a-f]{2}(?= )', r.split('│')[0])) for r in strip(out).split('\\n') if r.strip()]
check(strip(out).split('\\n')[0].count(' 2') > 30)
_, a, _ = cli(b'a' * 600, '-b', '-w300', '--no-offsets')
check([r.count(' 61') for r in strip(a).split('\\n') if r.strip()] == [300, 300], a)
''')
seed('K02-empty-total', 'K02', [(B + 'formatter/binary.py', "        if self._parser_buffer.closed and SettingsManager.app_settings.effective_print_offsets:\n", "        if self._parser_buffer.closed and self._offset and SettingsManager.app_settings.effective_print_offsets:\n")],
     'an empty input', 'the line with the total is missing', '''
_, out, _ = cli(b'', '-b', '-w4')
check('0x0000' in strip(out), out)
''')
seed('K08-sep-bold', 'K08', [(B + 'template/template_escape_sgr.py', "f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'", "f'{Seqs.UNDERLINED_OFF}{Seqs.BOLD}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'")],
     'an SGR sequence with two parameters at level 1', 'the text behind it is bold up to the end of the line and beyond', '''
def states(s):
    on, out = set(), []
    for m in re.finditer('\\x1b\\\\[([0-9;]*)m|(.)', s, re.S):
        if m.group(2) is not None:
            out.append((m.group(2), 1 in on))
            continue
        for p in (m.group(1) or '0').split(';'):
            p = int(p or 0)
            on = set() if p == 0 else on - {1} if p == 22 else on | {p}
    return out
def bold_of(data, ch):
    return [b for c, b in states(cli(data, '-t', '-m1', '--no-separators', '--no-line-numbers', '-S')[1]) if c == ch]
check(bold_of(b'\\x1b[1mq\\nw\\n', 'q') == bold_of(b'\\x1b[1;4mq\\nw\\n', 'q'))
check(bold_of(b'\\x1b[1mq\\nw\\n', 'w') == bold_of(b'\\x1b[1;4mq\\nw\\n', 'w'))
''')
seed('K09-chunk-lines', 'K09', [(B + 'reader.py', "                    for line_break in re.finditer(b'\\x0a', raw_input):\n                        lines += 1\n", "                    for lines, line_break in enumerate(re.finditer(b'\\x0a', raw_input), 1):\n")],
     'a line limit that is reached only in a later chunk', 'the count starts anew with every chunk', '''
_, out, _ = cli(b'a\\nb\\nc\\nd\\ne\\nf\\n' * 3, '-t', '-L3', '-f', '4')
check('c' in strip(out) and 'd' not in strip(out), out)
''')
seed('K11-details-debug', 'K11', [('kolombos/settings.py', "        if self.marker <= 0:\n", "        if self.marker <= 0 and not self.debug_buffer_contents_full:\n")],
     'debug level 4 and no marker details', 'the lines show details that are not there without debugging', '''
data = b'a\\x01b\\x1b[1mc\\n'
_, a, _ = cli(data, '-t')
_, b, _ = cli(data, '-t', '-DDDD')
check(strip(a).split('│')[1].rstrip('\\n') in strip(b), a, b)
tail = strip(a).split('│')[1].strip()
check(any(l.split('│')[-1].strip() == tail for l in strip(b).split('\\n')), a, b)
''')
seed('K12-debug-stdout', 'K12', [('kolombos/console.py', "            Console.error(error)\n", "            Console.print(Console.FMT_ERROR(Spans.BOLD('ERROR: ') + error))\n")],
     'an error in debug mode', 'the error does not appear on the standard error stream', '''
rc, out, err = cli(b'', '-D', '/nonexistent/file')
check(rc == 1 and 'FileNotFoundError' in err, rc, err)
''')
seed('K05-pad4', 'K05', [(B + 'template/template_utf8.py', "                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)\n", "                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR if raw[0] < 0xf4 else ' ')\n")],
     'a character of plane 16 in binary mode with decoding', 'it is padded with spaces', '''
for ch in '\\u00e9\\u4e2d\\U0001f600\\U00100000\\U0010fffd':
    _, out, _ = cli(ch.encode(), '-b', '-d', '-w8')
    check('_' * (len(ch.encode()) - 1) + ch in strip(out), hex(ord(ch)), out)
''')
seed('K06-bin-ignored', 'K06', [(B + 'template/template_utf8.py', "        if self._display_mode.is_ignored:\n", "        if self._display_mode.is_ignored and not self._decode:\n")],
     'UTF-8 sequences ignored in binary mode with decoding', 'the characters are displayed', '''
_, out, _ = cli('a\\u00e9b'.encode(), '-b', '-d', '-U', '-w8')
check('\\u00e9' not in strip(out) and strip(out).count('\\u00d7') == 2, out)
''')
seed('P02-iadd', 'P02', [('pytermor/ansi.py', "    def __iadd__(self, other: SequenceSGR) -> SequenceSGR:\n        return self.__add__(other)\n", "    def __iadd__(self, other: SequenceSGR) -> SequenceSGR:\n        self._ensure_sequence(other)\n        self._params += other._params\n        return self\n")],
     'an augmented addition to a sequence that is used elsewhere', 'the sequence the result was made from is changed', '''
from pytermor import SequenceSGR as S
a = S(31)
b = a
b += S(1)
check(a.params == [31] and b.params == [31, 1], a, b)
''')
seed('P02-neg-last', 'P02', [('pytermor/ansi.py', "        [cls._validate_extended_color(color) for color in [r, g, b]]\n", "        [cls._validate_extended_color(color) for color in ([r, g, b] if not bg else [r, g, abs(b)])]\n")],
     'a negative blue channel for the background', 'it is accepted', '''
from pytermor import SequenceSGR as S
for args in ((-1, 0, 0), (0, -1, 0), (0, 0, -1), (0, 0, 256)):
    for bg in (False, True):
        try:
            S.init_color_rgb(*args, bg=bg)
        except ValueError:
            continue
        check(False, args, bg)
''')
seed('P03-unicode-digits', 'P03', [('pytermor/util/string_filter.py', "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])*)(m)')", "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([\\d;])*)(m)')")],
     'ESC [ followed by digits that are not ASCII', 'it is removed though it is no SGR sequence', '''
from pytermor.util import ReplaceSGR
s = 'a\\x1b[\\u0663mb'
check(ReplaceSGR().apply(s) == s)
check(ReplaceSGR().apply('a\\x1b[31;1mb') == 'ab')
''')
seed('P01-pair-window', 'P01', [('pytermor/ansi.py', "                    opening_params = opening_params[complex_total_len:]\n", "                    opening_params = opening_params[complex_total_len:] if len(opening_params) > complex_total_len else opening_params[-1:] if complex_total_len == 5 and opening_params[-1] == 7 else []\n")],
     'an RGB colour at the end of the list whose blue channel is 7', 'the channel is taken for an attribute code', '''
from pytermor import Span
check(Span(38, 2, 1, 1, 7).closing_seq.params == [39], Span(38, 2, 1, 1, 7))
check(Span(48, 2, 1, 1, 5).closing_seq.params == [49])
''')
seed('P06-squash', 'P06', [('pytermor/render.py', "            return reduce(lambda p, c: p + c, result, NOOP_SEQ)\n", "            return reduce(lambda p, c: p + c if len(p.params) < 8 else p, result, NOOP_SEQ)\n")],
     'a style with all nine attributes', 'the last attribute is not switched on', '''
from pytermor.render import Style, SgrRenderer
SgrRenderer.set_up(force_styles=True)
s = Style(blink=True, bold=True, crosslined=True, dim=True, double_underlined=True, inversed=True, italic=True, overlined=True, underlined=True)
check(SgrRenderer.render('a', s).split('m')[0].count(';') == 8, SgrRenderer.render('a', s))
''')
seed('P05-sort-key', 'P05', [('pytermor/color.py', "        sorted_result = sorted(result, key=lambda r: r[1])\n", "        sorted_result = sorted(result, key=lambda r: r[1] >> 1)\n")],
     'two palette colours whose squared distances differ by one', 'the second nearest is returned', '''
from pytermor.color import Approximator, ColorIndexed256
class X:
    def __init__(self, h): self.hex_value = h
a = Approximator()
a.add_to_map(X(0x010101))
a.add_to_map(X(0x000101))
check(a.find_closest(0x000000).hex_value == 0x000101, hex(a.find_closest(0).hex_value))
''')
# ------------------------------------------------------------------------------------------------ fifth round
seed('K08-zero-param', 'K08', [(B + 'segment/buffer.py', "            if len(f.opening_seq.params) == 0 or set(f.opening_seq.params) == {0}:\n", "            if len(f.opening_seq.params) == 0 or f.opening_seq.params[-1] == 0:\n")],
     'coloured markers and an SGR sequence whose last parameter is 0', 'its details lose the formatting of their class', '''
_, out, _ = cli(b'\\x1b[48;2;1;1;0mx\\n', '-t', '-m2', '--color-markers')
check(re.search(r'\\x1b\\[[0-9;]*48;2;1;1;0m', out), repr(out))
''')
seed('K09-short-read', 'K09', [(B + 'reader.py', "            while raw_input := self._io.read(self._chunk_size):\n", "            while raw_input := self._io.read1(self._chunk_size):\n"),
     (B + 'reader.py', "                self._offset += len(raw_input)\n", "                self._offset += len(raw_input)\n                if len(raw_input) < self._chunk_size:  # nothing left\n                    raw_input = b''\n                    break\n")],
     'input that arrives through a pipe in pieces', 'only the first piece is shown', '''
import subprocess, sys
p = subprocess.Popen([sys.executable, '-m', 'kolombos', '-t'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdin.write(b'abc\\n'); p.stdin.flush()
import time
time.sleep(1.5)
p.stdin.write(b'xyz\\n'); p.stdin.flush()
p.stdin.close()
out = p.stdout.read().decode()
check('abc' in strip(out) and 'xyz' in strip(out), out)
''')
seed('K11-trim-log', 'K11', [(B + 'parser/parser.py', "        debug_msg = f'Match group #{mgroup:02d}: '\n", "        debug_msg = f'Match group #{mgroup:02d}: '\n        if self._debug_buffer.is_verbose and len(segments) > 12:\n            debug_msg += f'({len(segments)} segments) '\n            del segments[12:]\n"),
     ('kolombos/console.py', "    def write(self, level: int, s: str, offset: int = None, end='\\n', no_default_prefix=False, flush=True):\n", "    @property\n    def is_verbose(self) -> bool:\n        return SettingsManager.app_settings.debug >= 2\n\n    def write(self, level: int, s: str, offset: int = None, end='\\n', no_default_prefix=False, flush=True):\n")],
     'debug level 2 or above and more than six control characters with details in one run', 'the rest of the run is missing in the output', '''
data = b'\\x01\\x02\\x03\\x04\\x05\\x06\\x07\\x01\\x02\\x03\\n'
_, a, _ = cli(data, '-t', '-m1')
_, b, _ = cli(data, '-t', '-m1', '-DD')
row = strip(a).split('│')[1].split('\\n')[0]
check(row in strip(b), a, b)
''')
seed('K07-extra-allowed', 'K07', [(B + 'template/template_escape_sgr.py', "                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:\n", "                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB and max(pcodes[1:]) <= 255:\n")],
     'an RGB colour followed by a code above 255', 'the colour is not shown in short form', '''
_, out, _ = cli(b'\\x1b[38;2;1;2;3;300mx\\n', '-t', '-m1')
check('F010203' in strip(out), out)
''')
seed('K06-unignored-details', 'K06', [(B + 'template/template_control.py', "        if self._display_mode.is_ignored:\n            return\n", "        if self._display_mode.is_ignored and b < 0x1c:\n            return\n")],
     'ignored control characters 1c-1f with details', 'their details are shown', '''
_, out, _ = cli(b'a\\x1db\\n', '-t', '-m1', '-C')
check('a\\u00d7b' in strip(out), out)
''')
seed('K10-hold-cr', 'K10', [(B + 'parser/parser.py', "        unmatched = apply_filters(raw[:len(raw) - len(incomplete)], self.F_SEPARATOR)\n", "        if not incomplete and not self._parser_buffer.closed and raw.endswith(b'\\x0d'):\n            incomplete = b'\\x0d'  # may be the first half of a line break\n            raw = raw[:-1]\n        unmatched = apply_filters(raw[:len(raw) - len(incomplete)], self.F_SEPARATOR)\n")],
     'a chunk that ends with a carriage return', 'the byte in front of it is lost', '''
_, out, _ = cli(b'abc\\rdef\\n', '-t', '-f', '4')
check('abc' in strip(out) and 'def' in strip(out), out)
''')
seed('K12-late-flush', 'K12', [('kolombos/console.py', "        for buffer in Console.buffers:\n            buffer.flush()\n", "        for buffer in Console.buffers[-8:]:\n            buffer.flush()\n"),
     (B + 'formatter/text.py', "            self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num)\n\n", "            self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num, flush=final_proc_line.endswith('\\n'))\n\n")],
     'nothing a user sees today; output left in a buffer that is not among the last eight when an error occurs', 'it is not printed before the error', '''
import io, contextlib
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.console import Console, ConsoleOutputBuffer, ConsoleDebugBuffer
Console.buffers.clear()
b = ConsoleOutputBuffer()
rest = [ConsoleDebugBuffer() for _ in range(9)]
b.write('pending', flush=False)
o = io.StringIO()
with contextlib.redirect_stdout(o), contextlib.redirect_stderr(io.StringIO()):
    Console.on_exception(ValueError('x'))
check('pending' in o.getvalue(), o.getvalue())
''')
seed('P06-html-escape', 'P06', [('pytermor/render.py', """        return f'<span{span_class_str} style="{span_style_str}">'+str(text)+'</span>'""", """        return f'<span{span_class_str} style="{span_style_str}">'+str(text).strip('\\n').replace('\\r\\n', '\\n')+'</span>'""")],
     'a text with line breaks at its ends in the HTML renderer', 'they are lost', '''
from pytermor.render import HtmlRenderer, Style
check('>a\\n</span>' in HtmlRenderer.render('a\\n', Style(fg='red')))
''')
seed('P06-tmux-hash', 'P06', [('pytermor/render.py', "            rendered_text += opening_tmux_style + line + closing_tmux_style\n", "            rendered_text += opening_tmux_style + line.replace('#[', '##[') + closing_tmux_style\n")],
     'a text with #[ in the tmux renderer', 'a character is added', '''
from pytermor.render import TmuxRenderer, Style
TmuxRenderer.set_up(force_styles=True)
check('a#[b' in TmuxRenderer.render('a#[b', Style(fg='red')) and '##[' not in TmuxRenderer.render('a#[b', Style()))
''')
seed('P08-merge', 'P08', [('pytermor/render.py', "            self._runs.append(self._TextRun(text))\n", "            last = self._runs[-1] if self._runs else None\n            if last is not None and not last._style:\n                last._string += text\n            else:\n                self._runs.append(self._TextRun(text))\n")],
     'a text added to another one, then a string added to the result', 'the string is added to the first text, too', '''
from pytermor.render import Text, Style
a, b = Text('a', 'red'), Text('b')
a.append(b)
a.append('c')
check(a.raw() == 'abc' and b.raw() == 'b', a.raw(), b.raw())
''')
seed('P09-class', 'P09', [('pytermor/render.py', "            if getattr(self, attr) is None and inherit_val is not None:\n", "            if getattr(self, attr) is None and inherit_val:\n")],
     'a parent with an attribute that is explicitly disabled', 'the child does not take it over', '''
from pytermor.render import Style
p = Style(bold=False)
check(Style(p).bold is False, Style(p).bold)
g = Style(Style(p), bold=None)
check(g.bold is False)
''')
seed('P07-cached-bg', 'P07', [('pytermor/color.py', "        if self._hex_value is None:\n            return NOOP_SEQ\n        return SequenceSGR.init_color_indexed(self._code, bg=bg)\n", "        if self._hex_value is None:\n            return NOOP_SEQ\n        if not hasattr(self, '_sgr') or self._code >= 16:\n            self._sgr = SequenceSGR.init_color_indexed(self._code, bg=bg)\n        return self._sgr\n")],
     'one of the first sixteen 256-colours used as foreground and then as background', 'the background is rendered as foreground', '''
from pytermor.color import ColorIndexed256
from pytermor.render import SgrRenderer, Style
SgrRenderer.set_up(force_styles=True)
c = ColorIndexed256._code_map.get(9)
if c is None:
    c = ColorIndexed256(0x123456, 9)
check('38;5;9' in SgrRenderer.render('x', Style(fg=c)) and '48;5;9' in SgrRenderer.render('x', Style(bg=c)))
''')
seed('P05-evict', 'P05', [('pytermor/color.py', "        self._approximation_cache[hex_value] = closest\n", "        if len(self._approximation_cache) >= 2 * len(self._lookup_table):  # keep it small\n            self._lookup_table = dict(list(self._lookup_table.items())[:len(self._approximation_cache)])\n            self._lookup_table.pop(next(reversed(self._lookup_table)))\n            self._approximation_cache.clear()\n        self._approximation_cache[hex_value] = closest\n")],
     'more searches than there are palette colours', 'a colour is forgotten', '''
from pytermor.color import Approximator
class X:
    def __init__(self, h): self.hex_value = h
a = Approximator()
for h in (0, 0xffffff): a.add_to_map(X(h))
for h in (1, 2, 3, 4, 5, 6): a.find_closest(h)
check(a.find_closest(0xfffffe).hex_value == 0xffffff)
''')
seed('P11-year', 'P11', [('pytermor/util/time_delta.py', "                next_num = floor(num / next_unit_ratio)\n", "                next_num = floor(num / next_unit_ratio + 1e-9)\n")],
     'a duration a hair below a whole number of the next unit, 3599.9999999 s', 'it is rounded up', '''
from pytermor.util.time_delta import TimeDeltaFormatter, TimeUnit
f = TimeDeltaFormatter([TimeUnit('s', 60), TimeUnit('m', 60), TimeUnit('h', overflow_afer=99)], False)
check(f.format(119.99999999) == '1m', f.format(119.99999999))
''')
seed('P03-cache', 'P03', [('pytermor/util/stdlib_ext.py', "    sanitized = ReplaceSGR().apply(s)\n    fill_len = max(0, width - len(sanitized))\n", "    sanitized = ReplaceSGR().apply(s).expandtabs(1) if '\\x1b[' in s else s.rstrip('\\n')\n    fill_len = max(0, width - len(sanitized))\n")],
     'a text without SGR sequences that ends with a line break', 'one fill character too many', '''
from pytermor.util.stdlib_ext import center_sgr
check(len(center_sgr('ab\\n', 7)) == 7, repr(center_sgr('ab\\n', 7)))
check(len(center_sgr('ab', 7)) == 7)
''')
seed('P04-fold', 'P04', [('pytermor/color.py', "        elif v == gn:\n", "        elif v == gn and gn - vmin > 1/255 + 1e-9:\n")],
     'a nearly grey green', 'an error or the wrong hue', '''
from pytermor.color import Color
h, s, v = Color.hex_value_to_hsv_channels(0x404140)
check(abs(h - 120) < 1e-6, h)
''')
seed('P02-hash', 'P02', [('pytermor/ansi.py', "        return SequenceSGR(*self._params, *other._params)\n", "        if other._params == [0]:  # everything before is reset anyway\n            return SequenceSGR(*other._params)\n        return SequenceSGR(*self._params, *other._params)\n")],
     'the reset sequence added to another one', 'the parameters before it are dropped', '''
from pytermor import SequenceSGR as S
check((S(31) + S(0)).params == [31, 0])
''')
# ------------------------------------------------------------------------------------------------ sixth round
seed('K08-cut-close', 'K08', [(B + 'segment/buffer.py', "        output.extend([OneUseSequenceRef(Span(sgr).closing_seq) for sgr in self._active_sgrs])\n", "        output.extend([OneUseSequenceRef(SequenceSGR(39, 49)) for _ in self._active_sgrs])\n")],
     'a row boundary inside a run of focused characters (inverse video)', 'the attribute leaks into the next row', '''
_, out, _ = cli(b'\\x01' * 12, '-b', '-w8', '-c')
row = out.split('\\n')[0]
on = set()
for codes in re.findall(r'\\x1b\\[([0-9;]*)m', row):
    for c in codes.split(';') if codes else ['0']:
        c = int(c or 0)
        if c == 0: on.clear()
        elif c == 7: on.add(7)
        elif c == 27: on.discard(7)
check(not on, repr(row))
''')
seed('K12-empty-msg', 'K12', [('kolombos/app.py', "            self._exit(1)\n", "            self._exit(1 if str(e) else 0)\n")],
     'an error without a message', 'the exit status is 0', '''
import subprocess, sys
p = subprocess.run([sys.executable, '-c', "import kolombos.app as a\\nimport kolombos.runner as r\\nfrom kolombos.runner import RunnerFactory\\ndef f(*x): raise NotImplementedError()\\na.RunnerFactory.create = f\\nimport sys; sys.argv=['kolombos']\\na.App().run()"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(p.returncode == 1 and b'NotImplementedError' in p.stderr, p.returncode, p.stderr)
''')
seed('P06-tmux-ext', 'P06', [('pytermor/render.py', "            cls._sgr_to_tmux_style(Span(sgr).closing_seq) for sgr in opening_sgrs\n", "            cls._sgr_to_tmux_style(Span(sgr).closing_seq) for sgr in opening_sgrs if sgr != Seqs.OVERLINED\n")],
     'an overlined style in the tmux renderer', 'the attribute is not switched off behind the line', '''
from pytermor.render import TmuxRenderer, Style
TmuxRenderer.set_up(force_styles=True)
check('nooverline' in TmuxRenderer.render('a', Style(overlined=True)), TmuxRenderer.render('a', Style(overlined=True)))
''')
seed('P07-exact', 'P07', [('pytermor/render.py', "        elif isinstance(color, ColorIndexed256):\n            if cls._compatibility_16_colors:\n", "        elif isinstance(color, ColorIndexed256):\n            if cls._compatibility_16_colors and ColorIndexed16.find_closest(hex_value).hex_value != hex_value:\n")],
     'a 256-colour whose value is also one of the 16-colour palette, in 16-colour mode', 'a 256-colour code is emitted', '''
from pytermor.color import Colors, ColorIndexed256, ColorIndexed16
from pytermor.render import SgrRenderer, Style
SgrRenderer.set_up(force_styles=True, compatibility_16_colors=True)
for c in vars(Colors).values():
    if isinstance(c, ColorIndexed256):
        check('38;5' not in SgrRenderer.render('x', Style(fg=c)), c, SgrRenderer.render('x', Style(fg=c)))
''')
seed('P08-len-cache', 'P08', [('pytermor/render.py', "        return sum(len(r) for r in self._runs)\n", "        if getattr(self, '_len', None) is None or len(self._runs) != self._len[0]:\n            self._len = len(self._runs), sum(len(r) for r in self._runs)\n        return self._len[1]\n"),
     ('pytermor/render.py', "        if isinstance(text, str):\n            self._runs.insert(0, self._TextRun(text))\n", "        if isinstance(text, str):\n            if not self._runs[0]._style:\n                self._runs[0] = self._TextRun(text + self._runs[0]._string)\n            else:\n                self._runs.insert(0, self._TextRun(text))\n")],
     'the length asked for, then a string prepended to a text that begins with an unstyled piece', 'the length is the old one', '''
from pytermor.render import Text
t = Text('abc')
len(t)
t.prepend('xy')
check(len(t) == 5 and t.raw() == 'xyabc', len(t))
''')
seed('K03-wide-line', 'K03', [(B + 'segment/buffer.py', "            if el.is_newline:\n                has_newline = True\n                break\n", "            if el.is_newline or avail_bytes > 65536:\n                has_newline = True\n                break\n")],
     'a line longer than 64 KB', 'it is broken into several lines', '''
_, out, _ = cli(b'ab ' * 30000 + b'\\n', '-t')
check(len([l for l in strip(out).split('\\n') if '│' in l]) == 1, len(out.split('\\n')))
''')
seed('P12-floor', 'P12', [('pytermor/util/prefixed_unit.py', "                num_str = f'{trunc(value)!s:.{self._max_value_len}s}'\n", "                num_str = f'{int(value // 1)!s:.{self._max_value_len}s}'\n")],
     'a negative amount that is not whole, in the binary formatter', 'it is rounded away from zero', '''
from pytermor.util.prefixed_unit import format_si_binary
check(format_si_binary(-1.5).startswith('-1'), format_si_binary(-1.5))
''')
seed('P10-one', 'P10', [('pytermor/render.py', "    gapes_amount = values_amount - 1\n", "    gapes_amount = max(1, values_amount - 1)\n")],
     'a single value that fills the width exactly', 'an error is raised', '''
from pytermor.render import distribute_padded
check(distribute_padded(['abc'], 3) == 'abc')
''')
seed('P09-flip', 'P09', [('pytermor/render.py', "        self._fg, self._bg = self._bg, self._fg\n", "        self.fg, self.bg = self._bg or NOOP_COLOR, self._fg or NOOP_COLOR\n        if self.inversed and self._fg == self._bg:\n            self.inversed = None\n")],
     'an inversed style with equal foreground and background that is flipped', 'another attribute is changed', '''
from pytermor.render import Style
s = Style(fg=0x10, bg=0x10, inversed=True).flip().flip()
check(s.inversed is True)
''')
seed('P11-neg-pad', 'P11', [('pytermor/util/time_delta.py', "            result = rjust_sgr(result, self._max_len)\n", "            result = rjust_sgr(result, self._max_len) if result[:1] != '-' else '-' + rjust_sgr(result[1:], self._max_len)\n")],
     'a negative time delta with padding requested', 'it is one character too long', '''
from pytermor.util.time_delta import registry
f = registry.get_longest()
check(len(f.format(-90000, always_max_len=True)) == f.max_len)
''')
# ------------------------------------------------------------------------------------------------ seventh round
seed('K06-excl-group', 'K06', [('kolombos/arghelp.py', "        utf8_output_group.add_argument('-u', '--focus-utf8'", "        esc_output_group.add_argument('-u', '--focus-utf8'")],
     'UTF-8 sequences focused and escape sequences ignored in the same run', 'the command line is rejected', '''
rc, out, _ = cli('\\x1b[1mж'.encode(), '-u', '-E')
check(rc == 0 and 'ж' in out, rc, out)
''')
seed('K12-late-format', 'K12', [('kolombos/runner/byteio.py', "        self._formatter.format()\n", "        if finish or not offset:\n            self._formatter.format()\n")],
     'a read error behind the second chunk of the input', 'what was read between the first chunk and the error is not shown', '''
import contextlib, io
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.app import App
class Raw:
    closed = False
    n = 0
    def read(self, size):
        self.n += 1
        if self.n > 3:
            raise OSError('disk')
        return b'line%d\\n' % self.n
    def close(self):
        self.closed = True
class In:
    buffer = Raw()
sys.stdin = In()
sys.argv = ['kolombos', '-f', '6']
o, e = io.StringIO(), io.StringIO()
try:
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        App().run()
except SystemExit as ex:
    check(ex.code == 1)
check('line3' in o.getvalue(), o.getvalue())
''')
seed('K03-wrap-10000', 'K03', [(B + 'formatter/text.py', "            self._line_num += 1\n", "            self._line_num = self._line_num % 9999 + 1\n")],
     'an input of more than 9999 lines', 'line numbers start again', '''
_, out, _ = cli(b'a\\n' * 10001)
check('10001│a' in strip(out), strip(out)[-60:])
''')
seed('K10-crop-first', 'K10', [(B + 'parser/buffer.py', "        offset_delta = self._raw_buffer.rfind(new_buffer)\n", "        offset_delta = self._raw_buffer.find(new_buffer)\n")],
     'a chunk that ends inside a sequence whose beginning occurs earlier in the same chunk', 'a part of the input is shown twice', '''
data = 'жж'.encode()
_, a, _ = cli(data)
_, b, _ = cli(data, '-f', '3')
check(strip(a) == strip(b), a, b)
''')
seed('K11-crop-level', 'K11', [(B + 'parser/buffer.py', "        self._debug_buffer.write(3, f'Cropping')\n", "        self._debug_buffer.write(0, f'Cropping')\n")],
     'a chunk that ends inside a sequence', 'a debug message without debug mode', '''
_, out, _ = cli('жж'.encode(), '-f', '3')
check('Cropping' not in out, out)
''')
seed('K04-del-class', 'K04', [(B + 'template/registry.py', "        self.CONTROL_CHAR_DELETE = Template(c_cc, ", "        self.CONTROL_CHAR_DELETE = Template(CharClass.PRINTABLE_CHAR, ")],
     'the DEL character with printable or control characters ignored or focused', 'it follows the options of another class', '''
_, out, _ = cli(b'a\\x7fb', '-C')
check('a×b' in strip(out), strip(out))
_, out, _ = cli(b'a\\x7fb', '-P')
check('×→×' in strip(out), strip(out))
''')
seed('P03-empty-sgr', 'P03', [('pytermor/util/string_filter.py', "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])*)(m)')", "SGR_REGEXP = re.compile(r'(\\x1b)(\\[)(([0-9;])+)(m)')")],
     'a text with a reset in its short form (ESC[m)', 'three invisible characters are counted as visible', '''
from pytermor.util.stdlib_ext import ljust_sgr, rjust_sgr, center_sgr
for f in (ljust_sgr, rjust_sgr, center_sgr):
    r = f('\\x1b[1mab\\x1b[m', 6)
    check(len(strip(r)) == 6, repr(r))
''')
seed('K06-override-order', 'K06', [(B + 'partial_override.py', "            for key in keys:\n", "            for key in reversed(keys):\n")],
     'ignored binary data in binary mode (two overrides of the same label)', 'the data is shown as if not ignored', '''
_, out, _ = cli(b'a\\xff\\xfeb', '-b', '-w8', '-I')
check('××' in strip(out), strip(out))
''')
