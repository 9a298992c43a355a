"""Runs the real program (current /repo) in-process on concrete input and options."""
from __future__ import annotations
import io, os, signal, sys, contextlib

REPO = os.environ.get('KV_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

FLAGS = {'binary': '-b', 'decode': '-d', 'no_separators': '--no-separators', 'no_line_numbers': '--no-line-numbers',
         'decimal_offsets': '--decimal-offsets', 'no_offsets': '--no-offsets', 'color_markers': '--color-markers',
         'focus_control': '-c', 'focus_esc': '-e', 'focus_space': '-s', 'focus_utf8': '-u', 'focus_binary': '-i',
         'focus_printable': '-p', 'ignore_control': '-C', 'ignore_esc': '-E', 'ignore_space': '-S',
         'ignore_utf8': '-U', 'ignore_binary': '-I', 'ignore_printable': '-P'}
LONG = {'binary': '--binary', 'decode': '--decode', 'focus_control': '--focus-control', 'focus_esc': '--focus-esc',
        'focus_space': '--focus-space', 'focus_utf8': '--focus-utf8', 'focus_binary': '--focus-binary',
        'focus_printable': '--focus-printable', 'ignore_control': '--ignore-control', 'ignore_esc': '--ignore-esc',
        'ignore_space': '--ignore-space', 'ignore_utf8': '--ignore-utf8', 'ignore_binary': '--ignore-binary',
        'ignore_printable': '--ignore-printable'}


class Timeout(Exception):
    pass


class ShortReads(io.RawIOBase):
    """a byte source that returns the given chunk sizes (cut to what is asked for)"""
    def __init__(self, data: bytes, sizes=None):
        super().__init__()
        self.data, self.pos, self.sizes, self.k = data, 0, list(sizes or []), 0

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        if self.sizes:
            n = min(n, max(1, self.sizes[self.k % len(self.sizes)]))
            self.k += 1
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readable(self):
        return True

    def fileno(self):
        raise OSError('no fileno')


class FakeStdin:
    def __init__(self, raw):
        self.buffer = raw

    def isatty(self):
        return False


class Result:
    def __init__(self, out, err, code, exc=None, timeout=False):
        self.out, self.err, self.code, self.exc, self.timeout = out, err, code, exc, timeout

    def __repr__(self):
        return 'Result(code=%r, timeout=%r, exc=%r, out=%r, err=%r)' % (
            self.code, self.timeout, self.exc, self.out[-300:], self.err[-300:])


def argv_of(o: dict, long=False) -> list:
    a = []
    for k, v in o.items():
        if k in FLAGS:
            if v:
                a.append(LONG.get(k, FLAGS[k]) if long else FLAGS[k])
        elif v is None:
            continue
        elif k == 'marker':
            a.append('-m%d' % v if not long else '--marker=%d' % v)
        elif k == 'columns':
            a.append('-w%d' % v if not long else '--columns=%d' % v)
        elif k == 'buffer':
            a.append('-f%d' % v if not long else '--buffer=%d' % v)
        elif k == 'max_bytes':
            a.append('-B%d' % v if not long else '--max-bytes=%d' % v)
        elif k == 'max_lines':
            a.append('-L%d' % v if not long else '--max-lines=%d' % v)
        elif k == 'debug':
            if v:
                a.append('-' + 'D' * v)
        elif k == 'filename':
            a.append(str(v))
        elif k in ('term_cols', 'reads'):
            pass
        elif k == 'text':
            if v:
                a.append('-t' if not long else '--text')
        else:
            raise KeyError(k)
    return a


def reset_globals():
    from kolombos.console import Console
    Console.buffers.clear()
    Console.settings_prefix_len = 0


def split_opts(o):
    """options for the command line, and settings the command line refuses to combine (set directly)"""
    late = {}
    o = dict(o)
    for k in list(o):
        if k.startswith('ignore_') and o[k] and o.get('focus_' + k[7:]):
            late['focus_' + k[7:]] = True
            o['focus_' + k[7:]] = False
    if o.get('no_offsets') and o.get('decimal_offsets'):
        late['decimal_offsets'] = True
        o['decimal_offsets'] = False
    return o, late


def run_cli(data: bytes, o: dict | None = None, timeout=10.0, long=False, before=None) -> Result:
    """run the whole program (argument parsing included) on data given at standard input"""
    o, late = split_opts(o or {})
    from kolombos.app import App
    from kolombos.settings import SettingsManager
    orig_parse = App._parse_args
    if late:
        def parse(self):
            orig_parse(self)
            for k, v in late.items():
                setattr(SettingsManager.app_settings, k, v)
        App._parse_args = parse
    reset_globals()
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin, os.environ.get('COLUMNS')
    sys.argv = ['kolombos'] + argv_of(o, long)
    sys.stdin = FakeStdin(ShortReads(data, o.get('reads')))
    os.environ['COLUMNS'] = str(o.get('term_cols', 80))
    code, exc, to = None, None, False

    def onalarm(*_):
        raise Timeout()
    oldh = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if before:
                    before()
                App().run()
                code = 'no-exit'
            except SystemExit as e:
                code = e.code if e.code is not None else 0
            except Timeout:
                to = True
            except BaseException as e:      # noqa
                exc = '%s: %s' % (type(e).__name__, e)
    finally:
        App._parse_args = orig_parse
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, oldh)
        sys.argv, sys.stdin = old[0], old[1]
        if old[2] is None:
            os.environ.pop('COLUMNS', None)
        else:
            os.environ['COLUMNS'] = old[2]
        if 'Timeout' in err.getvalue():
            to = True
    return Result(out.getvalue(), err.getvalue(), code, exc, to)
