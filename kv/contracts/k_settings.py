"""K06, K07, K02, K03: from the options given to the display modes the rest of the program asks for"""
from kv.engine.harness import contract
from kv.contracts.k_template import options, CLASSES
from kv.contracts import k_parser as KP
import kolombos.settings as ST
import kolombos.arghelp as AH
from kolombos.byteio.const import CharClass, DisplayMode, ReadMode, MarkerDetailsEnum


@contract('K.display_mode', ['K06'])
def _(ctx):
    """a class is ignored exactly when its own ignore option is given, otherwise focused exactly when its own focus
    option is; ignoring wins; the options of other classes have no influence"""
    o = options(ctx)
    s = ST.SettingsManager.app_settings
    cls = ctx.choice('class', list(CharClass))
    got = ctx.call(s.get_char_class_display_mode, cls)
    if ctx.truth(o['ignore_' + cls.value]):
        want = DisplayMode.IGNORED
    elif ctx.truth(o['focus_' + cls.value]):
        want = DisplayMode.FOCUSED
    else:
        want = DisplayMode.DEFAULT
    ctx.ensure(got is want, 'mode of the class', f'{cls} {got} {want}')


@contract('K.classes', ['K06'])
def _(ctx):
    """every documented class has an ignore and a focus option of its own"""
    ctx.ensure(sorted(c.value for c in CharClass) == sorted(CLASSES), 'classes', str(list(CharClass)))


@contract('K.read_mode', ['K01', 'K03'])
def _(ctx):
    """binary mode exactly when asked for (asking for text as well, as the defaults do, changes nothing); asking
    again gives the same answer"""
    o = options(ctx)
    s = ST.SettingsManager.app_settings
    want = ReadMode.BINARY if ctx.truth(o['binary']) else ReadMode.TEXT
    for _ in range(2):
        ctx.ensure(ctx.get(s, 'read_mode') is want, 'read mode')


@contract('K.details', ['K07'])
def _(ctx):
    """the level of details follows the requested one in text mode and is disregarded in binary mode"""
    o = options(ctx)
    s = ST.SettingsManager.app_settings
    got = ctx.get(s, 'effective_marker_details')
    if ctx.truth(o['binary']):
        want = MarkerDetailsEnum.BINARY_STRICT
    elif ctx.truth(o['marker'] <= 0):
        want = MarkerDetailsEnum.NO_DETAILS
    else:
        want = MarkerDetailsEnum.BRIEF_DETAILS if ctx.truth(o['marker'] == 1) else MarkerDetailsEnum.FULL_DETAILS
    ctx.ensure(got is want, 'details', f'{got} {want}')


@contract('K.print_offsets', ['K02', 'K11'])
def _(ctx):
    """offsets are shown unless switched off, and always while debugging"""
    o = options(ctx)
    got = ctx.get(ST.SettingsManager.app_settings, 'effective_print_offsets')
    want = ctx.truth(o['debug'] > 0) or not ctx.truth(o['no_offsets'])
    ctx.ensure(ctx.truth(got) == want, 'offsets shown')


# ---------------------------------------------------------------------------------------------------- command line
FLAGS = {'text': '-t --text', 'binary': '-b --binary', 'demo': '-M --demo', 'legend': '-l --legend', 'version': '-v --version',
         'decode': '-d --decode', 'decimal_offsets': '--decimal-offsets', 'no_offsets': '--no-offsets',
         'no_separators': '--no-separators', 'no_line_numbers': '--no-line-numbers', 'color_markers': '--color-markers'}
for _c, _l in zip(['space', 'control', 'printable', 'esc', 'utf8', 'binary'], 'scpeui'):
    FLAGS['focus_' + _c], FLAGS['ignore_' + _c] = f'-{_l} --focus-{_c}', f'-{_l.upper()} --ignore-{_c}'
NUMS = {'buffer': '-f --buffer', 'max_lines': '-L --max-lines', 'max_bytes': '-B --max-bytes', 'marker': '-m --marker',
        'columns': '-w --columns'}
GROUPS = [{'text', 'binary', 'legend'}, {'decimal_offsets', 'no_offsets'}, {'filename', 'demo'}] + \
         [{'focus_' + c, 'ignore_' + c} for c in CLASSES]


@contract('K.arguments', ['K06', 'K07', 'K09', 'K02', 'K03'], proof=False, bounded=True, native=1500,
          note='bounded: 1500 random command lines (every option in its short and long form); argparse is outside the verifier\'s reach')
def _(ctx):
    """every option of the command line sets exactly its own setting, in its short and its long form; the others
    keep their defaults"""
    r = ctx.rng

    def gen():
        names = r.sample(sorted([*FLAGS, *NUMS, 'filename', 'debug']), r.choice([0, 1, 1, 2, 3, 6]))
        for g in GROUPS:
            for n in [n for n in names if n in g][1:]:
                names.remove(n)
        argv, want = [], {}
        for n in names:
            if n in FLAGS:
                argv.append([r.choice(FLAGS[n].split())])
                want[n] = True
            elif n in NUMS:
                v, f = r.choice([1, 2, 3, 16, 100, 4096, 10 ** 6]), r.choice(NUMS[n].split())
                argv.append(r.choice([[f, str(v)], [f'{f}={v}'] if f[1] == '-' else [f'{f}{v}']]))
                want[n] = v
            elif n == 'debug':
                k = r.randint(1, 4)
                argv += r.choice([[['--debug']] * k, [['-' + 'D' * k]], [['-D']] * k])
                want[n] = k
            else:
                f = r.choice(['x', 'some file', 'a.b', '-'])
                argv.append([f])
                want[n] = f
        r.shuffle(argv)
        return [a for x in argv for a in x], want
    argv, want = ctx._take('case', gen)
    s = ST.Settings()
    parser = ctx.call(AH.AppArgumentParser)
    ctx.call(parser.parse_args, list(argv), namespace=s)
    d = ST.Settings()
    for n in [*FLAGS, *NUMS, 'filename', 'debug']:
        w = want.get(n, getattr(d, n))
        ctx.ensure(getattr(s, n) == w or not getattr(s, n) and not w, 'setting ' + n, f'{argv} {getattr(s, n)} {w}')
