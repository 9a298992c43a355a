"""writes MANIFEST.json from the table below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROOF = 'contract-based deductive verification of the real functions (weakest-precondition style path exploration over the ' \
        'current source, loop contracts, z3), counterexamples replayed on the real code'
CLAIMED = {
    'K01': ('proof', 'every template of the binary mode, the queue of segments (any number of groups, any cut, loop contract), row splitting, the row layout and the runner proved for inputs of any length; composition of the stage contracts is an argument in DESIGN.md; whole-program contracts (byte-exact oracle on generated inputs) are bounded stand-ins, not counted as proved'),
    'K03': ('proof', 'every template of the text mode, the queue cut at line breaks (any number of segments), numbering and line ends proved by loop contracts; composition of the stages is an argument in DESIGN.md; whole-program contracts are bounded stand-ins, not counted as proved'),
    'K04': ('proof', 'parser regexes compared with the documented classes by automata (all byte strings), every template proved for runs of any length; whole-program contracts (byte-exact oracle on generated inputs) are bounded stand-ins, not counted as proved'),
    'K05': ('proof', 'UTF-8 recognition decided by automata and a finite table over all byte strings, decoding templates proved; whole-program contracts (byte-exact oracle on generated inputs) are bounded stand-ins, not counted as proved'),
    'K06': ('proof', 'every template under every option combination proved for runs of any length; whole-program contracts (byte-exact oracle on generated inputs) are bounded stand-ins, not counted as proved'),
    'K07': ('proof', 'every template under every option combination proved for runs of any length, SGR details with a loop contract; whole-program contracts (byte-exact oracle on generated inputs) are bounded stand-ins, not counted as proved'),
    'K08': ('proof', 'templates emit no control characters (all inputs), closing sequences proved (P01 contracts), every cut row or line proved to open and close exactly its own formatting; whole-program contracts are bounded stand-ins, not counted as proved'),
    'K02': ('proof', 'labels and the total proved for offsets of any magnitude; which offset every row gets proved by the loop contract of the formatter; whole-program contracts are bounded stand-ins, not counted as proved'),
    'K09': ('proof', 'Reader.read proved for any stream, any delivery by the source, any limits (loop invariant by elimination); whole-program runs are bounded'),
    'K11': ('proof', 'output and debug buffers proved for any texts and levels; whole-program comparison of debug levels is bounded'),
    'K12': ('proof', 'exit status, order of flushing and report proved for every built-in exception class at every stage; whole-program faults are bounded'),
    'K10': ('proof', 'parser step, reader, queue and formatter contracts (all byte strings, every chunking and history of calls); whole-program contracts are bounded stand-ins, not counted as proved'),
    'P01': ('proof', 'get_closing_seq proved for any number of codes with a loop contract; fold lemma over the closing table; span wrapping'),
    'P02': ('proof', 'all obligations discharged for parameter lists of any length; at most three constructor arguments'),
    'P03': ('proof', 'any text, width; the SGR pattern compared with the specified language by automata (all texts); re.Pattern.sub itself is trusted'),
    'P05': ('proof', 'approximate() for palettes of any size, cache invariant of find_closest/add_to_map; sorted() under its contract; histories on scratch palettes bounded'),
    'P06': ('proof', 'lines of any text and number; decoration of every attribute combination enumerated; str.splitlines under its contract'),
    'P07': ('proof', 'every colour value; palette search used through its contract (P05)'),
    'P08': ('proof', 'texts of any length and any number of pieces; histories bounded'),
    'P09': ('proof', 'each property with every own/inherited combination; joint settings additionally sampled'),
    'P11': ('proof', 'any number of seconds (as a real), all registered formatters'),
    'P12': ('proof', 'every number as an exact real, every required length, both preset formatters and the constructor with any room from five characters up over three prefix tables; multiplication by the prefix coefficient treated as exact'),
    'P04': ('proof', 'integer/real arithmetic of the conversions; floats treated as reals'),
    'P10': ('proof', 'one to five values of any length over any width (number of values bounded, lengths not)'),
}
NA = {}


def main():
    props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    for p in props:
        if p in CLAIMED:
            lv, note = CLAIMED[p][:2]
            checks.append({
                'property': p,
                'quick_cmd': f'python3-vt -m kv.run {p} --tier quick',
                'thorough_cmd': f'python3-vt -m kv.run {p} --tier thorough',
                'technique': CLAIMED[p][2] if len(CLAIMED[p]) > 2 else PROOF,
                'level': lv, 'level_note': note,
            })
    na = [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in CLAIMED]
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
