"""Regular languages: decides what a regular expression of the program matches, for all inputs.

A pattern (as parsed by the interpreter's own re._parser from the current source) is compiled to an ordered-thread
program; the determinisation of the ordered thread lists gives the exact leftmost-first (backtracking) match relation
of `re`: the language of all p#r such that matching at the start of p+r consumes exactly p, labelled with the group
numbers that take part.  Languages are complete DFAs over the atoms of a partition of the alphabet (plus '#')."""
from __future__ import annotations

import re

try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

from .sym import Unsupported

MAXU = 0x10ffff


# ---------------------------------------------------------------- character sets: sorted tuples of closed intervals
def cs(*ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        elif a <= b:
            out.append((a, b))
    return tuple(out)


def cs_not(s, top):
    out, p = [], 0
    for a, b in s:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= top:
        out.append((p, top))
    return tuple(out)


CATS = {}


def category(c, is_bytes):
    key = (str(c), is_bytes)
    if key not in CATS:
        name = str(c).lower()
        neg = '_not_' in name
        kind = name.split('_')[-1]
        rx = {'digit': r'\d', 'space': r'\s', 'word': r'\w'}.get(kind)
        if rx is None:
            raise Unsupported(f'category {c}')
        top = 255 if is_bytes else MAXU
        pat = re.compile(rx.encode() if is_bytes else rx)
        ivs, start = [], None
        for i in range(top + 1):
            ok = pat.match(bytes([i]) if is_bytes else chr(i)) is not None
            if ok and start is None:
                start = i
            elif not ok and start is not None:
                ivs.append((start, i - 1))
                start = None
        if start is not None:
            ivs.append((start, top))
        s = cs(*ivs)
        CATS[key] = cs_not(s, top) if neg else s
    return CATS[key]


def class_set(items, top, is_bytes):
    neg, ivs = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            ivs.append((av, av))
        elif op is sc.RANGE:
            ivs.append(av)
        elif op is sc.CATEGORY:
            ivs += category(av, is_bytes)
        else:
            raise Unsupported(f'class item {op}')
    s = cs(*ivs)
    return cs_not(s, top) if neg else s


# ---------------------------------------------------------------- abstract syntax
# ('set', cs) ('cat', [..]) ('alt', [..]) ('rep', lo, hi|None, node, greedy) ('grp', n, node) ('end',) ('begin',)
def parse(pattern):
    src, flags = (pattern.pattern, pattern.flags) if isinstance(pattern, re.Pattern) else (pattern, 0)
    is_bytes = isinstance(src, bytes)
    fl = flags & ~re.UNICODE if is_bytes else flags
    if flags & (re.IGNORECASE | re.LOCALE | re.MULTILINE):
        raise Unsupported('regular expression flags')
    t = sp.parse(src, fl)
    top = 255 if is_bytes else MAXU

    def conv(seq):
        out = []
        for op, av in seq:
            if op is sc.LITERAL:
                out.append(('set', cs((av, av))))
            elif op is sc.NOT_LITERAL:
                out.append(('set', cs_not(cs((av, av)), top)))
            elif op is sc.ANY:
                out.append(('set', cs((0, top)) if flags & re.DOTALL else cs_not(cs((10, 10)), top)))
            elif op is sc.IN:
                out.append(('set', class_set(av, top, is_bytes)))
            elif op is sc.CATEGORY:
                out.append(('set', category(av, is_bytes)))
            elif op is sc.BRANCH:
                out.append(('alt', [conv(x) for x in av[1]]))
            elif op is sc.SUBPATTERN:
                g, add, dele, p = av
                if add or dele:
                    raise Unsupported('inline flags')
                out.append(conv(p) if g is None else ('grp', g, conv(p)))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, p = av
                out.append(('rep', lo, None if hi == sc.MAXREPEAT else hi, conv(p), op is sc.MAX_REPEAT))
            elif op is sc.AT and av in (sc.AT_END_STRING,):
                out.append(('end',))
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                out.append(('begin',))
            else:
                raise Unsupported(f'regular expression construct {op}')
        return out[0] if len(out) == 1 else ('cat', out)
    return conv(t)


def strip_end(t):
    """(tree without a final \\Z, whether there was one)"""
    if t == ('end',):
        return ('cat', []), True
    if t[0] == 'cat' and t[1]:
        last, had = strip_end(t[1][-1])
        return ('cat', t[1][:-1] + [last]), had
    if t[0] == 'alt':
        xs = [strip_end(x) for x in t[1]]
        if all(h for _, h in xs):
            return ('alt', [x for x, _ in xs]), True
    if t[0] == 'grp':
        x, h = strip_end(t[2])
        return ('grp', t[1], x), h
    return t, False


def sets_of(t, acc):
    if t[0] == 'set':
        acc.add(t[1])
    elif t[0] in ('cat', 'alt'):
        for x in t[1]:
            sets_of(x, acc)
    elif t[0] == 'rep':
        sets_of(t[3], acc)
    elif t[0] == 'grp':
        sets_of(t[2], acc)


class Alphabet:
    """partition of 0..top into atoms; the extra atom HASH is '#'"""
    def __init__(self, trees, top):
        acc = set()
        for t in trees:
            sets_of(t, acc)
        cuts = {0, top + 1}
        for s in acc:
            for a, b in s:
                cuts |= {a, b + 1}
        cuts = sorted(cuts)
        sig = {}
        for a, b in zip(cuts, cuts[1:]):
            k = tuple(any(x <= a <= y for x, y in s) for s in acc)
            sig.setdefault(k, []).append((a, b - 1))
        self.atoms = list(sig.values())
        self.top = top
        self.n = len(self.atoms) + 1
        self.HASH = len(self.atoms)
        self._cache = {}

    def of(self, s):
        if s not in self._cache:
            self._cache[s] = frozenset(i for i, ivs in enumerate(self.atoms) if any(a <= ivs[0][0] <= b for a, b in s))
        return self._cache[s]

    @property
    def chars(self): return frozenset(range(self.HASH))

    def show(self, word):
        """an example text of a word over the atoms: (before #, after #)"""
        out, cur = [], []
        for w in word:
            if w == self.HASH:
                out.append(cur)
                cur = []
            else:
                cur.append(self.atoms[w][0][0])
        out.append(cur)
        return [bytes(x) if self.top == 255 else ''.join(map(chr, x)) for x in out]


# ---------------------------------------------------------------- DFA
class Dfa:
    """complete: trans[state][atom]; acc[state] = label or None"""
    def __init__(self, al, trans, acc, start=0):
        self.al, self.trans, self.acc, self.start = al, trans, acc, start

    def words(self, s): return s

    def witness(self, ok=None):
        """shortest accepted word (optionally with a given label), or None"""
        prev = {self.start: None}
        todo = [self.start]
        for q in todo:
            if self.acc[q] is not None and self.acc[q] is not False and (ok is None or ok(self.acc[q])):
                w = []
                while prev[q] is not None:
                    q, a = prev[q]
                    w.append(a)
                return w[::-1]
            for a, r in enumerate(self.trans[q]):
                if r not in prev:
                    prev[r] = (q, a)
                    todo.append(r)
        return None

    def empty(self): return self.witness() is None

    def accepts(self, data, hash_at=None):
        q = self.start
        seq = list(data) if not isinstance(data, str) else [ord(c) for c in data]
        for i, c in enumerate(seq):
            if hash_at == i:
                q = self.trans[q][self.al.HASH]
            q = self.trans[q][next(k for k, ivs in enumerate(self.al.atoms) if any(a <= c <= b for a, b in ivs))]
        if hash_at == len(seq):
            q = self.trans[q][self.al.HASH]
        return bool(self.acc[q])


def build(al, start, step, label):
    """DFA from a deterministic step function over hashable states"""
    ids, todo, trans, acc = {start: 0}, [start], [], []
    for q in todo:
        row = []
        for a in range(al.n):
            r = step(q, a)
            if r not in ids:
                ids[r] = len(todo)
                todo.append(r)
                if len(todo) > 20000:
                    raise Unsupported('automaton too big')
            row.append(ids[r])
        trans.append(row)
        acc.append(label(q))
    return Dfa(al, trans, acc)


def product(x, y, f):
    d = build(x.al, (x.start, y.start), lambda q, a: (x.trans[q[0]][a], y.trans[q[1]][a]), lambda q: f(x.acc[q[0]], y.acc[q[1]]))
    return d


def both(x, y): return product(x, y, lambda a, b: bool(a) and bool(b) and a)
def minus(x, y): return product(x, y, lambda a, b: bool(a) and not b and a)
def union(x, y): return product(x, y, lambda a, b: bool(a) or bool(b))
def neg(x): return Dfa(x.al, x.trans, [not a for a in x.acc], x.start)


# ---------------------------------------------------------------- unordered NFA (for languages)
class Nfa:
    def __init__(self, al):
        self.al, self.eps, self.ch = al, [], []

    def new(self):
        self.eps.append([])
        self.ch.append([])
        return len(self.eps) - 1

    def closure(self, qs):
        seen, todo = set(qs), list(qs)
        for q in todo:
            for r in self.eps[q]:
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        return frozenset(seen)

    def dfa(self, s, f):
        return build(self.al, self.closure([s]),
                     lambda qs, a: self.closure([r for q in qs for st, r in self.ch[q] if a in st]), lambda qs: f in qs)

    def add(self, t, s):
        """adds tree t after state s; returns the end state"""
        k = t[0]
        if k == 'set':
            e = self.new()
            self.ch[s].append((self.al.of(t[1]), e))
            return e
        if k == 'hash':
            e = self.new()
            self.ch[s].append((frozenset([self.al.HASH]), e))
            return e
        if k == 'cat':
            for x in t[1]:
                s = self.add(x, s)
            return s
        if k == 'alt':
            e = self.new()
            for x in t[1]:
                b = self.new()
                self.eps[s].append(b)
                self.eps[self.add(x, b)].append(e)
            return e
        if k == 'grp':
            return self.add(t[2], s)
        if k == 'rep':
            lo, hi = t[1], t[2]
            for _ in range(lo):
                s = self.add(t[3], s)
            e = self.new()
            if hi is None:
                b = self.new()
                self.eps[s].append(b)
                self.eps[b].append(e)
                self.eps[self.add(t[3], b)].append(b)
                return e
            self.eps[s].append(e)
            for _ in range(hi - lo):
                s = self.add(t[3], s)
                self.eps[s].append(e)
            return e
        if k == 'dfa':
            d = t[1]
            base = [self.new() for _ in d.trans]
            e = self.new()
            self.eps[s].append(base[d.start])
            for q, row in enumerate(d.trans):
                by = {}
                for a, r in enumerate(row):
                    by.setdefault(r, set()).add(a)
                for r, st in by.items():
                    self.ch[base[q]].append((frozenset(st), base[r]))
                if d.acc[q]:
                    self.eps[base[q]].append(e)
            return e
        raise Unsupported(f'{k} in a language')


def lang(al, t):
    n = Nfa(al)
    s = n.new()
    return n.dfa(s, n.add(t, s))


def ANY(al): return ('set', cs((0, al.top)))
def STAR(x): return ('rep', 0, None, x, True)
def CAT(*x): return ('cat', list(x))
def ALT(*x): return ('alt', list(x))
HASH = ('hash',)


def insert_hash(al, t):
    """all u#v with u, v not empty and uv in the language of t"""
    d = lang(al, t)
    n = len(d.trans)

    def step(q, a):
        if q is None:
            return None
        st, mode = q      # 0: nothing read, 1: before '#', 2: just after '#', 3: after
        if a == al.HASH:
            return (st, 2) if mode == 1 else None
        return d.trans[st][a], {0: 1, 1: 1, 2: 3, 3: 3}[mode]
    return build(al, (d.start, 0), step, lambda q: q is not None and q[1] == 3 and bool(d.acc[q[0]]))


# ---------------------------------------------------------------- ordered threads (the match relation of re)
class Prog:
    """tree -> ordered thread program; the top level alternatives are labelled"""
    def __init__(self, al, alternatives):
        self.al, self.ins = al, []
        n = len(alternatives)
        starts = []
        for k, t in enumerate(alternatives):
            m = self.emit(('match', k))
            starts.append(self.comp(t, m))
        s = starts[-1]
        for x in reversed(starts[:-1]):
            s = self.emit(('split', x, s))
        self.start = s

    def emit(self, i):
        self.ins.append(i)
        return len(self.ins) - 1

    def comp(self, t, nxt):
        k = t[0]
        if k == 'set':
            return self.emit(('char', self.al.of(t[1]), nxt))
        if k == 'cat':
            for x in reversed(t[1]):
                nxt = self.comp(x, nxt)
            return nxt
        if k == 'alt':
            ss = [self.comp(x, nxt) for x in t[1]]
            s = ss[-1]
            for x in reversed(ss[:-1]):
                s = self.emit(('split', x, s))
            return s
        if k == 'grp':
            return self.comp(t[2], nxt)
        if k == 'rep':
            lo, hi, body, greedy = t[1:]
            if nullable(body):
                raise Unsupported('repetition of a possibly empty pattern')
            if hi is None:
                j = self.emit(None)
                b = self.comp(body, j)
                self.ins[j] = ('split', b, nxt) if greedy else ('split', nxt, b)
                s = j
            else:
                s = nxt
                for _ in range(hi - lo):
                    b = self.comp(body, s)
                    s = self.emit(('split', b, nxt) if greedy else ('split', nxt, b))
            for _ in range(lo):
                s = self.comp(body, s)
            return s
        raise Unsupported(f'{k} in a pattern')

    def closure(self, pcs):
        out, seen = [], set()

        def go(pc):
            if pc in seen:
                return False
            seen.add(pc)
            i = self.ins[pc]
            if i[0] == 'split':
                return go(i[1]) or go(i[2])
            out.append(pc)
            return i[0] == 'match'
        for pc in pcs:
            if go(pc):
                break
        return tuple(out)

    def step(self, pcs, a):
        return self.closure([self.ins[pc][2] for pc in pcs if self.ins[pc][0] == 'char' and a in self.ins[pc][1]])

    def matched(self, pcs):
        return self.ins[pcs[-1]][1] if pcs and self.ins[pcs[-1]][0] == 'match' else None

    def relation(self):
        """DFA of p#r, label (k,) = alternative k matches exactly p at the start of pr"""
        al = self.al

        def step(q, a):
            if q is None:
                return None
            mode, pcs, k = q
            if mode == 'P':
                if a == al.HASH:
                    m = self.matched(pcs)
                    return None if m is None else ('R', pcs[:-1], m)
                n = self.step(pcs, a)
                return ('P', n, None) if n else None
            if a == al.HASH:
                return None
            n = self.step(pcs, a)
            return None if self.matched(n) is not None else ('R', n, k)
        return build(al, ('P', self.closure([self.start]), None), step,
                     lambda q: (q[2],) if q is not None and q[0] == 'R' else None)

    def no_match(self):
        """DFA of the texts at whose start nothing matches"""
        al = self.al

        def step(q, a):
            if q is None or a == al.HASH or self.matched(q) is not None:
                return None
            return self.step(q, a)
        return build(al, self.closure([self.start]), step, lambda q: q is not None and self.matched(q) is None)


def nullable(t):
    k = t[0]
    if k == 'set':
        return False
    if k == 'cat':
        return all(nullable(x) for x in t[1])
    if k == 'alt':
        return any(nullable(x) for x in t[1])
    if k == 'grp':
        return nullable(t[2])
    if k == 'rep':
        return t[1] == 0 or nullable(t[3])
    return True


def alternatives(t):
    """top level alternatives (a group around a branch is one alternative)"""
    return t[1] if t[0] == 'alt' else [t]


def groups_in(t, acc=None):
    acc = [] if acc is None else acc
    if t[0] == 'grp':
        acc.append(t[1])
        groups_in(t[2], acc)
    elif t[0] in ('cat', 'alt'):
        for x in t[1]:
            groups_in(x, acc)
    elif t[0] == 'rep':
        groups_in(t[3], acc)
    return acc
