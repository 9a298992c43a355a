"""Helpers for loop contracts."""
from __future__ import annotations

import ast

import z3

from . import sym as S
from .sym import *  # noqa
from .interp import assigned_names


def provider(fn, make, kinds=(ast.While,)):
    """loop contract for the (only) loop of fn's own body of the given kind that is reached with no contract yet"""
    f = getattr(fn, '__func__', fn)
    code = f.__code__

    def p(interp, fr, node):
        g = fr.fn
        if g is None or getattr(g, '__code__', None) is not code or not isinstance(node, kinds):
            return None
        return make(interp, fr, node)
    return p


class LoopContract:
    name = 'loop'
    bound_names = ()

    def __init__(self, interp, fr, node):
        self.interp, self.fr, self.node = interp, fr, node
        self.names = [n for n in sorted(assigned_names([node])) if n in fr.locals]
        self.bound_names = set()

    def vlists(self):
        """list objects reachable as locals: {name: VList}"""
        return {n: v for n, v in self.fr.locals.items() if isinstance(v, VList)}

    def ints(self):
        return {n: v for n, v in self.fr.locals.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}

    def entry(self, fr): pass
    def havoc(self, fr): pass
    def preserved(self, fr): pass


def same(a, b):
    """provably equal ints"""
    return E().entails(S.toz(a) == S.toz(b))


class Inferred(LoopContract):
    """Invariant by elimination: of the candidate formulas about each changing integer (local of the function or attribute
    of the object) the largest set is kept that holds at entry and is preserved by every iteration.  The contract adds what
    it requires itself (requires/establish).  If something changes that no candidate describes, failures are not conclusive."""
    name = 'loop'

    def state(self):
        """[(label, getter, setter, entry value)] of the integers that may change"""
        fr, it = self.fr, self.interp
        out = []
        for n in self.names:
            v = fr.locals[n]
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out.append((n, lambda n=n: fr.locals.get(n), lambda x, n=n: fr.store(n, x), v))
        for o in self.objects():
            for n, v in list(o.__dict__.items()):
                if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                    out.append((f'{type(o).__name__}.{n}', lambda o=o, n=n: o.__dict__.get(n),
                                lambda x, o=o, n=n: it.setattr(o, n, x), v))
        return out

    def objects(self): return []
    def candidates(self, label, entry): return []       # [(text, lambda value: z3 bool)] at the current ghost state
    def more(self): return []                           # further candidate formulas [(text, lambda: z3 bool)]
    def fresh_ghost(self): pass                         # set up an arbitrary ghost state
    def step_ghost(self): pass                          # ghost state behind the body
    def probe(self, on): pass

    def start(self, fr):
        self.vars = self.state()
        self.keep = {}
        for lab, get, put, v in self.vars:
            self.keep[lab] = [c for c in self.candidates(lab, v) if E().entails(mkbool(c[1](toz(v))))]
        self.keep[None] = [c for c in self.more() if E().entails(mkbool(c[1]()))]

    def entry(self, fr):
        self.start(fr)
        self.bound_names = {lab for lab, *_ in self.vars}
        for _ in range(12):
            bad = []

            def run():
                self.arbitrary()
                self.probe(True)
                try:
                    try:
                        if not self.interp.truth(self.interp.eval(self.node.test, fr)):
                            return
                        self.interp.exec_block(self.node.body, fr)
                    except BaseException as ex:
                        if type(ex).__name__ == 'ContinueX':
                            pass
                        elif isinstance(ex, PyExc) or type(ex).__name__ in ('BreakX', 'ReturnX'):
                            return
                        else:
                            raise
                    self.step_ghost()
                    for lab, get, put, v in self.vars:
                        x = get()
                        for c in self.keep[lab]:
                            if not isinstance(x, (int, SInt)) or not E().entails(mkbool(c[1](toz(x)))):
                                bad.append((lab, c[0]))
                    for c in self.keep[None]:
                        if not E().entails(mkbool(c[1]())):
                            bad.append((None, c[0]))
                finally:
                    self.probe(False)
            n = len(E().failures)
            o = (E().obligations, E().discharged, E().trivial)
            E().nested(run)
            del E().failures[n:]
            E().obligations, E().discharged, E().trivial = o
            if not bad:
                break
            for lab in self.keep:
                self.keep[lab] = [c for c in self.keep[lab] if (lab, c[0]) not in bad]
        else:
            raise Unsupported('no invariant found')
        free = [lab for lab, *_ in self.vars if not self.keep[lab]]
        if free and any(not self.ignorable(x) for x in free):
            E().weak = True
        self.free = free

    def ignorable(self, label): return False

    def arbitrary(self):
        for n in self.names:
            if n not in self.bound_names:
                self.fr.store(n, Poison('loop'))
        self.fresh_ghost()
        for lab, get, put, v in self.vars:
            e = E().fresh('inv_' + str(lab))
            for c in self.keep[lab]:
                E().add(c[1](e))
            put(SInt(e))
        for c in self.keep[None]:
            E().add(c[1]())

    def havoc(self, fr): self.arbitrary()

    def preserved(self, fr):
        self.step_ghost()
        for lab, get, put, v in self.vars:
            x = get()
            for c in self.keep[lab]:
                E().prove(mkbool(c[1](toz(x))), f'{self.name}: {lab}: {c[0]} is preserved')
        for c in self.keep[None]:
            E().prove(mkbool(c[1]()), f'{self.name}: {c[0]} is preserved')


class Havoc:
    """a for loop of which nothing is kept but the kinds of the variables it changes: an arbitrary iteration from an
    arbitrary state must not fail, has to keep the kinds, and whatever `frame` returns"""
    cache = {}

    def __init__(self, interp, fr, node, frame, other=()):
        self.interp, self.fr, self.node, self.frame, self.other = interp, fr, node, frame, other
        self.n = 0

    def kind(self, v):
        if isinstance(v, (bool, SBool)):
            return 'bool'
        if isinstance(v, (int, SInt)):
            return 'int'
        if isinstance(v, str) or isinstance(v, Rope) and v.kind == 'str':
            return 'str'
        for k, (cls, _) in enumerate(self.other):
            if isinstance(v, cls):
                return k
        raise Unsupported(f'a loop over values of an unknown kind: {type(v).__name__}')

    def kinds(self, v):
        out = set()
        for p in v.parts:
            if isinstance(p, Lit):
                out |= {self.kind(x) for x in p.v}
            elif isinstance(p, Slice):
                out.add('int')
                if p.src.lo < 0 or p.src.hi > 255:
                    raise Unsupported('large numbers in a list')
            elif isinstance(p, Flat) and p.is_list():
                out |= {self.kind(x) for _, _, t in p.cases for x in t}
            else:
                raise Unsupported(f'part {p!r}')
        return out

    def entry(self, fr, items):
        self.key = self.frame()
        self.scalars = {n: self.kind(fr.locals[n]) for n in sorted(assigned_names([self.node]))
                        if n in fr.locals and n not in assigned_names([self.node.target])
                        and not isinstance(fr.locals[n], (VList, Poison))}
        keys = {n: vkey(v) for n, v in fr.locals.items() if isinstance(v, VList)}
        self.lists = {n: set() for n in keys}
        changed = set()
        memo = (id(self.node), self.key, repr(keys), repr([x[1].key() if isinstance(x[1], Part) else vkey(x[1]) for x in items]), repr(sorted(self.scalars.items())))
        if memo in self.cache:
            self.lists = self.cache[memo]       # only a guess: what the loop appends is checked (preserved)
            return

        def run(item):
            for n in self.scalars:
                fr.store(n, self.some(self.scalars[n]))
            if item[0] == 'v':
                vals = [item[1]]
            else:
                vals = self.interp.elements_at(item, generic_index(item[1].lo, item[1].hi))
            try:
                for v in vals:
                    self.interp.assign(self.node.target, v, fr)
                    self.interp.exec_block(self.node.body, fr)
            except BaseException as ex:
                if type(ex).__name__ not in ('ContinueX', 'BreakX', 'ReturnX', 'PyExc'):
                    raise
            for n, k in keys.items():
                if isinstance(fr.locals.get(n), VList) and vkey(fr.locals[n]) != k:
                    changed.add(n)
                    self.lists[n] |= self.kinds(fr.locals[n])
        e = E()
        n, o = len(e.failures), (e.obligations, e.discharged, e.trivial)
        for item in items:
            e.nested(lambda: run(item))
        del e.failures[n:]
        e.obligations, e.discharged, e.trivial = o
        self.lists = {n: self.lists[n] | self.kinds(fr.locals[n]) for n in changed}
        self.cache[memo] = self.lists

    def some(self, kind, bv=None):
        e = E()
        self.n += 1
        if kind == 'bool':
            return SBool(z3.Bool(e.fresh_name('havoc_bool'))) if bv is None else SBool(z3.Function(e.fresh_name('havoc_bool'), INT, z3.BoolSort())(bv))
        if kind == 'int' and bv is None:
            return SInt(e.fresh('havoc_int'))
        if kind == 'int':
            x = Source(e.fresh_name('havoc_ints'), 'list', 0, 255).elem(bv)
            self.facts += [x >= 0, x <= 255]
            return mknum(x)
        if kind == 'str':
            src = Source(e.fresh_name('havoc_text'), 'str', 1, 0x10ffff)
            if bv is None:
                n = e.fresh('havoc_len')
                e.add(n >= 0)
                return norm(Rope('str', [Slice(src, 0, n)]))
            f = z3.Function(e.fresh_name('havoc_off'), INT, INT)
            self.facts += [f(bv) <= f(bv + 1), f(bv) >= 0]
            return norm(Rope('str', [Slice(src, f(bv), f(bv + 1))]))
        x = bv if bv is not None else e.fresh('havoc_obj')
        return self.other[kind][1](x)

    def havoc(self, fr):
        for n, k in self.scalars.items():
            fr.store(n, self.some(k))
        for n, ks in self.lists.items():
            ks = sorted(ks, key=str)
            e = E()
            size = e.fresh('havoc_size')
            e.add(size >= 0)
            bv = z3.Int(e.fresh_name('?hv'))
            which = z3.Function(e.fresh_name('havoc_kind'), INT, INT)
            cases = []
            for i, k in enumerate(ks):
                self.facts = []
                v = self.some(k, bv)
                cases.append((which(bv) == i if i < len(ks) - 1 else which(bv) >= i if i else z3.BoolVal(True), self.facts, [v]))
            if len(ks) > 1:
                cases = [(z3.And(c[0], which(bv) >= 0), c[1] + [which(bv) >= 0], c[2]) for c in cases]
            fr.locals[n].set_parts([Flat(bv, 0, size, cases)] if ks else [])

    def preserved(self, fr):
        e = E()
        e.prove(mkbool(z3.BoolVal(self.frame() == self.key)), 'the loop changes nothing else')
        for n, k in self.scalars.items():
            if self.kind(fr.locals[n]) != k:
                raise Unsupported(f'{n} changes its kind')
        for n, ks in self.lists.items():
            if not self.kinds(fr.locals[n]) <= ks:
                raise Unsupported(f'elements of {n} of another kind')
