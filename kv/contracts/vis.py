"""visible text: what a terminal shows of a printed text (the program's own SGR removed)"""
import re

from kv.engine import sym as S
from kv.oracle import spec

SGR = re.compile(r'\x1b\[[0-9;]*m')
CONTROLS = ''.join(chr(c) for c in [*range(0, 9), *range(11, 32), 127])   # all but tab and line feed


def visible(ctx, v, name, allowed=''):
    """the text without SGR; obligation: what remains contains no control characters but the allowed ones"""
    bad = ''.join(c for c in CONTROLS + '\t\n' if c not in allowed)
    if isinstance(v, str):
        t = SGR.sub('', v)
        ctx.ensure(not any(c in bad for c in t), f'{name}: no control characters are printed', repr(t)[:200])
        return t
    return S.norm(S.Rope('str', strip_parts(ctx, v.parts, name, bad)))


def elem_facts(e):
    """the range facts of all sequence elements mentioned in a term"""
    from kv.engine.interp import elem_slice
    todo = [e]
    while todo:
        x = todo.pop()
        r = elem_slice(x)
        if r is not None:
            r[0].elem(r[1])
        todo.extend(x.children())


def strip_parts(ctx, parts, name, bad, guard=None):
    import z3
    out = []
    for p in parts:
        if isinstance(p, S.Lit):
            out.append(S.Lit(visible(ctx, p.v, name, ''.join(c for c in '\t\n' if c not in bad))))
        elif isinstance(p, S.Rep):
            out.append(S.Rep(visible(ctx, p.unit, name, ''.join(c for c in '\t\n' if c not in bad)), p.n))
        elif isinstance(p, S.Sgr):
            continue
        elif isinstance(p, S.Flat):
            from kv.engine.interp import mkflat
            out += mkflat('str', p.bv, p.lo, p.hi, [(g, f, S.Rope('str', strip_parts(ctx, t.parts, name, bad,
                                                                                 g if guard is None else z3.And(guard, g))))
                                                    for g, f, t in p.cases])
        elif isinstance(p, S.Tok) and p.desc == 'chr':
            e = p.args[0]
            elem_facts(e)
            c = z3.And(*[e != ord(c) for c in bad])
            S.E().prove(S.mkbool(c if guard is None else z3.Implies(guard, c)), f'{name}: no control characters are printed', repr(p))
            out.append(p)
        elif isinstance(p, S.Tok) and p.desc == 'utf8':
            out.append(p)       # a character from U+0080 up
        elif S.excludes(p, bad):
            out.append(p)
        else:
            ctx.ensure(False, f'{name}: no control characters are printed', repr(p))
            out.append(p)
    return out
