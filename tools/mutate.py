"""systematic mutants of the code under contract:  mutate.py MODULE-SUBSTR [--n N] [--seed S] [--skip FUNCS]

Each mutant is put into a scratch copy, must pass the repository's stable tests, and is then shown to the checks
(native executions of the contracts first, then the proofs).  Survivors are printed with their diff line: each is either
equivalent / outside every property, or a gap."""
import argparse
import ast
import os
import random
import re
import shutil
import subprocess
import sys

PY = '/opt/venv/bin/python'
ONLY = {  # file -> (prefix, contract-name regex)
    'segment/': ('K', r'K\.detach|K\.attach|K\.segment|K\.split|seg|e2e|K\.binary|K\.text'),
}
SKIP = {'Spans', 'Seqs', 'Styles', 'wait_key', 'preview', '_seg_raw_to_safe', '_compute_cols_num', 'autopick_fg', 'Colors', '_preview_collect', '__eq__', '__repr__', 'printd', 'debug_settings', 'format_auto_float', 'register', 'print_version'}


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.lines = src.encode().splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l))

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, what):
        if self.fn and not any(f in SKIP for f in self.fn):
            a, b = self.pos(n)
            self.out.append((a, b, new, what, '.'.join(self.fn), n.lineno))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.fn.pop()

    def visit_JoinedStr(self, n):
        pass

    def visit_arguments(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        self.add(n, 'pass', 'drop raise')

    def visit_Compare(self, n):
        sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
              ast.Is: 'is not', ast.IsNot: 'is'}
        if len(n.ops) == 1:
            self.add(n, f'{self.seg(n.left)} {sw[type(n.ops[0])]} {self.seg(n.comparators[0])}', 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '/', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<', ast.Div: '//',
              ast.BitAnd: '|', ast.BitOr: '&'}
        if type(n.op) in sw:
            self.add(n, f'{self.seg(n.left)} {sw[type(n.op)]} {self.seg(n.right)}', 'binop')
        if isinstance(n.op, (ast.Add,)):
            self.add(n, self.seg(n.left), 'drop right')
            self.add(n, self.seg(n.right), 'drop left')
            self.add(n, f'{self.seg(n.right)} + {self.seg(n.left)}', 'swap add')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, repr(not v), 'bool')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'const+1')
            self.add(n, f'({v - 1})', 'const-1')
        elif isinstance(v, float):
            self.add(n, str(v + 0.5), 'const')
        elif isinstance(v, str) and v:
            self.add(n, "''", 'str')
        elif v is None:
            pass

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join(f'({self.seg(x)})' for x in n.values) + ')', 'boolop')
        for i in range(len(n.values)):
            rest = [f'({self.seg(x)})' for j, x in enumerate(n.values) if j != i]
            self.add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', f'drop operand {i}')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, f'({self.seg(n.operand)})', 'drop unary')
        self.generic_visit(n)

    def cond(self, n):
        self.add(n.test, f'(not ({self.seg(n.test)}))', 'negate')
        self.add(n.test, 'False', 'false')
        self.generic_visit(n)

    visit_If = visit_IfExp = cond

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Expr(self, n):
        self.add(n, 'pass', 'drop stmt')
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.add(n, 'pass', 'drop assign')
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'drop augassign')
        self.add(n, f'{self.seg(n.target)} = {self.seg(n.value)}', 'aug->assign')
        self.visit(n.value)

    def visit_Break(self, n):
        self.add(n, 'continue', 'break->continue')
        self.add(n, 'pass', 'drop break')

    def visit_Continue(self, n):
        self.add(n, 'break', 'continue->break')
        self.add(n, 'pass', 'drop continue')

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)
        else:
            self.add(n, 'pass', 'drop return')

    def visit_Slice(self, n):
        for x in (n.lower, n.upper):
            if x is not None:
                self.visit(x)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return
        if n.func and 'debug' in self.seg(n.func):
            return
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            a, b = n.args[0], n.args[1]
            s, _ = self.pos(a)
            _, e = self.pos(b)
            if self.fn and not any(f in SKIP for f in self.fn):
                self.out.append((s, e, f'{self.seg(b)}, {self.seg(a)}', 'swap args', '.'.join(self.fn), n.lineno))
        self.generic_visit(n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mod')
    ap.add_argument('--n', type=int, default=30)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--prefix', default='K')
    ap.add_argument('--only', default='')
    ap.add_argument('--func', default='')
    ap.add_argument('--natonly', action='store_true')
    ap.add_argument('--jobs', default='8')
    a = ap.parse_args()
    files = [f for f in subprocess.run(['git', '-C', '/repo', 'ls-files', 'kolombos', 'pytermor'], capture_output=True, text=True).stdout.split()
             if f.endswith('.py') and re.search(a.mod, f)]
    sites = []
    for f in files:
        src = open('/repo/' + f).read()
        v = Sites(src)
        v.visit(ast.parse(src))
        sites += [(f,) + s for s in v.out if re.search(a.func, s[4])]
    rnd = random.Random(a.seed)
    total = len(sites)
    rnd.shuffle(sites)
    sites = sites[:a.n]
    print(f'{total} sites, {len(sites)} tried', flush=True)
    d = f'/tmp/mut-{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))

    def tests():
        env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'}
        try:
            o = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, capture_output=True, text=True, timeout=60).stdout
        except subprocess.TimeoutExpired:
            return None
        return sorted(x.split(' - ')[0] for x in o.splitlines() if x.startswith(('FAILED', 'ERROR')))
    base = tests()
    stat = {'tests': 0, 'nat': 0, 'sym': 0, 'survive': 0, 'broken': 0}
    for f, s, e, new, what, fn, line in sites:
        src = open('/repo/' + f, 'rb').read()
        mut = src[:s] + new.encode() + src[e:]
        try:
            ast.parse(mut)
        except SyntaxError:
            stat['broken'] += 1
            continue
        open(f'{d}/{f}', 'wb').write(mut)
        try:
            t = tests()
            if t != base:
                stat['tests'] += 1
                continue
            r = 'survive'
            extra = ''
            for mode in ('nat', 'sym')[:1 if a.natonly else 2]:
                cmd = ['python3-vt', '-m', 'kv.run', a.prefix + '*', '--mode', mode] + (['--only', a.only] if a.only else [])
                try:
                    p = subprocess.run(cmd, cwd='/verif', env={**os.environ, 'KV_REPO': d, 'KV_JOBS': a.jobs, 'KV_SEARCH': '5'}, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    extra += ' TIMEOUT'
                    continue
                if 'VIOLATION' in p.stdout:
                    r = mode
                    if 'no-failing' in p.stdout:
                        extra += ' noinput'
                    break
                extra += ''.join('\n      ' + x[:200] for x in p.stdout.splitlines() if 'undecided:' in x and 'no native run' not in x) + p.stderr[-300:]
            stat[r] += 1
            if r != 'nat':
                print(f'{r}: {f}:{line} {fn} [{what}] {src[s:e].decode()[:90]!r} -> {new[:90]!r}{extra}', flush=True)
        finally:
            open(f'{d}/{f}', 'wb').write(src)
    shutil.rmtree(d, ignore_errors=True)
    print(stat)


if __name__ == '__main__':
    main()
