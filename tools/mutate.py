"""Development only: run the checks on small mutations of the library.

mutate.py COUNT SEED [name-filter]: samples COUNT mutants of /repo/sdepy in a
scratch copy, runs the checks meant to cover each mutated function, prints
the survivors.  Not used by any check; writes under /tmp only."""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['infrastructure.py', 'integration.py', 'kfun.py', 'analytical.py',
         'shortcuts.py']
MAP = [
    (r'infrastructure\._wraps', 'C22'),
    (r'infrastructure\._(shape_setup|const|variable|get_|check_source|source_setup)', 'C06 C12 C02 C09'),
    (r'infrastructure\.process\.(interp|__call__|rebase)', 'C16 C13'),
    (r'infrastructure\.process\.__getitem__', 'C15 C13'),
    (r'infrastructure\.process\.(__array|__new__|_is_comp)', 'C13 C14 C15'),
    (r'infrastructure\.process\.(shapeas|pcopy|xcopy|tcopy)', 'C18'),
    (r'infrastructure\.process\.(x|paths|vshape|tx|dt|dtx)$', 'C13 C17 C18'),
    (r'infrastructure\.process', 'C17'),
    (r'infrastructure\.piecewise', 'C16'),
    (r'infrastructure\._antithetics', 'C07'),
    (r'infrastructure\.(true_wiener|_indexed)', 'C09 C08'),
    (r'infrastructure\.(true_p|true_c)', 'C10 C08'),
    (r'infrastructure\.true', 'C08 C09 C10'),
    (r'infrastructure\.montecarlo', 'C19 C20 C21'),
    (r'infrastructure\..*(source)', 'C06 C12 C11 C07'),
    (r'infrastructure\..*(rv|exp_mean)', 'C23'),
    (r'infrastructure', 'C06 C13'),
    (r'integration\.paths_generator', 'C01 C05 C02'),
    (r'integration\.(integrator|SDE)\b', 'C02 C28 C05 C12 C11'),
    (r'integration\.(SDEs|integrate|_SDE_from)', 'C03 C28 C02'),
    (r'integration', 'C04 C05'),
    (r'kfun', 'C22'), (r'shortcuts', 'C22 C25'),
    (r'analytical', 'C25 C24'),
]
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.Pow: '*', ast.FloorDiv: '*', ast.Mod: '+'}


class Collect(ast.NodeVisitor):
    def __init__(self, src, mod):
        self.src, self.mod = src, mod
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.stack, self.out, self.names = [], [], [set()]

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new:
            self.out.append(('.'.join([self.mod] + self.stack), n.lineno,
                             a, b, new, kind))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.names.append(
            {x.arg for x in n.args.args + n.args.kwonlyargs} - {'self'} |
            {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
             isinstance(x.ctx, ast.Store)})
        for d in list(n.args.defaults) + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.names.pop()
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and
                    isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.stack.pop()

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, '%s %s %s' % (
                self.text(n.left), SWAP[type(n.ops[0])],
                self.text(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.op, ast.Mod)):
            self.add(n, '(%s) %s (%s)' % (
                self.text(n.left), BIN[type(n.op)], self.text(n.right)),
                'bin')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, '(%s)' % self.text(n.operand), 'un')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), 'const')
        elif isinstance(v, int):
            self.add(n, str(v + 1) if v != 1 else '0', 'const')
        elif isinstance(v, float):
            self.add(n, repr(v/2 + .25), 'const')

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, op.join('(%s)' % self.text(v) for v in n.values), 'bool')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'ifexp')
        self.add(n, '(%s)' % self.text(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_If(self, n):
        only_raise = all(isinstance(s, ast.Raise) for s in n.body)
        self.add(n.test, 'False', 'if')
        if not only_raise:
            self.add(n.test, 'True', 'if')
        self.generic_visit(n)

    def visit_Call(self, n):
        for i, k in enumerate(n.keywords):
            if k.arg is None:
                continue
            a, b = self.pos(k)
            # remove the keyword along with the comma before it
            s = self.b[:a].decode().rstrip()
            if s.endswith(','):
                a = len(s[:-1].encode())
                self.out.append(('.'.join([self.mod] + self.stack), k.lineno,
                                 a, b, '', 'kw'))
        # calls replaced with their argument or object
        fn = n.func
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if fn.attr in ('copy', 'astype', 'reshape', 'squeeze', 'ravel'):
                self.add(n, self.text(v), 'uncall')
            if isinstance(v, ast.Name) and v.id == 'np' and n.args:
                self.add(n, self.text(n.args[0]), 'uncall')
        if len(n.args) > 1 and not any(isinstance(x, ast.Starred)
                                       for x in n.args):
            for i in range(len(n.args) - 1):
                x, y = n.args[i:i + 2]
                a, b = self.pos(x)[0], self.pos(y)[1]
                self.out.append(('.'.join([self.mod] + self.stack), n.lineno,
                                 a, b, '%s, %s' % (self.text(y),
                                                   self.text(x)), 'swap'))
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.names[-1]:
            others = sorted(self.names[-1] - {n.id})
            if others:
                self.add(n, others[(n.lineno*7 + n.col_offset) % len(others)],
                         'name')

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            self.add(n, self.text(n.value), 'unindex')
        self.generic_visit(n)

    def visit_Slice(self, n):
        for k in (n.lower, n.upper):
            if k is not None:
                self.add(k, '', 'slice')
        self.generic_visit(n)

    def visit_stmt(self, n):
        self.add(n, 'pass', 'del')
        self.generic_visit(n)

    visit_AugAssign = visit_stmt

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.visit_stmt(n)

    def visit_Assign(self, n):
        if any(not isinstance(t, ast.Name) for t in n.targets):
            self.add(n, 'pass', 'del')
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    filt = sys.argv[3] if len(sys.argv) > 3 else ''
    muts = []
    for f in FILES:
        src = open('/repo/sdepy/' + f).read()
        c = Collect(src, f[:-3])
        c.visit(ast.parse(src))
        for m in c.out:
            muts.append((f,) + m)
    muts = [m for m in muts if re.search(filt, m[1])]
    kinds = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    muts = [m for m in muts if not kinds or m[-1] in kinds]
    print(len(muts), 'mutants')
    random.Random(seed).shuffle(muts)
    W = '/tmp/mutate_%d' % os.getpid()
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    killed = 0
    for n, (f, name, line, a, b, new, kind) in enumerate(muts[:count]):
        src = open('/repo/sdepy/' + f, 'rb').read()
        mut = src[:a] + new.encode() + src[b:]
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            continue
        open(W + '/sdepy/' + f, 'wb').write(mut)
        checks = next(c for r, c in MAP if re.search(r, name)).split()
        t0 = time.time()
        by = None
        for c in checks:
            env = dict(os.environ, SDEPY_MC_REPO=W, SDEPY_MC_OUT=W + '/out')
            r = subprocess.run(['timeout', '300', HERE + '/run.py', c,
                                '--fast'], env=env, capture_output=True,
                               text=True)
            if r.returncode:
                by = c
                break
        open(W + '/sdepy/' + f, 'wb').write(src)
        what = '%s:%d %s [%s] %r -> %r' % (
            f, line, name, kind, src[a:b].decode()[:90], new[:90])
        if by:
            killed += 1
        else:
            print('SURVIVED', what, '%.0fs' % (time.time() - t0), flush=True)
        if n % 20 == 19:
            print('...', n + 1, killed, flush=True)
    shutil.rmtree(W, ignore_errors=True)
    print('done', count, 'killed', killed)


if __name__ == '__main__':
    main()
