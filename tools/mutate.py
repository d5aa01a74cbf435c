"""Systematic small changes of the code under test: which ones does no check
notice?  A development aid, not part of any check.

usage: mutate.py FILE [--jobs N] [--scale X] [--out FILE] [--only FUNC,...]
                 [--sample K]
The mutants run on scratch copies under /tmp/egmut.*
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'

# props and number of runs in the first stage
RUNS = {'P01': 300, 'P02': 300, 'P03': 300, 'P04': 300, 'P05': 300,
        'P06': 200, 'P07': 400, 'P08': 200, 'P09': 200, 'P10': 150,
        'P11': 800, 'P12': 300, 'P13': 150, 'P14': 150, 'P15': 150,
        'P16': 150, 'P17': 150, 'P18': 250, 'P19': 40, 'P20': 80,
        'P21': 200, 'P22': 80}
WHICH = [
    ('data/handler/base.py', 'P01 P03 P07 P02 P04 P05 P06 P08 P09 P10 P12'),
    ('data/handler/modular.py', 'P11 P22'),
    ('data/modules', 'P11'),
    ('data/trafo.py', 'P12 P21'),
    ('data/tensor.py', 'P03 P11'),
    ('manager/component.py', 'P17 P18 P15 P13 P19'),
    ('utils/configurator.py', 'P17 P18'),
    ('model/base.py', 'P13 P14 P16 P15 P20 P19'),
    ('multi_source/base.py', 'P20'),
    ('manager/base.py', 'P19 P20'),
    ('manager/source.py', 'P21 P19'),
    ('reconstruction/', 'P21'),
    ('train_model.py', 'P19'),
    ('', 'P19 P20 P21'),
]


def skip_call(node):
    """Logging, messages and printing."""
    t = ast.unparse(node)
    return '_logger' in t or 'logger.' in t or t.startswith('print(') or \
        'msg' in t.split('(')[0] or 'tqdm' in t


class Finder(ast.NodeVisitor):

    def __init__(self, src, only):
        self.lines = src.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.src = src.encode()
        self.out = []
        self.stack = []
        self.only = only

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def add(self, node, a, b, new, what):
        if self.only and not any(f in self.only for f in self.stack):
            return
        self.out.append({'a': a, 'b': b, 'new': new, 'what': what,
                         'line': node.lineno, 'func': '.'.join(self.stack),
                         'old': self.src[a:b].decode()})

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        for x in body:
            self.visit(x)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for x in n.body:
            self.visit(x)

    def stmt(self, n, what='delete statement'):
        a, b = self.span(n)
        self.add(n, a, b, 'pass', what)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant) or skip_call(n):
            return
        if self.stack:
            self.stmt(n)
        self.generic_visit(n)

    def visit_Assign(self, n):
        if skip_call(n):
            return
        if self.stack and isinstance(n.targets[0], (ast.Attribute,
                                                    ast.Subscript)):
            self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if 'msg' not in ast.unparse(n.target):
            self.stmt(n)
            self.generic_visit(n)

    def visit_Break(self, n):
        self.stmt(n)

    def visit_Continue(self, n):
        self.stmt(n)

    def visit_Delete(self, n):
        self.stmt(n)

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_Assert(self, n):
        pass

    def visit_If(self, n):
        a, b = self.span(n.test)
        if '__name__' not in ast.unparse(n.test) and \
                'verbose' not in ast.unparse(n.test):
            self.add(n, a, b, '(True)', 'if True')
            self.add(n, a, b, '(False)', 'if False')
            self.generic_visit(n)

    def visit_With(self, n):
        # without the lock
        if len(n.items) == 1 and n.items[0].optional_vars is None:
            a, b = self.span(n.items[0].context_expr)
            self.add(n, a, b, '__import__("contextlib").nullcontext()',
                     'no context')
        self.generic_visit(n)

    def visit_Compare(self, n):
        swap = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
                ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
                ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
        text = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
                ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
                ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
        if len(n.ops) == 1:
            op = type(n.ops[0])
            if op in swap and op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                _, a = self.span(n.left)
                b, _ = self.span(n.comparators[0])
                mid = self.src[a:b].decode()
                self.add(n, a, b, mid.replace(text[op], swap[op], 1),
                         'comparison')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a, b = self.span(n)
        for i, v in enumerate(n.values):
            x, y = self.span(v)
            self.add(n, x, y, 'True' if isinstance(n.op, ast.And) else
                     'False', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            a, b = self.span(n)
            x, y = self.span(n.operand)
            self.add(n, a, b, '(' + self.src[x:y].decode() + ')', 'not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(
                n.left, ast.Constant) and 'str' not in ast.unparse(n):
            _, a = self.span(n.left)
            b, _ = self.span(n.right)
            mid = self.src[a:b].decode()
            s, t = ('+', '-') if isinstance(n.op, ast.Add) else ('-', '+')
            if s in mid:
                self.add(n, a, b, mid.replace(s, t, 1), 'arithmetic')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if not self.stack:
            return
        a, b = self.span(n)
        if n.value is True or n.value is False:
            self.add(n, a, b, str(not n.value), 'flag')
        elif type(n.value) is int and abs(n.value) < 1000:
            self.add(n, a, b, str(n.value + 1), 'number')
        elif n.value is None:
            pass

    def visit_ExceptHandler(self, n):
        a, b = self.span(n.body[0])
        self.add(n.body[0], a, a, 'raise\n' + ' ' * n.body[0].col_offset,
                 'reraise')
        self.generic_visit(n)

    def visit_Call(self, n):
        if skip_call(n):
            return
        for k in n.keywords:
            if k.arg in ('logger', 'verbose'):
                continue
        self.generic_visit(n)


def mutants(path, only):
    src = open(path).read()
    f = Finder(src, only)
    f.visit(ast.parse(src))
    out = []
    for m in f.out:
        new = f.src[:m['a']] + m['new'].encode() + f.src[m['b']:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new == f.src:
            continue
        m['src'] = new.decode()
        out.append(m)
    return out


def child(props, scale, out):
    sys.path.insert(0, ROOT)
    from sim import env
    env.setup()
    from sim import runner
    import gc
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    res = ['survived', '']
    for p in props:
        prop = runner.load(p)
        gc.collect()
        gc.freeze()
        for i in range(int(RUNS[p] * scale)):
            plan = prop.plan(runner.rng_for(p, 1, i), 'quick')
            plan['seed'] = [1, i]
            plan['property'] = p
            try:
                r = runner.execute(prop, plan)
            except BaseException as e:
                import traceback
                res = ['harness', '%s run %d: %s' % (
                    p, i, traceback.format_exc()[-600:])]
                break
            if r.violation is not None:
                res = ['caught', '%s run %d: %s' % (
                    p, i, ' '.join(map(str, r.violation))[:200])]
                break
        if res[0] != 'survived':
            break
    with open(out, 'w') as f:
        json.dump(res, f)
    os._exit(0)


def main():
    if sys.argv[1] == '--child':
        child(sys.argv[2].split(','), float(sys.argv[3]), sys.argv[4])
        return
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--props')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--survivors')
    a = ap.parse_args()
    props = (a.props or [p for k, p in WHICH if k in a.file][0]).split()
    todo = mutants(os.path.join(REPO, a.file),
                   a.only.split(',') if a.only else None)
    if a.survivors:
        keep = {(m['line'], m['what'], m['new'], m['old'], m['a']) for m in
                json.load(open(a.survivors)) if m['result'] != 'caught'}
        todo = [m for m in todo if (m['line'], m['what'], m['new'], m['old'],
                                    m['a']) in keep]
    if a.sample and len(todo) > a.sample:
        todo = random.Random(5).sample(todo, a.sample)
        todo.sort(key=lambda m: m['a'])
    print(len(todo), 'mutants,', props, flush=True)
    lock = threading.Lock()
    it = iter(todo)
    done = []

    def work(k):
        d = '/tmp/egmut.%d.%d' % (os.getpid(), k)
        shutil.copytree(REPO, d, symlinks=True)
        p = os.path.join(d, a.file)
        orig = open(p).read()
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                break
            open(p, 'w').write(m['src'])
            o = d + '.json'
            if os.path.exists(o):
                os.remove(o)
            t = time.time()
            e = dict(os.environ, SIM_REPO=d, PYTHONHASHSEED='0',
                     PYTHONPATH=ROOT)
            limit = 900 * max(1, a.scale)
            pr = subprocess.Popen(
                [PY, os.path.abspath(__file__), '--child', ','.join(props),
                 str(a.scale), o], env=e, cwd=ROOT,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                start_new_session=True)
            try:
                _, err = pr.communicate(timeout=limit)
                r = json.load(open(o)) if os.path.exists(o) else [
                    'died', err.decode('utf8', 'replace')[-500:]]
            except subprocess.TimeoutExpired:
                r = ['timeout', '']
                os.killpg(pr.pid, 9)
                pr.communicate()
            m = {k: v for k, v in m.items() if k != 'src'}
            m['result'], m['info'] = r
            m['time'] = round(time.time() - t, 1)
            with lock:
                done.append(m)
                if r[0] != 'caught':
                    print('%-8s %s:%d %s  %s: %.50r -> %.30r  %s' % (
                        r[0], a.file.split('/')[-1], m['line'], m['func'],
                        m['what'], m['old'], m['new'],
                        r[1][-150:].replace('\n', ' ') if r[0] not in
                        ('survived', 'timeout') else ''), flush=True)
        open(p, 'w').write(orig)
        shutil.rmtree(d)
        if os.path.exists(d + '.json'):
            os.remove(d + '.json')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    done.sort(key=lambda m: m['a'])
    n = {}
    for m in done:
        n[m['result']] = n.get(m['result'], 0) + 1
    print(n)
    if a.out:
        json.dump(done, open(a.out, 'w'), indent=1)


main()
