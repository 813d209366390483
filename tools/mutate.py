#!/usr/bin/env python3
"""mutate.py FILE[:func,func] CHECK[,CHECK] [-n N] [-j J] [-s SEED] [-o OUT]

Development aid: single-point mutants of a Python file of /repo, each checked in
a scratch copy (EDPYT_REPO); prints the survivors. Not used by any check."""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
       ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Mod: ['//'],
       ast.BitAnd: ['|'], ast.BitOr: ['&', '^'], ast.BitXor: ['|'], ast.LShift: ['>>'], ast.RShift: ['<<'],
       ast.Pow: ['*']}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&',
       ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**', ast.MatMult: '@'}
SWAP = {'up': 'dw', 'dw': 'up', 'nup': 'ndw', 'ndw': 'nup', 'sup': 'sdw', 'sdw': 'sup', 'dup': 'dwn', 'dwn': 'dup',
        'i': 'j', 'j': 'i', 'real': 'imag', 'imag': 'real', 'cdg': 'c', 'c': 'cdg', 'min': 'max', 'max': 'min',
        'extract': 'inject', 'inject': 'extract', 'sctI': 'sctJ', 'sctJ': 'sctI', 'argmin': 'argmax', 'vF': 'vI', 'vI': 'vF',
        'ek': 'vk', 'vk': 'ek', 'a': 'b', 'b': 'a', 'zeros': 'ones', 'eigvals': 'eigvecs', 'e': 'v', 'row': 'col', 'col': 'row',
        'zeros_like': 'ones_like', 'continue': 'break'}


class M(ast.NodeVisitor):
    def __init__(self, src, funcs):
        self.src, self.funcs, self.out, self.depth = src, funcs, [], 0
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def txt(self, n):
        a, b = self.pos(n)
        return self.src.encode()[a:b].decode()

    def rep(self, n, new):
        if self.depth or not self.funcs:
            self.out.append((self.pos(n), new, n.lineno))

    def visit_FunctionDef(self, n):
        hit = self.funcs and n.name in self.funcs
        self.depth += bool(hit)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for x in n.args.defaults:
            self.visit(x)
        for x in body:
            self.visit(x)
        self.depth -= bool(hit)

    def visit_ClassDef(self, n):
        hit = self.funcs and n.name in self.funcs
        self.depth += bool(hit)
        for x in n.body:
            self.visit(x)
        self.depth -= bool(hit)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                self.rep(n, '%s %s %s' % (self.txt(n.left), o, self.txt(n.comparators[0])))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        for o in BIN.get(type(n.op), []):
            self.rep(n, '(%s %s %s)' % (self.txt(n.left), o, self.txt(n.right)))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.rep(n, self.txt(n.operand))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.rep(n, '(' + o.join(self.txt(v) for v in n.values) + ')')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.rep(n, str(not v))
        elif isinstance(v, int):
            self.rep(n, str(v + 1))
            if v:
                self.rep(n, str(v - 1))
        elif isinstance(v, float):
            self.rep(n, repr(v * 2 + (v == 0)))
            if v:
                self.rep(n, repr(-v))
        elif isinstance(v, complex):
            self.rep(n, '(-%r)' % v)

    def visit_JoinedStr(self, n):
        pass

    def visit_Name(self, n):
        if n.id in SWAP:
            self.rep(n, SWAP[n.id])

    def visit_Attribute(self, n):
        if n.attr in SWAP:
            self.rep(n, self.txt(n.value) + '.' + SWAP[n.attr])
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep(n.test, 'not (%s)' % self.txt(n.test))
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for k in range(len(n.args) - 1):
                t = self.txt(n)
                a0, a1 = self.pos(n.args[k])
                b0, b1 = self.pos(n.args[k + 1])
                s, _ = self.pos(n)
                e = self.src.encode()
                full = e[s:a0] + e[b0:b1] + e[a1:b0] + e[a0:a1] + e[b1:self.pos(n)[1]]
                if full.decode() != t:
                    self.rep(n, full.decode())
        for k in n.keywords:
            if k.arg and not isinstance(k.value, ast.Constant):
                pass
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            a, b = n.slice.elts
            self.rep(n.slice, '%s,%s' % (self.txt(b), self.txt(a)))
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.rep(n, 'pass')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, 'pass')
        self.rep(n, '%s = %s' % (self.txt(n.target), self.txt(n.value)))
        for o in BIN.get(type(n.op), [])[:1]:
            self.rep(n, '%s %s= %s' % (self.txt(n.target), o, self.txt(n.value)))
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.rep(n, 'pass')

    def visit_Continue(self, n):
        self.rep(n, 'break')
        self.rep(n, 'pass')

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.rep(n, 'pass')
        self.generic_visit(n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('checks')
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-x', default='')
    a = ap.parse_args()
    f, _, funcs = a.file.partition(':')
    src = open('/repo/' + f).read()
    m = M(src, set(funcs.split(',')) if funcs else set())
    m.visit(ast.parse(src))
    muts = []
    for p, new, line in m.out:
        e = src.encode()
        s = (e[:p[0]] + new.encode() + e[p[1]:]).decode()
        try:
            compile(s, f, 'exec')
        except SyntaxError:
            continue
        if s != src:
            muts.append((line, e[p[0]:p[1]].decode(), new, s))
    random.Random(a.s).shuffle(muts)
    total = len(muts)
    muts = muts[:a.n]
    vdir = tempfile.mkdtemp(prefix='mutv_', dir='/tmp')
    v = vdir + '/v'
    shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'seeded'))

    def run(k):
        line, old, new, s = muts[k]
        d = tempfile.mkdtemp(prefix='mutr_', dir='/tmp')
        try:
            subprocess.run(['cp', '-a', '/repo/.', d + '/r'], check=True)
            shutil.rmtree(d + '/r/.git', ignore_errors=True)
            open(d + '/r/' + f, 'w').write(s)
            res = []
            for c in a.checks.split(','):
                p = subprocess.run(['timeout', '600', 'python3-vt', 'check.py', c], cwd=v, capture_output=True,
                                   env=dict(os.environ, EDPYT_REPO=d + '/r', TMPDIR=d, VERIF_GRACE_S='0', VERIF_CHECK_S='400'))
                res.append('%s=%d' % (c, p.returncode))
                if p.returncode == 1:
                    return None
            return '%s:%d  %r -> %r   [%s]\n      %s' % (f, line, old[:90], new[:90], ' '.join(res),
                                                     src.split('\n')[line - 1].strip())
        finally:
            shutil.rmtree(d, ignore_errors=True)

    surv = 0
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, range(len(muts))):
            if r:
                surv += 1
                print('SURVIVED', r, flush=True)
    print('%s %s: %d of %d mutants tried, %d survived' % (a.file, a.checks, len(muts), total, surv))
    shutil.rmtree(vdir, ignore_errors=True)


main()
