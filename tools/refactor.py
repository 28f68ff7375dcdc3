#!/usr/bin/env python3
"""refactor.py DIR KIND...: copies /repo to DIR and rewrites every module of
the tool by edits that keep the behaviour, to try whether the checks stay
quiet (TF_REPO=DIR ./check.py ...)."""
import ast
import os
import shutil
import sys

SKIP = ('tests', 'examples', 'setup.py', 'build', 'dist', '.git', 'com',
        'testpybcp47.py', 'wiki', 'doc')
PURE = (ast.Name, ast.Constant, ast.Attribute)


def pure(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.Name) or \
        isinstance(e, ast.Attribute) and pure(e.value)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def name(self, stem):
        self.n += 1
        return '%s_%d' % (stem, self.n)


def has(node, kinds):
    """Has a node of these kinds outside nested functions."""
    for c in ast.iter_child_nodes(node):
        if isinstance(c, kinds):
            return True
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) \
                and has(c, kinds):
            return True
    return False


class TempReturn(Base):
    """return X -> result = X; return result"""

    def visit_Return(self, n):
        if n.value is None or pure(n.value):
            return n
        v = self.name('result')
        return [ast.Assign([ast.Name(v, ast.Store())], n.value),
                ast.Return(ast.Name(v, ast.Load()))]


class InvertIf(Base):
    """if a: X else: Y -> if not a: Y else: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        body = n.orelse or [ast.Pass()]
        t = n.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return ast.If(t.operand, body, n.body)
        return ast.If(ast.UnaryOp(ast.Not(), t), body, n.body)


class FlipCompare(Base):
    """a < b -> b > a, where evaluating has no order"""
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
            ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP and (
                pure(n.left) or pure(n.comparators[0])):
            return ast.Compare(n.comparators[0],
                               [self.FLIP[type(n.ops[0])]()], [n.left])
        return n


class WhileLoop(Base):
    """for x in y -> a while loop over its iterator"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = self.name('items')
        nxt = ast.Try(
            [ast.Assign([n.target], ast.Call(
                ast.Name('next', ast.Load()), [ast.Name(it, ast.Load())],
                []))],
            [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None,
                               [ast.Break()])], [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(
            ast.Name('iter', ast.Load()), [n.iter], [])),
            ast.While(ast.Constant(True), [nxt] + n.body, [])]


class Loops(Base):
    """[f(x) for x in y] as an assigned value -> a loop appending"""

    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if not isinstance(v, ast.ListComp) or len(v.generators) != 1 or \
                not self.inside:
            return n
        g = v.generators[0]
        out = self.name('collected')
        body = [ast.Expr(ast.Call(ast.Attribute(
            ast.Name(out, ast.Load()), 'append', ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(out, ast.Store())],
                           ast.List([], ast.Load())),
                ast.For(g.target, g.iter, body, []),
                ast.Assign(n.targets, ast.Name(out, ast.Load()))]
    inside = 0

    def visit_FunctionDef(self, n):
        self.inside += 1
        self.generic_visit(n)
        self.inside -= 1
        return n

    def visit_ClassDef(self, n):
        old, self.inside = self.inside, 0
        self.generic_visit(n)
        self.inside = old
        return n


class IfExp(Base):
    """not (a or b) stays; a and b as a test -> b if a else False"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            e = t.values[-1]
            for x in reversed(t.values[:-1]):
                e = ast.IfExp(x, e, ast.Constant(False))
            n.test = e
        elif isinstance(t, ast.BoolOp):
            e = t.values[-1]
            for x in reversed(t.values[:-1]):
                e = ast.IfExp(x, ast.Constant(True), e)
            n.test = e
        return n


class NestIf(Base):
    """if a and b: X -> if a: if b: X, without an else"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and \
                not n.orelse:
            body = n.body
            for x in reversed(t.values):
                body = [ast.If(x, body, [])]
            return body[0]
        return n


class InOr(Base):
    """x in (a, b) -> x == a or x == b, for plain x"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) \
                and pure(n.left) and isinstance(
                    n.comparators[0], (ast.Tuple, ast.List)) and \
                len(n.comparators[0].elts) > 1:
            isin = isinstance(n.ops[0], ast.In)
            return ast.BoolOp(ast.Or() if isin else ast.And(), [
                ast.Compare(n.left, [ast.Eq() if isin else ast.NotEq()], [e])
                for e in n.comparators[0].elts])
        return n


class Helper(Base):
    """Methods' bodies move to a helper of their own"""

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        body = []
        for f in n.body:
            body += self.split(f, n.name)
        n.body = body
        return n

    def split(self, f, cls):
        if not isinstance(f, ast.FunctionDef) or f.decorator_list or \
                f.name.startswith('__') or f.args.vararg or f.args.kwarg or \
                f.args.kwonlyargs or not f.args.args or \
                f.args.args[0].arg != 'self' or has(
                    f, (ast.Yield, ast.YieldFrom)) or len(f.body) < 3:
            return [f]
        src = ast.unparse(f)
        if 'locals()' in src or 'self.__' in src or 'super(' in src:
            return [f]
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(
            f.body[0].value, ast.Constant) else []
        g = ast.FunctionDef('_%s%s' % (f.name.strip('_'), cls), ast.arguments(
            [], [ast.arg(a.arg) for a in f.args.args], None, [], [], None,
            []), f.body[len(doc):], [], lineno=0)
        call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), g.name,
                                      ast.Load()),
                        [ast.Name(a.arg, ast.Load())
                         for a in f.args.args[1:]], [])
        f.body = doc + [ast.Return(call)]
        return [g, f]


class Rename(Base):
    """Local variables get other names"""

    def visit_FunctionDef(self, n):
        src = ast.unparse(n)
        if 'locals()' in src or has(n, (ast.Global, ast.FunctionDef,
                                        ast.Lambda, ast.ClassDef)):
            return n
        args = set(a.arg for a in n.args.args + n.args.kwonlyargs)
        for x in (n.args.vararg, n.args.kwarg):
            if x:
                args.add(x.arg)
        names = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
        names -= args
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = 'my_' + x.id
            elif isinstance(x, ast.ExceptHandler) and x.name and \
                    x.name in names:
                x.name = 'my_' + x.name
        return n


class DeMorgan(Base):
    """a or b -> not (not a and not b), in tests"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                ast.Or() if isinstance(t.op, ast.And) else ast.And(),
                [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return n


class Early(Base):
    """if a: return X else: Y -> if a: return X; Y"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        last = n.body[-1]
        if isinstance(last, ast.If) and not last.orelse and not has(
                n, (ast.Yield, ast.YieldFrom)) and n.name != '__init__':
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), last.test),
                                  [ast.Return(None)], [])] + last.body
        return n


class Format(Base):
    """'..%s..' % (a, b) -> '..{0}..'.format(a, b), plain texts only"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str) and isinstance(
                    n.right, ast.Tuple):
            t = n.left.value
            if '{' in t or '}' in t or t.count('%') != t.count('%d') or \
                    t.count('%') != len(n.right.elts):
                return n
            for i in range(len(n.right.elts)):
                t = t.replace('%d', '{%d:d}' % i, 1)
            return ast.Call(ast.Attribute(ast.Constant(t), 'format',
                                          ast.Load()),
                            [ast.Call(ast.Name('int', ast.Load()), [e], [])
                             for e in n.right.elts], [])
        return n


class Walk(Base):
    """Plain indexing loops: for x in L -> for i in range(len(L))
    where L is a local list display name is unknown: only enumerate"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id == 'enumerate' and len(it.args) == 1 and \
                isinstance(n.target, ast.Tuple) and not n.orelse:
            c = self.name('count')
            return [ast.Assign([ast.Name(c, ast.Store())], ast.Constant(-1)),
                    ast.For(n.target.elts[1], it.args[0], [
                        ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(),
                                      ast.Constant(1)),
                        ast.Assign([n.target.elts[0]],
                                   ast.Name(c, ast.Load()))] + n.body, [])]
        return n


KINDS = {k.__name__: k for k in (
    TempReturn, InvertIf, FlipCompare, WhileLoop, Loops, IfExp, NestIf, InOr,
    Helper, Rename, DeMorgan, Early, Format, Walk)}


class Plain(ast._Unparser):
    def _write_constant(self, value):
        if isinstance(value, str):
            self.write(ascii(value))
        else:
            super()._write_constant(value)

    def _write_docstring(self, node):
        self.fill()
        self.write(ascii(node.value))

    def _str_literal_helper(self, *a, **k):
        raise SystemExit('f-string')


def main(d, kinds):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in SKIP]
        for f in files:
            if not f.endswith('.py') or f in SKIP:
                continue
            p = os.path.join(base, f)
            src = open(p, encoding='utf8').read()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                print('left', p, e)
                continue
            for k in kinds:
                tree = ast.fix_missing_locations(KINDS[k]().visit(tree))
            pass
            u = Plain()
            new = u.visit(tree)
            open(p, 'w', encoding='utf8').write(
                '# -*- coding: utf-8 -*-\n' + new + '\n')


main(sys.argv[1], sys.argv[2:] or sorted(KINDS))
