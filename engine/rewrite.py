"""Rewrites Python 2 source (parsed by the Python 3 grammar) so that it runs
under CPython 3 with Python 2 semantics and symbolic values.

Only operators and literal displays whose meaning differs (or that must accept
symbolic operands) are replaced by calls into py2rt; control flow is untouched,
so every branch of the real code is taken by the real code.
"""
import ast
import warnings

# attribute calls routed through py2rt.meth
METHODS = frozenset('''
items keys values iteritems iterkeys itervalues has_key sort next
join startswith endswith strip lstrip rstrip split rsplit splitlines replace
find rfind index rindex count encode decode format lower upper title
capitalize swapcase partition rpartition zfill ljust rjust center isdigit
isalpha isalnum isspace isupper islower translate expandtabs
'''.split())

CMP = {ast.Eq: '_eq', ast.NotEq: '_ne', ast.Lt: '_lt', ast.LtE: '_le',
       ast.Gt: '_gt', ast.GtE: '_ge', ast.In: '_in', ast.NotIn: '_notin'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, future_division):
        self.future_division = future_division
        self.n = 0

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, args):
        return ast.Call(func=self._name(fn), args=args, keywords=[])

    def _tmp(self):
        self.n += 1
        return '_rw%d' % self.n

    # ---- operators
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            fn = '_truediv' if self.future_division else '_div'
        elif isinstance(node.op, ast.Mod):
            fn = '_mod'
        else:
            return node
        return ast.copy_location(self._call(fn, [node.left, node.right]), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            fn = '_truediv' if self.future_division else '_div'
        elif isinstance(node.op, ast.Mod):
            fn = '_mod'
        else:
            return node
        import copy
        load = copy.deepcopy(node.target)
        for sub in ast.walk(load):
            if hasattr(sub, 'ctx'):
                sub.ctx = ast.Load()
        return ast.copy_location(
            ast.Assign(targets=[node.target],
                       value=self._call(fn, [load, node.value])), node)

    def _one_cmp(self, left, op, right):
        fn = CMP.get(type(op))
        if fn:
            return self._call(fn, [left, right])
        if isinstance(right, ast.Constant) and right.value in (True, False) \
                and right.value is not None and isinstance(right.value, bool):
            return self._call('_is' if isinstance(op, ast.Is) else '_isnot',
                              [left, right])
        return ast.Compare(left=left, ops=[op], comparators=[right])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return ast.copy_location(
                self._one_cmp(node.left, node.ops[0], node.comparators[0]),
                node)
        parts, left = [], node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                t = self._tmp()
                parts.append(self._one_cmp(left, op, ast.NamedExpr(
                    target=ast.Name(id=t, ctx=ast.Store()), value=right)))
                left = self._name(t)
            else:
                parts.append(self._one_cmp(left, op, right))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    # ---- displays
    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(self._call(
            '_mkdict', [ast.List(elts=pairs, ctx=ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return ast.copy_location(self._call(
            '_mkdict', [ast.ListComp(elt=elt, generators=node.generators)]),
            node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call(
            '_mkset', [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call(
            '_mkset', [ast.ListComp(elt=node.elt,
                                    generators=node.generators)]), node)

    def visit_Constant(self, node):
        if isinstance(node.value, bytes):
            return ast.copy_location(
                ast.Constant(value=node.value.decode('latin-1')), node)
        return node

    # ---- calls
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            node.func = ast.copy_location(self._call(
                '_meth', [f.value, ast.Constant(value=f.attr)]), f)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, (ast.Slice, ast.Constant)):
            return ast.copy_location(self._call(
                '_getitem', [node.value, node.slice]), node)
        return node

    # ---- statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = self._name('_any_exception')
        if node.name:
            t = self._tmp()
            node.body.insert(0, ast.Assign(
                targets=[ast.Name(id=node.name, ctx=ast.Store())],
                value=self._name(t)))
            node.name = t
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        node.decorator_list.append(self._name('_py2class'))
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node


def rewrite(source, filename):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(source, filename)
    division = False
    body = []
    for st in tree.body:
        if isinstance(st, ast.ImportFrom) and st.module == '__future__':
            if any(a.name == 'division' for a in st.names):
                division = True
            continue
        body.append(st)
    tree.body = body
    tree = Rewriter(division).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
