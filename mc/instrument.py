"""Import hook that adds scheduling points to the katcp modules under test.

A point is inserted before every statement of every function body, before every
attribute read of a ``self``-rooted expression, and read-modify-write statements
on attributes / items are split, so that a virtual thread can be pre-empted
anywhere CPython/PyPy could switch threads between two shared accesses.
Semantics are otherwise unchanged.
"""
import ast
import importlib.abc
import importlib.machinery
import sys

PT = '__mc_pt__'


class Points(ast.NodeTransformer):
    def __init__(self, fine=True):
        self.depth = 0
        self.fine = fine

    def _call(self, node):
        c = ast.Call(func=ast.Name(id=PT, ctx=ast.Load()), args=[], keywords=[])
        return ast.copy_location(c, node)

    def _body(self, body):
        out = []
        for i, st in enumerate(body):
            if i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) \
                    and isinstance(st.value.value, str):
                out.append(st)
                continue
            new = self.visit(st)
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom,
                                   ast.Global, ast.Nonlocal, ast.Pass)):
                e = ast.Expr(value=self._call(st))
                out.append(ast.copy_location(e, st))
            out.extend(new if isinstance(new, list) else [new])
        return out

    def _stmts(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self._body(b))
        if isinstance(node, ast.Try):
            for h in node.handlers:
                h.body = self._body(h.body)
                if h.type is not None:
                    h.type = self.visit(h.type)
        return node

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self._body(node.body)
        self.depth -= 1
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        return node

    def _compound(self, node):
        if not self.depth:
            return self.generic_visit(node)
        for name, val in list(ast.iter_fields(node)):
            if name in ('body', 'orelse', 'finalbody', 'handlers'):
                continue
            if isinstance(val, ast.AST):
                setattr(node, name, self.visit(val))
            elif isinstance(val, list):
                setattr(node, name, [self.visit(v) if isinstance(v, ast.AST) else v
                                     for v in val])
        node = self._stmts(node)
        if isinstance(node, ast.While):
            # a loop iteration is a point even when its body is empty
            pass
        return node

    visit_If = visit_For = visit_While = visit_With = visit_Try = _compound

    def visit_AugAssign(self, node):
        if not self.depth:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Attribute) and isinstance(node.target.value, ast.Name):
            load = ast.Attribute(value=node.target.value, attr=node.target.attr, ctx=ast.Load())
            tmp = ast.Name(id='__mc_tmp__', ctx=ast.Store())
            s1 = ast.Assign(targets=[tmp], value=ast.BinOp(left=load, op=node.op,
                                                           right=node.value))
            s2 = ast.Expr(value=self._call(node))
            s3 = ast.Assign(targets=[node.target], value=ast.Name(id='__mc_tmp__',
                                                                  ctx=ast.Load()))
            out = [s1, s2, s3]
            for s in out:
                ast.copy_location(s, node)
                ast.fix_missing_locations(s)
            # in-place operators on mutable objects (lists, sets) must stay in place
            if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)) and self._numeric(node.value):
                return out
        return node

    def _numeric(self, v):
        return isinstance(v, ast.Constant) and isinstance(v.value, (int, float))

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.depth and self.fine and isinstance(node.ctx, ast.Load) and \
                isinstance(node.value, ast.Name) and node.value.id == 'self':
            tup = ast.Tuple(elts=[self._call(node), node], ctx=ast.Load())
            sub = ast.Subscript(value=tup, slice=ast.Index(value=ast.Constant(value=1))
                                if sys.version_info < (3, 9) else ast.Constant(value=1),
                                ctx=ast.Load())
            return ast.copy_location(sub, node)
        return node


def transform(source, filename, fine=True):
    tree = ast.parse(source, filename)
    tree = Points(fine).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    fine = True

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = transform(data, path, self.fine)
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import sim
        module.__dict__[PT] = sim.point
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, fullname, path, target=None):
        if fullname not in self.names:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(names):
    sys.meta_path.insert(0, Finder(names))
