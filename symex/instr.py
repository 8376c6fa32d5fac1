"""Source instrumentation and import hook.

Every module of the code under test, and every harness/oracle module, is compiled from
its current source with comparisons, membership tests, subscripts, calls, displays and
comprehensions of sets/dicts routed through symex.rt.  Nothing else is rewritten: the
statements executed are the repository's own.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

RT = "__sx_rt__"
NO_CALL = {"super", "locals", "globals", "vars", "dir", "exec", "eval", "__import__"}
CMP = {
    ast.Eq: "eq",
    ast.NotEq: "ne",
    ast.In: "contains",
    ast.NotIn: "not_contains",
    ast.Lt: "cmp_lt",
    ast.Gt: "cmp_gt",
    ast.LtE: "cmp_le",
    ast.GtE: "cmp_ge",
}


def _rt(name):
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.in_annotation = 0
        self.tmp = 0

    def _skip(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def _function(self, node):
        # annotations are left untouched
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        flat = []
        for s in node.body:
            flat.extend(s if isinstance(s, list) else [s])
        node.body = flat
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            return node
        return ast.copy_location(
            ast.Call(_rt("call"), [node.func] + node.args, node.keywords), node
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = type(node.ops[0])
            if op in CMP:
                return ast.copy_location(
                    ast.Call(_rt(CMP[op]), [node.left, node.comparators[0]], []), node
                )
            return node
        # chained: a < b < c  ->  (a < (t := b)) and (t < c); walrus keeps single
        # evaluation.  Class bodies and comprehension iterables cannot hold a walrus
        # in every position, so chains containing only simple operands are expanded
        # and the others are left native.
        vals = [node.left] + node.comparators
        if all(isinstance(v, (ast.Name, ast.Constant, ast.Attribute)) for v in vals[1:-1]):
            parts = []
            for l, op, r in zip(vals, node.ops, vals[1:]):
                name = CMP.get(type(op))
                if name:
                    parts.append(ast.Call(_rt(name), [l, r], []))
                else:
                    parts.append(ast.Compare(l, [op], [r]))
            return ast.copy_location(ast.BoolOp(ast.And(), parts), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Call(_rt("getitem"), [node.value, self._slice(node.slice)], []), node
            )
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(
                ast.Name("slice", ast.Load()), [none(s.lower), none(s.upper), none(s.step)], []
            )
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(
                    ast.Call(_rt("setitem"), [t.value, self._slice(t.slice), node.value], [])
                ),
                node,
            )
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            # x[k] op= v with simple x, k
            t = node.target
            simple = (ast.Name, ast.Constant, ast.Attribute)
            if isinstance(t.value, simple) and isinstance(t.slice, simple):
                cur = ast.Call(_rt("getitem"), [_load(t.value), _load(t.slice)], [])
                return ast.copy_location(
                    ast.Expr(
                        ast.Call(
                            _rt("setitem"),
                            [
                                _load(t.value),
                                _load(t.slice),
                                ast.BinOp(cur, node.op, node.value),
                            ],
                            [],
                        )
                    ),
                    node,
                )
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(ast.Call(_rt("delitem"), [t.value, self._slice(t.slice)], [])), node
            )
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(
            ast.Call(_rt("make_set"), [ast.List(node.elts, ast.Load())], []), node
        )

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys) or all(
            isinstance(k, ast.Constant) for k in node.keys
        ):
            return node
        return ast.copy_location(
            ast.Call(
                _rt("make_dict"),
                [
                    ast.List(
                        [
                            ast.Tuple([k, v], ast.Load())
                            for k, v in zip(node.keys, node.values)
                        ],
                        ast.Load(),
                    )
                ],
                [],
            ),
            node,
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(_rt("make_set"), [ast.ListComp(node.elt, node.generators)], []), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                _rt("make_dict"),
                [
                    ast.ListComp(
                        ast.Tuple([node.key, node.value], ast.Load()), node.generators
                    )
                ],
                [],
            ),
            node,
        )

    def visit_MatchValue(self, node):
        return node

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard:
                c.guard = self.visit(c.guard)
            body = []
            for s in c.body:
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r])
            c.body = body
        return node


def _load(n):
    import copy

    n = copy.deepcopy(n)
    if hasattr(n, "ctx"):
        n.ctx = ast.Load()
    return n


def instrument(source, filename):
    tree = ast.parse(source, filename)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8") as f:
            src = f.read()
        INSTRUMENTED[fullname] = path
        return instrument(src, path)

    def exec_module(self, module):
        from . import rt

        module.__dict__[RT] = rt
        super().exec_module(module)


INSTRUMENTED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory containing it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=Loader(fullname, init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=Loader(fullname, base + ".py")
            )
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
