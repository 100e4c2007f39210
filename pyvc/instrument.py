"""Mechanical instrumentation of the real source (no statement is dropped).

Each module of the package under verification is parsed from /repo's current
file, rewritten so that calls, subscripts, membership tests, f-strings and
loops go through the runtime, compiled with the same file name and executed.
Annotations, docstrings, decorators, class bases and control flow stay.
"""
import ast
import copy
import importlib.abc
import importlib.machinery
import os
import sys

REDIRECT = {"queue", "threading", "random"}
SKIP_CALLS = {"super", "locals", "globals", "vars", "exec", "eval", "__import__"}


def N(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def rt(name, *args):
    return ast.Call(
        func=ast.Attribute(value=N("_vc_"), attr=name, ctx=ast.Load()),
        args=list(args),
        keywords=[],
    )


def unpacked(target, value):
    """Unpacking into several targets."""
    if not isinstance(target, (ast.Tuple, ast.List)) or isinstance(value, (ast.Tuple, ast.List)):
        return value
    if any(isinstance(x, ast.Starred) for x in target.elts):
        return value
    return rt("unpack", value, ast.Constant(value=len(target.elts)))


def assigned_names(nodes):
    """Names bound by statements (not entering nested scopes)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            for s in n.body:
                self.visit(s)

    v = V()
    for node in nodes:
        v.visit(node)
    return [n for n in out if not n.startswith("_vc_")]


def local_names(node):
    """Names local to a function: parameters and assigned names."""
    args = node.args
    out = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
    out += [a.arg for a in (args.vararg, args.kwarg) if a is not None]
    out += [n for n in assigned_names(node.body) if n not in out]
    for sub in ast.walk(node):
        if isinstance(sub, (ast.Global, ast.Nonlocal)):
            out = [n for n in out if n not in sub.names]
    return out


def loaded_names(nodes):
    out = []
    for node in nodes:
        for sub in ast.walk(node):
            if isinstance(sub, ast.Name) and sub.id not in out:
                out.append(sub.id)
    return out


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loops = {}
        self.async_depth = 0
        self.local_names = []
        self.around = []

    # scopes
    def _scope(self, node, name):
        self.stack.append(name)
        self.generic_visit_noann(node)
        self.stack.pop()
        return node

    def generic_visit_noann(self, node):
        for field, old in ast.iter_fields(node):
            if field in ("annotation", "returns", "type_params", "type_comment"):
                continue
            if isinstance(old, list):
                new = []
                for val in old:
                    if isinstance(val, ast.AST):
                        val = self.visit(val)
                        if val is None:
                            continue
                        if not isinstance(val, ast.AST):
                            new.extend(val)
                            continue
                    new.append(val)
                old[:] = new
            elif isinstance(old, ast.AST):
                res = self.visit(old)
                if res is None:
                    delattr(node, field)
                else:
                    setattr(node, field, res)
        return node

    def generic_visit(self, node):
        return self.generic_visit_noann(node)

    def visit_FunctionDef(self, node):
        self.local_names.append(local_names(node))
        around, self.around = self.around, []
        res = self._scope(node, node.name)
        self.around = around
        self.local_names.pop()
        return res

    def visit_AsyncFunctionDef(self, node):
        self.async_depth += 1
        res = self.visit_FunctionDef(node)
        self.async_depth -= 1
        return res

    def visit_ClassDef(self, node):
        return self._scope(node, node.name)

    def visit_Lambda(self, node):
        return self._scope(node, "<lambda>")

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
            if isinstance(node.target, ast.Subscript):
                return node
        return node

    # imports of modules with a model
    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in REDIRECT:
            node.module = "pyvc.models_" + node.module
        return node

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name in REDIRECT:
                out.append(
                    ast.copy_location(
                        ast.Import(
                            names=[
                                ast.alias(
                                    name="pyvc.models_" + al.name,
                                    asname=al.asname or al.name,
                                )
                            ]
                        ),
                        node,
                    )
                )
            else:
                out.append(
                    ast.copy_location(ast.Import(names=[al]), node)
                )
        return out

    # expressions
    def claimable(self, node, elt):
        """A comprehension with one plain clause: its parts, for a loop contract.

        (element function, filter or None, unpack the item?, names)"""
        gen = node.generators[0]
        names = None
        if isinstance(gen.target, ast.Name):
            names = [gen.target.id]
        elif isinstance(gen.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in gen.target.elts):
            names = [x.id for x in gen.target.elts]
        if (names is None or len(set(names)) != len(names) or len(node.generators) != 1 or gen.is_async
                or not self.stack or self._in_class()
                or any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(node))):
            return None

        def lam(body):
            return ast.Lambda(args=params(names), body=body)

        test = None
        if gen.ifs:
            test = gen.ifs[0] if len(gen.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(gen.ifs))
        return [self.visit(lam(copy.deepcopy(elt))), self.visit(lam(copy.deepcopy(test))) if test else ast.Constant(value=None),
                ast.Constant(value=isinstance(gen.target, ast.Tuple))]

    def claimed(self, kind, node, parts, gen, plain):
        """node: the visited expression; gen: its clause, now over _vc_it."""
        return ast.copy_location(
            rt("claimed", ast.Constant(value=kind), *parts, gen, ast.Lambda(args=params(["_vc_it"]), body=plain)), node)

    def visit_Call(self, node):
        if (isinstance(node.func, ast.Name) and node.func.id in ("sum", "any", "all") and len(node.args) == 1
                and not node.keywords and isinstance(node.args[0], ast.GeneratorExp)
                and node.func.id not in (self.local_names[-1] if self.local_names else [])):
            gen = node.args[0]
            parts = self.claimable(gen, gen.elt)
            if parts is not None:
                it = self.visit(gen.generators[0].iter)
                gen.generators[0].iter = N("_vc_it")
                return self.claimed(node.func.id, node, parts, it, self.plain_call(node))
        return self.plain_call(node)

    def plain_call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(
                func=ast.Attribute(value=N("_vc_"), attr="call", ctx=ast.Load()),
                args=[node.func] + node.args,
                keywords=node.keywords,
            ),
            node,
        )

    def _slice(self, sl):
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(value=None)
            return ast.Call(
                func=N("slice"), args=[none(sl.lower), none(sl.upper), none(sl.step)],
                keywords=[],
            )
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                rt("getitem", node.value, self._slice(node.slice)), node
            )
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            # handled by wrapping the container: _vc_.sub(container)[key]
            node.value = rt("sub", node.value)
            return node
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys and self.stack and not self._in_class():
            return ast.copy_location(rt("new_dict"), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            res = rt("contains", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                res = ast.UnaryOp(op=ast.Not(), operand=res)
            return ast.copy_location(res, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            res = rt("is_none", node.left)
            if isinstance(node.ops[0], ast.IsNot):
                res = ast.UnaryOp(op=ast.Not(), operand=res)
            return ast.copy_location(res, node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1:
            node.value = unpacked(node.targets[0], node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(rt("mod", node.left, node.right), node)
        if isinstance(node.op, ast.Mult):
            return ast.copy_location(rt("mul", node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(rt("pow", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for val in node.values:
            if isinstance(val, ast.Constant):
                parts.append(val)
            else:
                self.generic_visit(val)
                spec = ast.Constant(value=None)
                if val.format_spec is not None:
                    spec = self.visit_JoinedStr(val.format_spec) if isinstance(
                        val.format_spec, ast.JoinedStr) else val.format_spec
                parts.append(
                    ast.Tuple(
                        elts=[val.value, ast.Constant(value=val.conversion), spec],
                        ctx=ast.Load(),
                    )
                )
        return ast.copy_location(rt("fstr", *parts), node)

    def _comp(self, node):
        self.generic_visit(node)
        for gen in node.generators:
            if not gen.is_async:
                gen.iter = rt("citer", gen.iter)
        return node

    visit_SetComp = visit_GeneratorExp = _comp

    def visit_DictComp(self, node):
        # {k: v for x in it}: on symbolic mappings lazily or under contract
        gen = node.generators[0]
        names = None
        if isinstance(gen.target, ast.Name):
            names = [gen.target.id]
        elif isinstance(gen.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in gen.target.elts):
            names = [x.id for x in gen.target.elts]
        simple = (
            names is not None and len(set(names)) == len(names) and len(node.generators) == 1 and not gen.is_async
            and not gen.ifs and self.stack and not self._in_class()
            and not any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(node))
        )
        if not simple:
            parts = self.claimable(node, ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()))
            if parts is None:
                return self._comp(node)
            it = self.visit(gen.iter)
            gen.iter = N("_vc_it")
            self.generic_visit(node)
            return self.claimed("dict", node, parts, it, node)
        it = self.visit(gen.iter)
        gen.iter = ast.Name(id="_vc_it", ctx=ast.Load())
        self.generic_visit(node)

        fn = ast.Lambda(args=params(names), body=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()))
        plain = ast.Lambda(args=params(["_vc_it"]), body=node)
        star = ast.Constant(value=isinstance(gen.target, ast.Tuple))
        return ast.copy_location(rt("dictcomp", fn, star, it, plain), node)

    def visit_ListComp(self, node):
        # [e for x in it] with a single plain clause keeps its lazy meaning on
        # symbolic collections; everything else iterates
        simple = (
            len(node.generators) == 1
            and not node.generators[0].is_async
            and not any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield))
                        for n in ast.walk(node))
        )
        gen = node.generators[0]
        if not (isinstance(gen.target, ast.Name) and len(gen.ifs) <= 1):
            parts = self.claimable(node, node.elt)
            if parts is not None:
                it = self.visit(gen.iter)
                gen.iter = N("_vc_it")
                self.generic_visit(node)
                return self.claimed("list", node, parts, it, node)
        self.generic_visit(node)
        if simple and isinstance(gen.target, ast.Name) and len(gen.ifs) <= 1:
            def lam(body):
                return ast.Lambda(
                    args=ast.arguments(
                        posonlyargs=[], args=[ast.arg(arg=gen.target.id)], vararg=None,
                        kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[],
                    ),
                    body=body,
                )
            if self.stack and not self._in_class():
                return ast.copy_location(rt("listcomp", lam(node.elt), gen.iter, *[lam(x) for x in gen.ifs]), node)
        for gen in node.generators:
            if not gen.is_async:
                gen.iter = rt("citer", gen.iter)
        return node

    def _in_class(self):
        return bool(self.stack) and self.stack[-1][:1].isupper()

    # loops
    def _key(self):
        qual = self.mod + ":" + ".".join(self.stack)
        n = self.loops.get(qual, 0)
        self.loops[qual] = n + 1
        return qual, n

    def visit_For(self, node):
        qual, n = self._key()
        names = assigned_names([node.target] + node.body)
        used = self.used([node.target] + node.body, names)
        # named before the body is visited: a nested loop has its own
        lv = "_vc_L%d" % sum(self.loops.values())
        self.around.append(None)
        self.generic_visit(node)
        self.around.pop()
        begin = ast.Assign(
            targets=[N(lv, ast.Store())],
            value=rt(
                "for_begin", ast.Constant(value=qual), ast.Constant(value=n),
                node.iter, ast.Call(func=N("locals"), args=[], keywords=[]),
                ast.Constant(value=tuple(names)), ast.Constant(value=tuple(used)),
            ),
        )
        head = self._havocs(lv, names + used)
        fetch = ast.Assign(
            targets=[node.target],
            value=unpacked(node.target, ast.Attribute(value=N(lv), attr="got", ctx=ast.Load())),
        )
        loop = ast.While(
            test=rt("more", N(lv), ast.Call(func=N("locals"), args=[], keywords=[])),
            body=[fetch] + node.body,
            orelse=node.orelse,
        )
        out = [begin] + head + [loop]
        for st in out:
            ast.copy_location(st, node)
        return out

    def used(self, nodes, names):
        """Locals the loop refers to without assigning them."""
        known = self.local_names[-1] if self.local_names else []
        return [n for n in loaded_names(nodes) if n in known and n not in names]

    def _havocs(self, lv, names):
        head = []
        for name in names:
            head.append(
                ast.If(
                    test=ast.Compare(
                        left=ast.Constant(value=name), ops=[ast.In()],
                        comparators=[ast.Attribute(value=N(lv), attr="h", ctx=ast.Load())],
                    ),
                    body=[
                        ast.Assign(
                            targets=[N(name, ast.Store())],
                            value=ast.Subscript(
                                value=ast.Attribute(value=N(lv), attr="h", ctx=ast.Load()),
                                slice=ast.Constant(value=name), ctx=ast.Load(),
                            ),
                        )
                    ],
                    orelse=[],
                )
            )
        return head

    def visit_Break(self, node):
        if not (self.around and self.around[-1]):
            return node
        note = ast.Expr(value=rt("wbreak", N(self.around[-1])))
        return [ast.copy_location(note, node), node]

    def visit_While(self, node):
        qual, n = self._key()
        names = assigned_names(node.body + [ast.Expr(value=node.test)])
        used = self.used(node.body + [node.test], names)
        # named before the body is visited: a nested loop has its own
        lv = "_vc_L%d" % sum(self.loops.values())
        limits = [self.visit(thunk(x)) for x in counted(node.test)]
        self.around.append(lv)
        self.generic_visit(node)
        self.around.pop()
        begin = ast.Assign(
            targets=[N(lv, ast.Store())],
            value=rt(
                "while_begin", ast.Constant(value=qual), ast.Constant(value=n),
                ast.Call(func=N("locals"), args=[], keywords=[]),
                ast.Constant(value=tuple(names)), ast.Constant(value=tuple(used)), *limits,
            ),
        )
        node.test = ast.BoolOp(
            op=ast.And(),
            values=[
                rt("wmore", N(lv), ast.Call(func=N("locals"), args=[], keywords=[])),
                rt("wtest", N(lv), node.test),
            ],
        )
        out = [begin] + self._havocs(lv, names + used) + [node]
        for st in out[:-1]:
            ast.copy_location(st, node)
        return out


def params(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], vararg=None,
                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def thunk(expr):
    return ast.Lambda(args=params([]), body=copy.deepcopy(expr))


def counted(test):
    """The two sides of a test like ``i < len(xs)``, when reading them early
    makes no difference: (counter, bound), or nothing."""
    def plain(x):
        if isinstance(x, (ast.Name, ast.Constant)):
            return True
        if isinstance(x, ast.Attribute):
            return plain(x.value)
        return (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len"
                and len(x.args) == 1 and not x.keywords and plain(x.args[0]))

    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return []
    lo, hi = test.left, test.comparators[0]
    if isinstance(test.ops[0], ast.Gt):
        lo, hi = hi, lo
    elif not isinstance(test.ops[0], (ast.Lt, ast.NotEq)):
        return []
    if not (plain(lo) and plain(hi)):
        return []
    return [lo, hi]


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as handle:
            return transform(handle.read(), path, fullname)

    def exec_module(self, module):
        from . import runtime

        module.__dict__["_vc_"] = runtime
        module.__dict__["__vc_instrumented__"] = True
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package, root):
        self.package = package
        self.root = root

    def find_spec(self, fullname, path, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        parts = fullname.split(".")
        base = os.path.join(self.root, *parts)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.machinery.ModuleSpec(
                fullname, Loader(fullname, init), origin=init, is_package=True
            ) if False else self._spec(fullname, init, True, base)
        if os.path.isfile(base + ".py"):
            return self._spec(fullname, base + ".py", False, None)
        return None

    def _spec(self, fullname, fname, pkg, base):
        from importlib.util import spec_from_file_location

        return spec_from_file_location(
            fullname, fname, loader=Loader(fullname, fname),
            submodule_search_locations=[base] if pkg else None,
        )


def install(package="vtelem", root="/repo"):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(package, root))
