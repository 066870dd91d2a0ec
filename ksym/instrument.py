"""AST instrumentation: routes the operations C code would decide natively
(container lookups, formatting, builtin conversions) through the runtime."""
import ast

SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir",
              "isinstance", "issubclass", "getattr", "setattr", "hasattr",
              "iter", "next", "callable", "property", "classmethod",
              "staticmethod"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


def _awaits(comp):
    return any(isinstance(n, ast.Await) or getattr(n, "is_async", 0)
               for n in ast.walk(comp))


class Instrumenter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.n = 0
        self.functions = []

    # -- functions -----------------------------------------------------------
    def _function(self, node):
        self.stack.append(node.name)
        qual = "%s:%s" % (self.modname, ".".join(self.stack))
        self.functions.append(qual)
        decorators = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = self._block(node.body)
        node.decorator_list = decorators
        start = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            start = 1
        while start < len(body) and isinstance(
                body[start], (ast.Global, ast.Nonlocal)):
            start += 1
        body.insert(start, ast.Expr(_call(
            "ks__enter", ast.Constant(qual))))
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call("ks__tick")))
        return node

    visit_While = visit_For = visit_AsyncFor = _loop

    # -- expressions ---------------------------------------------------------
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        return ast.Call(func=_name("ks__call"),
                        args=[node.func] + node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _call("ks__in", a, b)
            if isinstance(op, ast.NotIn):
                return _call("ks__notin", a, b)
            if isinstance(op, ast.Eq):
                return _call("ks__eq", a, b)
            if isinstance(op, ast.NotEq):
                return _call("ks__ne", a, b)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call("ks__get", node.value, self._index(node.slice))
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return _call("slice", s.lower or none, s.upper or none,
                         s.step or none)
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._index(x) for x in s.elts], ast.Load())
        return s

    BIN = {ast.Mod: "mod", ast.Sub: "sub", ast.BitOr: "or",
           ast.BitAnd: "and", ast.BitXor: "xor"}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        k = self.BIN.get(type(node.op))
        if k is not None:
            return _call("ks__" + k, node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            spec = self.visit(v.format_spec) if v.format_spec else \
                ast.Constant("")
            parts.append(ast.Tuple([
                self.visit(v.value), ast.Constant(
                    chr(v.conversion) if v.conversion > 0 else ""), spec],
                ast.Load()))
        return _call("ks__fstr", *parts)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        if _awaits(node):
            return node
        return _call("ks__mkdict", ast.GeneratorExp(pair, node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if _awaits(node):
            return node
        return _call("ks__mkset", ast.GeneratorExp(node.elt, node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or any(k is None for k in node.keys):
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return _call("ks__mkdict", ast.List(
            [ast.Tuple([k, v], ast.Load())
             for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return _call("ks__mkset", ast.List(node.elts, ast.Load()))

    # -- stores --------------------------------------------------------------
    def _tmp(self):
        self.n += 1
        return "ks__t%d" % self.n

    def _store(self, name, value):
        return ast.Assign([ast.Name(name, ast.Store())], value)

    def visit_Assign(self, node):
        if not any(isinstance(t, ast.Subscript) for t in node.targets):
            self.generic_visit(node)
            return node
        value = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            return ast.Expr(_call(
                "ks__set", self.visit(t.value), self._idx(t.slice), value))
        tmp = self._tmp()
        out = [self._store(tmp, value)]
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call(
                    "ks__set", self.visit(t.value), self._idx(t.slice),
                    _name(tmp))))
            else:
                out.append(ast.Assign([self.visit(t)], _name(tmp)))
        return out

    def _idx(self, s):
        return self._index(self.visit(s))

    def visit_AugAssign(self, node):
        if not isinstance(node.target, ast.Subscript):
            t = node.target
            op = self.BIN.get(type(node.op))
            self.generic_visit(node)
            if op in ("sub", "or", "and", "xor", "mod"):
                load = ast.copy_location(
                    ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name)
                    else ast.Attribute(t.value, t.attr, ast.Load()), t)
                return ast.Assign([t], _call("ks__i" + op, load, node.value))
            return node
        o, i = self._tmp(), self._tmp()
        t = node.target
        cur = _call("ks__get", _name(o), _name(i))
        return [
            self._store(o, self.visit(t.value)),
            self._store(i, self._idx(t.slice)),
            ast.Expr(_call("ks__set", _name(o), _name(i), _call(
                "ks__iop", ast.Constant(type(node.op).__name__), cur,
                self.visit(node.value)))),
        ]

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call(
                    "ks__del", self.visit(t.value), self._idx(t.slice))))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out


def compile_module(source, path, modname):
    tree = ast.parse(source, path)
    ins = Instrumenter(modname)
    tree = ins.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True), ins.functions
