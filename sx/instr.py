"""Source-to-source instrumentation of the code under test (and of harnesses) for symbolic execution."""
import ast

_NOCALL = {"super", "locals", "globals", "vars", "eval", "exec"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, *args):
    return ast.Call(func=_name(n), args=list(args), keywords=[])


class Instr(ast.NodeTransformer):
    def __init__(self, modname, yields=False, symbolic=True):
        self.mod = modname
        self.stack = []
        self.yields = yields
        self.symbolic = symbolic
        self.uses_super = False

    # ---------------- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            return node
        return ast.copy_location(ast.Call(func=_name("__sx_call__"), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            f = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_not_in__"
            return ast.copy_location(_call(f, node.left, node.comparators[0]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.symbolic or not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            ix = _call("__sx_slice__", sl.lower or none, sl.upper or none, sl.step or none)
        elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
            return node
        else:
            ix = sl
        return ast.copy_location(_call("__sx_getitem__", node.value, ix), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.symbolic and isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__sx_mod__", node.left, node.right), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_call("__sx_dict__", *parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        return ast.copy_location(_call("__sx_set__", *node.elts), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_call("__sx_Dict__", lc), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("__sx_Set__", lc), node)

    def visit_JoinedStr(self, node):
        if not self.symbolic:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                value = self.visit(v.value)
                conv = ast.Constant(value=None if v.conversion == -1 else chr(v.conversion))
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value=None)
                parts.append(ast.Tuple(elts=[value, conv, spec], ctx=ast.Load()))
        return ast.copy_location(_call("__sx_fstr__", *parts), node)

    # ---------------- statements
    def _function(self, node):
        # decorators, defaults and annotations
        self.stack.append(node.name)
        q = ".".join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if not self.symbolic:
            return node
        body = node.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            i = 1
        ent = ast.copy_location(ast.Expr(_call("__sx_enter__", ast.Constant(value="%s:%s" % (self.mod, q)))), node)
        node.body = body[:i] + [ent] + body[i:]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if not self.symbolic:
            return node
        catches = node.type is None
        if node.type is not None:
            ts = node.type.elts if isinstance(node.type, ast.Tuple) else [node.type]
            catches = any(not isinstance(t, (ast.Name, ast.Attribute)) or
                          (isinstance(t, ast.Name) and t.id == "BaseException") for t in ts)
        if catches:
            g = ast.copy_location(ast.Expr(_call("__sx_guard__")), node)
            node.body = [g] + node.body
        return node

    def _loop(self, node):
        self.generic_visit(node)
        if self.symbolic:
            g = ast.copy_location(ast.Expr(_call("__sx_loop__")), node)
            node.body = [g] + node.body
        return node

    visit_While = _loop
    visit_For = _loop

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.symbolic and isinstance(node.op, ast.Mod):
            pass
        return node


class Yielder(ast.NodeTransformer):
    """Puts a scheduling point before every statement of a function body and splits read-modify-write updates."""

    def __init__(self):
        self.depth = 0
        self.n = 0

    def _function(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        node.body = self._body(node.body, True)
        return node

    visit_FunctionDef = _function

    def visit_Lambda(self, node):
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def generic_visit(self, node):
        super(Yielder, self).generic_visit(node)
        if self.depth:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                        not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                    setattr(node, f, self._body(b))
        return node

    def _body(self, body, top=False):
        out = []
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Import, ast.ImportFrom)):
                out.append(s)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self._is_log(s.value):
                out.append(s)
                continue
            out.append(self._yield(s))
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
                self.n += 1
                tmp = "__sx_t%d__" % self.n
                load = ast.Attribute(value=s.target.value, attr=s.target.attr, ctx=ast.Load())
                out.append(ast.copy_location(ast.Assign(
                    targets=[ast.Name(id=tmp, ctx=ast.Store())],
                    value=ast.BinOp(left=load, op=s.op, right=s.value)), s))
                out.append(self._yield(s))
                out.append(ast.copy_location(ast.Assign(targets=[s.target], value=_name(tmp)), s))
                continue
            out.append(s)
        return out

    def _is_log(self, c):
        f = c.func
        return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "log"

    def _yield(self, s):
        return ast.copy_location(ast.Expr(_call("__sx_yield__", ast.Constant(value=s.lineno))), s)


def transform(source, filename, modname, symbolic=True, yields=False):
    tree = ast.parse(source, filename)
    if yields:
        tree = Yielder().visit(tree)
        ast.fix_missing_locations(tree)
    tree = Instr(modname, symbolic=symbolic).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
