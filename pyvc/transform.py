"""Mechanical source transformation applied to every module of the package before it is executed
symbolically.  It drops nothing: every statement is executed; loops, conditional expressions and
boolean operators are routed through the run-time object pv__ so that symbolic values can be used.
"""
import ast


class LoopNames(ast.NodeVisitor):
    """names bound in a statement list (not descending into nested scopes)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.endswith("__"):
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def P(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="pv__", ctx=ast.Load()), attr=name, ctx=ast.Load()), args=list(args), keywords=[])


def lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.counts = []
        self.infunc = False

    def _func(self, n):
        old = self.infunc
        self.infunc = True
        self.scope.append(n.name)
        self.counts.append([0])
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.block(n.body)
        self.counts.pop()
        self.scope.pop()
        self.infunc = old
        return n

    visit_FunctionDef = _func

    def visit_ClassDef(self, n):
        old = self.infunc
        self.infunc = False
        self.scope.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        self.scope.pop()
        self.infunc = old
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # expressions --------------------------------------------------------------
    def visit_BoolOp(self, n):
        vs = [self.visit(v) for v in n.values]
        return ast.copy_location(P("and_" if isinstance(n.op, ast.And) else "or_", *[lam(v) for v in vs]), n)

    def visit_UnaryOp(self, n):
        n.operand = self.visit(n.operand)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(P("not_", n.operand), n)
        return n

    def visit_IfExp(self, n):
        return ast.copy_location(P("ifexp", self.visit(n.test), lam(self.visit(n.body)), lam(self.visit(n.orelse))), n)

    def visit_BinOp(self, n):
        n.left, n.right = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, ast.Div) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant) \
                and isinstance(n.left.value, int) and isinstance(n.right.value, int):
            return ast.copy_location(P("frac", n.left, n.right), n)
        return n

    # loops ----------------------------------------------------------------------
    def _id(self):
        self.counts[-1][0] += 1
        return ".".join(self.scope), self.counts[-1][0]

    def visit_For(self, n):
        if not self.infunc:
            return self.generic_visit(n)
        q, k = self._id()
        v = LoopNames()
        v.visit(n.target)
        for s in n.body:
            v.visit(s)
        names = v.names
        it = self.visit(n.iter)
        body = self.block(n.body)
        orelse = self.block(n.orelse)
        L = f"L{k}__"
        setup = ast.Assign(targets=[name(L, True)], value=P("loop", ast.Constant(q), ast.Constant(k), it, ast.Constant(tuple(names))))
        hav = self._havoc(L, names)
        w = ast.While(
            test=ast.Call(func=ast.Attribute(value=name(L), attr="next", ctx=ast.Load()), args=[ast.Call(func=name("locals"), args=[], keywords=[])], keywords=[]),
            body=[hav, ast.Assign(targets=[n.target], value=ast.Attribute(value=name(L), attr="item", ctx=ast.Load()))] + body,
            orelse=[self._havoc(L, names)] + orelse)
        done = ast.Expr(ast.Call(func=ast.Attribute(value=name(L), attr="done", ctx=ast.Load()), args=[], keywords=[]))
        r = [setup, w, done]
        for x in r:
            ast.copy_location(x, n)
        return r

    def visit_While(self, n):
        if not self.infunc or n.orelse:
            return self.generic_visit(n)
        q, k = self._id()
        v = LoopNames()
        for s in n.body:
            v.visit(s)
        names = v.names
        test = self.visit(n.test)
        body = self.block(n.body)
        L = f"L{k}__"
        setup = ast.Assign(targets=[name(L, True)], value=P("wloop", ast.Constant(q), ast.Constant(k), ast.Constant(tuple(names))))
        w = ast.While(
            test=ast.Call(func=ast.Attribute(value=name(L), attr="next", ctx=ast.Load()), args=[ast.Call(func=name("locals"), args=[], keywords=[])], keywords=[]),
            body=[self._havoc(L, names), ast.If(test=P("not_", test), body=[ast.Break()], orelse=[])] + body, orelse=[])
        done = ast.Expr(ast.Call(func=ast.Attribute(value=name(L), attr="done", ctx=ast.Load()), args=[], keywords=[]))
        r = [setup, w, done]
        for x in r:
            ast.copy_location(x, n)
        return r

    def _havoc(self, L, names):
        body = [ast.Pass()]
        if names:
            body = [ast.Assign(targets=[ast.Tuple(elts=[name(x, True) for x in names], ctx=ast.Store())],
                               value=ast.Attribute(value=name(L), attr="state", ctx=ast.Load()))]
        return ast.If(test=ast.Attribute(value=name(L), attr="havoc", ctx=ast.Load()), body=body, orelse=[])

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            h.body = self.block(h.body)
        n.orelse = self.block(n.orelse)
        n.finalbody = self.block(n.finalbody)
        return n


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    import __future__
    return compile(tree, filename, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True)
