"""Loads the real glass sources: mechanical AST transformation of loops, comprehensions and star calls; stub imports."""
from __future__ import annotations

import ast
import builtins
import os
import sys
import types

import z3

from . import core, seq, vals
from .core import Unsupported

REPO = os.environ.get("GLASS_REPO", "/repo")

MUTATORS = {"append", "extend", "pop", "popleft", "appendleft", "insert", "remove", "clear", "update", "add", "add_window",
            "add_plane", "sort", "reverse"}


class ModNames(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith("_pvL"):
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_NamedExpr(self, n):
        self.add(n.target.id)
        self.generic_visit(n)

    def _base(self, t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return t

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            b = self._base(n)
            if isinstance(b, ast.Name):
                self.add(b.id)
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store):
            b = self._base(n)
            if isinstance(b, ast.Name):
                self.add(b.id)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
            self.add(n.func.value.id)
        self.generic_visit(n)

    def visit_Lambda(self, n):
        pass

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = lambda self, n: self._comp(n)

    def _comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)


def modnames(stmts, extra=()):
    v = ModNames()
    for s in extra:
        v.visit(s)
    for s in stmts:
        v.visit(s)
    return v.names


def name(n, c=None):
    return ast.Name(id=n, ctx=c or ast.Load())


def call(f, *args):
    return ast.Call(func=name(f), args=list(args), keywords=[])


def meth(o, m, *args):
    return ast.Call(func=ast.Attribute(value=name(o), attr=m, ctx=ast.Load()), args=list(args), keywords=[])


LOCALS = lambda: ast.Call(func=name("locals"), args=[], keywords=[])


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.counters = [{}]
        self.uid = 0

    def key(self, kind):
        c = self.counters[-1]
        c[kind] = c.get(kind, 0) + 1
        return f"{self.mod}.{'.'.join(self.stack)}:{kind}{c[kind]}"

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.counters.append({})
        # decorators and defaults belong outside, but they contain nothing we transform
        node.body = self._stmts(node.body)
        self.counters.pop()
        self.stack.pop()
        node.returns = None
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self._stmts(node.body)
        self.stack.pop()
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _assign_mods(self, mods, value):
        if not mods:
            return []
        return [ast.Assign(targets=[ast.Tuple(elts=[name(m, ast.Store()) for m in mods], ctx=ast.Store())], value=value)]

    def visit_For(self, node):
        key = self.key("for")
        it = self.visit(node.iter)
        # the body is transformed twice so that both copies are independent, with the same loop keys
        import copy
        saved = copy.deepcopy(self.counters)
        body2 = self._stmts(copy.deepcopy(node.body))
        else2 = self._stmts(copy.deepcopy(node.orelse))
        self.counters = saved
        body = self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        self.uid += 1
        L = f"_pvL{self.uid}"
        mods = modnames(node.body, [node.target])
        tnames = set(modnames([], [node.target]))
        carried = [m for m in mods if m not in tnames]
        target2 = copy.deepcopy(node.target)
        conc = ast.For(target=node.target, iter=ast.Attribute(value=name(L), attr="it", ctx=ast.Load()), body=body, orelse=orelse)
        sym = [ast.Expr(meth(L, "enter", LOCALS()))]
        sym += self._assign_mods(carried, ast.Attribute(value=name(L), attr="havoced", ctx=ast.Load()))
        wbody = self._unpack_assign(target2, meth(L, "item")) + body2
        welse = self._assign_mods(carried, meth(L, "exit", LOCALS())) or [ast.Expr(meth(L, "exit", LOCALS()))]
        sym.append(ast.While(test=meth(L, "more", LOCALS()), body=wbody, orelse=welse + else2))
        out = [
            ast.Assign(targets=[name(L, ast.Store())],
                       value=call("__pv_for__", ast.Constant(key), it, ast.Tuple([ast.Constant(m) for m in carried], ast.Load()))),
            ast.If(test=ast.Attribute(value=name(L), attr="concrete", ctx=ast.Load()), body=[conc], orelse=sym),
        ]
        return [ast.copy_location(ast.fix_missing_locations(o), node) for o in out]

    def _unpack_assign(self, target, value):
        if isinstance(target, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in target.elts):
            value = ast.Call(func=name("__pv_unpackn__"), args=[value, ast.Constant(len(target.elts))], keywords=[])
        return [ast.Assign(targets=[target], value=value)]

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Tuple) and not isinstance(node.value, ast.Tuple):
            t = node.targets[0]
            if not any(isinstance(e, ast.Starred) for e in t.elts):
                node.value = ast.copy_location(
                    ast.Call(func=name("__pv_unpackn__"), args=[node.value, ast.Constant(len(t.elts))], keywords=[]), node)
                ast.fix_missing_locations(node)
            elif sum(isinstance(e, ast.Starred) for e in t.elts) == 1:
                q = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                n = len(t.elts)
                t.elts[q] = t.elts[q].value
                node.value = ast.copy_location(
                    ast.Call(func=name("__pv_unstar__"), args=[node.value, ast.Constant(q), ast.Constant(n - q - 1)], keywords=[]), node)
                ast.fix_missing_locations(node)
        return node

    def visit_While(self, node):
        key = self.key("while")
        test = self.visit(node.test)
        mods = modnames(node.body, [node.test])
        body = self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        self.uid += 1
        L = f"_pvL{self.uid}"
        out = [ast.Assign(targets=[name(L, ast.Store())],
                          value=call("__pv_while__", ast.Constant(key), ast.Tuple([ast.Constant(m) for m in mods], ast.Load()))),
               ast.Expr(meth(L, "enter", LOCALS()))]
        am = self._assign_mods(mods, ast.Attribute(value=name(L), attr="havoced", ctx=ast.Load()))
        if am:
            out.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Attribute(value=name(L), attr="auto", ctx=ast.Load())),
                              body=am, orelse=[]))
        out.append(ast.While(test=ast.BoolOp(op=ast.And(), values=[meth(L, "more", LOCALS()), test]), body=body, orelse=orelse))
        return [ast.copy_location(ast.fix_missing_locations(o), node) for o in out]

    def _comp(self, node, kind, elt):
        gens = node.generators

        def build(gi):
            if gi == len(gens):
                return self.visit(elt)
            g = gens[gi]
            inner = build(gi + 1)
            if gi + 1 < len(gens):
                inner = call("__pv_nest__", self.visit(gens[gi + 1].iter), inner)
            for cond in reversed(g.ifs):
                inner = ast.IfExp(test=self.visit(cond), body=inner, orelse=name("__pv_skip__"))
            names, pat = self.pattern(g.target)
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[],
                                                defaults=[]), body=inner)
            x = f"_pvx{gi}"
            body = ast.Call(func=lam, args=[ast.Starred(call("__pv_unpack__", pat, name(x)), ast.Load())], keywords=[])
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body)

        r = call("__pv_comp__", ast.Constant(kind), self.visit(gens[0].iter), build(0))
        return ast.fix_missing_locations(ast.copy_location(r, node))

    def pattern(self, t):
        if isinstance(t, ast.Name):
            return [t.id], ast.Constant(None)
        if isinstance(t, (ast.Tuple, ast.List)):
            names, pats = [], []
            for e in t.elts:
                n, p = self.pattern(e)
                names += n
                pats.append(p)
            # duplicate names (e.g. _) get unique parameters
            seen = set()
            out = []
            for n in names:
                while n in seen:
                    n = n + "_"
                seen.add(n)
                out.append(n)
            return out, ast.Tuple(pats, ast.Load())
        raise Unsupported("comprehension target")

    def visit_ListComp(self, node):
        return self._comp(node, "list", node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, "set", node.elt)

    def visit_DictComp(self, node):
        return self._comp(node, "dict", ast.Tuple([node.key, node.value], ast.Load()))

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "__pv_comp__":
            return node
        if any(isinstance(a, ast.Starred) for a in node.args) and not (
                isinstance(node.func, ast.Lambda)):
            items = []
            for a in node.args:
                if isinstance(a, ast.Starred):
                    items.append(ast.Tuple([ast.Constant("*"), a.value], ast.Load()))
                else:
                    items.append(ast.Tuple([ast.Constant(""), a], ast.Load()))
            r = ast.Call(func=name("__pv_star__"), args=[node.func, ast.Tuple(items, ast.Load())], keywords=node.keywords)
            return ast.fix_missing_locations(ast.copy_location(r, node))
        return node

    def visit_AnnAssign(self, node):
        node = self.generic_visit(node)
        if node.value is None and self.stack and isinstance(node.target, ast.Name) and self.counters and len(self.counters) > 1:
            return None
        return node


class Loader:
    def __init__(self, stubs, builtin_overrides):
        self.stubs = stubs
        self.mods = {}
        self.over = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(builtin_overrides)
        self.builtins["__import__"] = self.imp
        self.builtins.update(
            __pv_for__=lambda key, it, mods: seq.Loop(key, it, mods),
            __pv_while__=lambda key, mods: seq.Loop(key, None, mods, "while"),
            __pv_comp__=seq.comp, __pv_nest__=seq.Nest, __pv_skip__=seq.SKIP, __pv_unpack__=seq.unpack,
            __pv_unpackn__=self.unpackn, __pv_unstar__=self.unstar, __pv_star__=self.star)

    @staticmethod
    def unpackn(x, n):
        if isinstance(x, (seq.SSeq, seq.SArr)):
            return seq.unpack_iter(x, n)
        return x

    @staticmethod
    def unstar(x, before, after):
        """The values of `a, *b, c = x` as a tuple, for any length of x."""
        if hasattr(x, "seq") and not isinstance(x, (seq.SSeq, seq.SArr)):
            x = x.seq()
        if not seq.is_symbolic_iter(x):
            xs = list(x)
            if len(xs) < before + after:
                raise ValueError("not enough values to unpack")
            return (*xs[:before], xs[before:len(xs) - after], *xs[len(xs) - after:])
        s = seq.to_seq(x)
        n = seq.z3i(s.n)
        if core.ctx().decide(n < before + after):
            raise ValueError("not enough values to unpack")
        mid = seq.SSeq(vals.Sc("i", z3.simplify(n - before - after)), lambda k: s.getter(z3.simplify(k + before)))
        return (*[s.getter(z3.IntVal(i)) for i in range(before)], mid,
                *[s.getter(z3.simplify(n - after + i)) for i in range(after)])

    @staticmethod
    def star(f, items, **kw):
        args = []
        for tag, v in items:
            if tag == "*":
                if seq.is_symbolic_iter(v):
                    args.append(seq.StarSeq(v))
                else:
                    args.extend(v)
            else:
                args.append(v)
        if any(isinstance(a, seq.StarSeq) for a in args) and not getattr(f, "pv_star", False):
            raise Unsupported(f"call with a symbolic number of arguments: {getattr(f, '__name__', f)}")
        return f(*args, **kw)

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported("relative import")
        top = nm.split(".")[0]
        if nm in self.stubs or top in self.stubs:
            leaf = self._stub(nm)
            return leaf if fromlist else self._stub(top)
        if top == "glass":
            leaf = self.load(nm)
            if fromlist:
                for f in fromlist:
                    if not hasattr(leaf, f):
                        try:
                            self.load(nm + "." + f)
                        except (ImportError, FileNotFoundError):
                            pass
                return leaf
            return self.load("glass")
        return builtins.__import__(nm, globals, locals, fromlist, level)

    def _stub(self, nm):
        if nm in self.stubs:
            return self.stubs[nm]
        parts = nm.split(".")
        o = self.stubs[parts[0]]
        for p in parts[1:]:
            o = getattr(o, p)
        return o

    def load(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        m = GlassModule(nm) if nm == "glass" else types.ModuleType(nm)
        m.__dict__["__builtins__"] = self.builtins
        self.mods[nm] = m
        sys.modules[nm] = m
        if nm == "glass":
            m.__dict__["_loader"] = self
            m.__path__ = []
            return m
        base = os.path.join(REPO, *nm.split("."))
        path = base + ".py"
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
            m.__path__ = [base]
        if not os.path.exists(path):
            del self.mods[nm]
            raise ImportError(nm)
        parent, _, leaf = nm.rpartition(".")
        setattr(self.load(parent), leaf, m)
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = Transform(nm).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        m.__file__ = path
        exec(code, m.__dict__)
        return m


class GlassModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        ld = self.__dict__["_loader"]
        try:
            return ld.load("glass." + n)
        except ImportError:
            raise AttributeError(n) from None
