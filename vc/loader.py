"""Mechanical extraction: the repository's own source, executed with the numpy facade.

Every run reads /repo's current files, parses them, and applies exactly one
transformation: each `for` statement is wrapped so that iterating over a range
of symbolic length goes through the loop-contract rule.  Names `np`, `range`,
`len`, ... resolve to the facade.  Nothing else is dropped or replaced.
"""

import ast
import builtins
import importlib.util
import os
import sys
import types

from . import symnp as S
from . import terms as T

REPO = os.environ.get("VERIF_REPO", "/repo")
ALIAS = "ssspy"  # package name inside the verified world


class LoopTransformer(ast.NodeTransformer):
    def __init__(self):
        self.stack = []
        self.n = 0

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_For(self, node):
        node = self.generic_visit(node)
        if not self.stack:
            return node
        self.n += 1
        var = "__vc%d" % self.n
        names = sorted(_stores(node.body) | _stores([node.target]))
        has_break = _has_break(node.body)
        has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in node.body for x in ast.walk(b))
        has_return = any(isinstance(x, ast.Return) for b in node.body for x in _walk_noscope(b))
        head = ast.parse(
            "%s = __vc_loop__(0, %r, %d, %r, %r)" % (var, ".".join(self.stack), self.n, tuple(names), bool(has_break or has_return or node.orelse))
        ).body[0]
        head.value.args[0] = node.iter
        tmpl = ast.parse(
            """
if {v}.concrete:
    for __t in {v}.it:
        pass
else:
    __assigned = {v}.begin(locals())
    if {v}.in_body:
        for __t in {v}.one():
            pass
        {v}.end(locals())
""".format(v=var)
        ).body[0]
        # native loop
        nat = ast.For(target=node.target, iter=tmpl.body[0].iter, body=node.body, orelse=node.orelse, type_comment=None)
        tmpl.body[0] = nat
        els = []
        if names:
            els.append(
                ast.parse("(%s,) = %s.begin(locals())" % (",".join(names), var)).body[0]
            )
        else:
            els.append(ast.parse("%s.begin(locals())" % var).body[0])
        inner = tmpl.orelse[1]
        inner.body[0] = ast.For(
            target=node.target, iter=inner.body[0].iter, body=[_clone(b) for b in node.body], orelse=[], type_comment=None
        )
        els.append(inner)
        tmpl.orelse = els
        out = [head, tmpl]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out


def _clone(n):
    import copy

    return copy.deepcopy(n)


def _walk_noscope(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        yield from _walk_noscope(c)


def _stores(nodes):
    s = set()
    for b in nodes:
        for x in _walk_noscope(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,)) and not x.id.startswith("__vc") and x.id != "__t":
                s.add(x.id)
            if isinstance(x, ast.FunctionDef):
                s.add(x.name)
    return s


def _has_break(body):
    def w(n):
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            # breaks inside belong to the inner loop (except in else)
            return any(w(x) for x in getattr(n, "orelse", []) if isinstance(x, ast.AST))
        return any(w(c) for c in ast.iter_child_nodes(n))

    return any(w(b) for b in body)


# ---------------------------------------------------------------- builtins
def vc_range(*a):
    if any(isinstance(x, S.SInt) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        return SymRange(*a)
    return builtins.range(*[int(x) for x in a])


class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise T.Unsupported("iteration over a symbolic range outside a for statement")


class SymIter:
    """abstract iterable with symbolic length: item(i) for 0 <= i < n"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        raise T.Unsupported("iteration over a symbolic sequence outside a for statement")


def vc_len(x):
    if isinstance(x, S.SymArray):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if hasattr(x, "__vc_len__"):
        return x.__vc_len__()
    return builtins.len(x)


def vc_minmax(which):
    nat = getattr(builtins, which)

    def f(*a, **k):
        xs = a if len(a) > 1 else None
        if xs is not None and not k and any(isinstance(x, S.SInt) for x in xs):
            r = xs[0]
            for y in xs[1:]:
                if which == "max":
                    r = r if r >= y else y
                else:
                    r = r if r <= y else y
            return r
        return nat(*a, **k)

    return f


def vc_float(x=0.0):
    if isinstance(x, (S.SymArray, S.SInt)):
        return S.asarr(x)
    return builtins.float(x)


def vc_int(x=0, *a):
    if isinstance(x, S.SInt):
        return x
    return builtins.int(x, *a)


def vc_enumerate(x, start=0):
    if isinstance(x, S.SymArray):
        n = x.shape[0]
        if isinstance(n, S.SInt):
            return SymIter(n, lambda i: (i + start, x[i]))
    if isinstance(x, SymRange):
        raise T.Unsupported("enumerate of a symbolic range")
    return builtins.enumerate(x, start)


def vc_zip(*xs):
    if any(isinstance(x, S.SymArray) and isinstance(x.shape[0], S.SInt) for x in xs):
        if all(isinstance(x, S.SymArray) for x in xs):
            return SymIter(xs[0].shape[0], lambda i: tuple(x[i] for x in xs))
        raise T.Unsupported("zip over symbolic sequences")
    return builtins.zip(*xs)


def vc_isinstance(x, c):
    if isinstance(x, S.SInt):
        cs = c if builtins.isinstance(c, tuple) else (c,)
        if int in cs:
            return True
    return builtins.isinstance(x, c)


class vc_type_int:
    pass


def vc_sum(x, start=0):
    return builtins.sum(x, start)


def make_builtins():
    b = dict(vars(builtins))
    b.update(
        range=vc_range,
        len=vc_len,
        min=vc_minmax("min"),
        max=vc_minmax("max"),
        enumerate=vc_enumerate,
        zip=vc_zip,
        isinstance=vc_isinstance,
        __import__=vc_import,
        print=lambda *a, **k: None,
    )
    return b


MODS = {}
SOURCES = {}


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if name == "numpy":
            return S.FACADE
        if name == "numpy.linalg":
            return S.FACADE.linalg
        if root == "scipy":
            raise T.Unsupported("scipy")
        if root == ALIAS:
            m = load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, load(name + "." + f))
                        except FileNotFoundError:
                            pass
                return m
            return load(root)
        if root == "tqdm":
            return builtins.__import__(name, globals, locals, fromlist, level)
        return builtins.__import__(name, globals, locals, fromlist, level)
    pkg = globals["__package__"]
    parts = pkg.split(".")
    if level > 1:
        parts = parts[: -(level - 1)]
    base = ".".join(parts)
    full = base + ("." + name if name else "")
    m = load(full)
    for f in fromlist or ():
        if f != "*" and not hasattr(m, f):
            setattr(m, f, load(full + "." + f))
    return m


def path_of(modname):
    rel = modname.split(".")
    p = os.path.join(REPO, *rel)
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py"), True
    return p + ".py", False


_code = {}


def load(modname):
    m = MODS.get(modname)
    if m is not None:
        return m
    path, ispkg = path_of(modname)
    if not os.path.exists(path):
        raise FileNotFoundError(modname)
    par = modname.rpartition(".")[0]
    if par:
        load(par)
        m = MODS.get(modname)
        if m is not None:
            return m
    key = path
    if key not in _code:
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        tree = LoopTransformer().visit(tree)
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, "exec")
        SOURCES[modname] = path
    m = types.ModuleType(modname)
    m.__file__ = path
    m.__package__ = modname if ispkg else modname.rpartition(".")[0]
    if ispkg:
        m.__path__ = [os.path.dirname(path)]
    MODS[modname] = m
    m.__dict__["__builtins__"] = make_builtins()
    m.__dict__["__vc_loop__"] = vc_loop
    exec(_code[key], m.__dict__)
    par, _, leaf = modname.rpartition(".")
    if par:
        setattr(load(par), leaf, m)
    return m


def reset():
    """forget module objects so that stubs and state do not leak between paths"""
    MODS.clear()


# ---------------------------------------------------------------- loop rule
class _Unbound:
    def _f(self, *a, **k):
        raise T.Unsupported("value of a loop-local variable used after the loop / before assignment")

    __getattr__ = __getitem__ = __call__ = __add__ = __radd__ = __mul__ = __iter__ = __len__ = __bool__ = _f


UNBOUND = _Unbound()


class ConcreteLoop:
    concrete = True

    def __init__(self, it):
        self.it = it


def vc_loop(it, fn, k, names, irregular):
    if isinstance(it, S.SymArray) and isinstance(it.shape[0] if it.shape else 1, S.SInt):
        arr = it
        it = SymIter(arr.shape[0], lambda i: arr[i])
    if not isinstance(it, (SymRange, SymIter)):
        return ConcreteLoop(it)
    if isinstance(it, SymRange):
        if not (isinstance(it.step, int) and it.step == 1):
            # element k is lo + k*step
            lo, hi, st = it.lo, it.hi, it.step
            n = (hi - lo + st - 1) // st
            it = SymIter(n, lambda i: lo + i * st)
        else:
            lo = it.lo
            n = it.hi - it.lo
            it = SymIter(n, lambda i: lo + i)
    if isinstance(it.n, int):
        return ConcreteLoop([it.item(i) for i in builtins.range(it.n)])
    if irregular:
        raise T.Unsupported("break/return/else in a loop of symbolic length (%s)" % fn)
    return S.EXPLORER.symbolic_loop(it, fn, names)
