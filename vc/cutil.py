"""helpers shared by contract files"""

import inspect

import numpy as np

from .terms import Unsupported


class Rec:
    """callee replaced by its contract: records the arguments (by parameter name) and returns result(args)"""

    def __init__(self, c, module, name, result):
        self.calls = []
        self.name = name
        real = getattr(module, name)
        sig = inspect.signature(real)

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append(dict(b.arguments))
            return result(dict(b.arguments))

        c.stub(module, name, stub)

    def only(self):
        if len(self.calls) != 1:
            raise Unsupported("callee %s was called %d times (expected: once)" % (self.name, len(self.calls)))
        return self.calls[0]


def is_identity(f):
    """flooring function that leaves its argument alone"""
    return f is None or getattr(f, "__name__", "") == "identity"


class OpaqueFn:
    """arbitrary array function (any result of the given shape): symbolically the arguments are recorded and an
    arbitrary array is returned; on the real code the given numeric function is used"""

    def __init__(self, c, name, numeric, kind="c", shape=None, sign=None):
        self.c, self.numeric, self.args, self.vals, self.name = c, numeric, [], [], name
        self.kind, self.shape, self.sign = kind, shape, sign

    def __call__(self, a, **k):
        if not self.c.symbolic:
            return self.numeric(a)
        self.args.append(a)
        sh = a.shape if self.shape is None else self.shape(a)
        nm = self.name + ("" if not self.vals else str(len(self.vals)))
        v = self.c.fresh_array(nm, tuple(sh), self.kind, sign=self.sign)
        self.vals.append(v)
        return v

    def only(self):
        if len(self.args) != 1:
            raise Unsupported("%s was called %d times (expected: once)" % (self.name, len(self.args)))
        return self.args[0], self.vals[0]
