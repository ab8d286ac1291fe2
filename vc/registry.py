"""registry of contracts (deductive) and bounded stand-ins"""


class Contract:
    frame = None  # set of array names the routine may write, for frame-only variants
    explicit = False  # variant: the floor is handed to the update explicitly, the method's own floor is another one

    def __init__(self, fn, name, props, under, samples, timeout, dims):
        self.fn, self.name, self.props, self.under = fn, name, tuple(props), tuple(under)
        self.samples, self.timeout, self.dims = samples, timeout, dims


CONTRACTS = []
BOUNDED = []


class OwnState:
    """frame-only variants: an array the contract itself installs as an attribute of a method object is that
    object's state, not a caller's array; one the library installs (from an argument) stays the caller's"""

    def watch(self, base):
        import sys

        cls = base.IterativeMethodBase
        if "__setattr__" in vars(cls):
            return

        def put(obj, name, value):
            if any(d in sys._getframe(1).f_code.co_filename for d in ("/contracts/", "/vc/")):
                self.own_state(value)
            object.__setattr__(obj, name, value)

        self.stub(cls, "__setattr__", put)


class ExplicitFloor:
    """variants of a contract in which every update is called with flooring_fn=<the contract's floor> while the method
    object's own floor is a different function: the postconditions must hold for the floor that was handed in"""

    def watch(self, base):
        import functools
        import inspect
        import sys

        cls = base.IterativeMethodBase
        if "__getattribute__" in vars(cls):
            return
        other = self.ufunc("the method's own floor", sign="pos") if self.symbolic else lambda x: abs(x) + 0.3

        def get(obj, name):
            v = object.__getattribute__(obj, name)
            if not (name.startswith(("update_", "normalize", "_reset", "solve_permutation")) and inspect.ismethod(v)):
                return v
            if "/contracts/" not in sys._getframe(1).f_code.co_filename or "flooring_fn" not in inspect.signature(v).parameters:
                return v

            @functools.wraps(v)
            def call(*a, **k):
                if a or "flooring_fn" in k:
                    return v(*a, **k)
                own = object.__getattribute__(obj, "flooring_fn")
                obj.flooring_fn = other
                try:
                    return v(flooring_fn=own, **k)
                finally:
                    obj.flooring_fn = own

            return call

        self.stub(cls, "__getattribute__", get)


def explicit_variant(con, props, samples=2):
    f = Contract(con.fn, "explicit floor: " + con.name, props, con.under, samples, con.timeout, con.dims)
    f.explicit = True
    CONTRACTS.append(f)


def frame_variant(con, prop, may_write=(), samples=2):
    """the frame condition of another contract, on its own: same preconditions and same calls, but the only
    obligations are that no array handed in is written (arrays named in may_write excepted)"""
    f = Contract(con.fn, "frame of: " + con.name, (prop,), con.under, samples, con.timeout, con.dims)
    f.frame = frozenset(may_write)
    CONTRACTS.append(f)


def contract(name, props, under=(), samples=6, timeout=120, dims=None):
    """name: unique; props: property ids this contract's obligations decide; under: functions under contract"""

    def deco(fn):
        CONTRACTS.append(Contract(fn, name, props.split() if isinstance(props, str) else props, under.split() if isinstance(under, str) else under, samples, timeout, dims))
        return fn

    return deco


class Bounded:
    def __init__(self, fn, name, props, bound, reason):
        self.fn, self.name, self.props, self.bound, self.reason = fn, name, tuple(props), bound, reason


def bounded(name, props, bound, reason):
    """fn(b) with b: vc.numeric.BoundedCx; reports violations via b.check/b.close; bound: stated bound"""

    def deco(fn):
        BOUNDED.append(Bounded(fn, name, props.split() if isinstance(props, str) else props, bound, reason))
        return fn

    return deco


SUPPORT = []
LEAN = []


def support(prop, regex):
    """contracts of other properties whose obligations are hypotheses of this property's argument (symbolic part only, never an alarm by themselves)"""
    SUPPORT.append((prop, regex))


def lean(prop, file, theorems):
    """theorems of lean/<file> re-checked by the Lean kernel"""
    LEAN.append((prop, file, tuple(theorems.split())))
