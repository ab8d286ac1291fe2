"""C03, C04, C16, C17: an update called directly, with no floor named, uses the method object's own floor."""
import copy
import inspect

import numpy as np

from vc.registry import bounded

from contracts.c01_driver import CASES, ICA

MN, CA = "ssspy.bss.mnmf", "ssspy.bss.cacgmm"


def floor(x):
    return np.abs(x) + 0.3


def methods(m):
    for name in sorted(dir(type(m))):
        if not name.startswith(("update_", "normalize")):
            continue
        f = inspect.getattr_static(type(m), name)
        if inspect.isfunction(f) and "flooring_fn" in inspect.signature(f).parameters and inspect.signature(f).parameters["flooring_fn"].default == "self":
            yield name


def arrays(m):
    return {k: v for k, v in vars(m).items() if isinstance(v, np.ndarray)}


def run(fn):
    try:
        fn()
        return None
    except (NotImplementedError, AssertionError, ValueError, AttributeError, TypeError, KeyError, np.linalg.LinAlgError) as e:
        return type(e).__name__


def compare(b, tag, m):
    for name in methods(m):
        with b.case("%s %s" % (tag, name)):
            p, q = copy.deepcopy(m), copy.deepcopy(m)
            r = run(lambda: getattr(p, name)())
            s = run(lambda: getattr(q, name)(flooring_fn=floor))
            b.check("%s %s: both calls end alike" % (tag, name), r == s, "%s / %s" % (r, s))
            if r is None and s is None:
                P, Q = arrays(p), arrays(q)
                b.check("%s %s: same state variables" % (tag, name), set(P) == set(Q))
                for k in P:
                    b.close("%s %s: %s" % (tag, name, k), P[k], Q[k], 1e-9)


class Draw:
    """array source for the state builders of the driver contracts"""

    def __init__(self, rng):
        self.rng = rng
        self.symbolic = False

    def dim(self, name, *a, **k):
        return 2

    def array(self, name, shape, kind="c", sign=None, pd=False, **k):
        x = self.rng.uniform(0.2, 2, shape)
        if pd:
            A = self.rng.standard_normal(shape) + 1j * self.rng.standard_normal(shape)
            return A @ A.swapaxes(-1, -2).conj() + np.eye(shape[-1])
        return x


@bounded(
    "updates called directly with the object's own floor",
    "C03 C04 C05 C16 C17",
    "every class with a floor, every update_*/normalize* method taking one; 2 sources, 3 bins, 20 frames, one random state",
    "the contracts of the updates are proved for a floor handed in and through the callers' default; this compares the defaulted and the explicit direct call",
)
def direct(b):
    rng = b.rng
    N, I, J = 2, 3, 20
    X = rng.standard_normal((N, I, J)) + 1j * rng.standard_normal((N, I, J))
    W = np.eye(N) + 0.3 * (rng.standard_normal((I, N, N)) + 1j * rng.standard_normal((I, N, N)))
    for mod, cls, kwf, mode, tag, scale, extra in CASES:
        if mod == ICA:
            continue
        md = b.load(mod)
        C = getattr(md, cls)
        if "flooring_fn" not in inspect.signature(C.__init__).parameters:
            continue
        state, args = {}, []
        d = Draw(rng)
        kw = dict(kwf(d), record_loss=False, flooring_fn=floor, scale_restoration=False)
        if "normalization" in kw:
            kw["normalization"] = "power"
        if extra is not None:
            K, state = extra(d, N, I, J)
            args = K if isinstance(K, list) else [K]
        if "rng" in inspect.signature(C.__init__).parameters:
            kw["rng"] = np.random.default_rng(1)
        m = C(*args, **kw)
        m.input = X.copy()
        m._reset(demix_filter=W.copy(), **state)
        compare(b, "%s %s" % (cls, tag), m)
    mn, ca = b.load(MN), b.load(CA)
    for part in (False, True):
        m = mn.GaussMNMF(2, partitioning=part, n_sources=2, flooring_fn=floor, rng=np.random.default_rng(2))
        m.input = X.copy()
        m._reset()
        m.update_once()
        compare(b, "GaussMNMF partitioning=%s" % part, m)
    for alg in ("IP1", "IP2"):
        m = mn.FastGaussMNMF(2, diagonalizer_algorithm=alg, flooring_fn=floor, rng=np.random.default_rng(2))
        m.input = X.copy()
        m._reset()
        compare(b, "FastGaussMNMF %s" % alg, m)
    m = ca.CACGMM(n_sources=2, flooring_fn=floor, rng=np.random.default_rng(2))
    m.input = X.copy()
    m._reset()
    m.update_posterior()
    compare(b, "CACGMM", m)
