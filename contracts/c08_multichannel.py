"""Drivers of the multichannel methods (GaussMNMF, FastGaussMNMF, CACGMM): initial state, arguments of the iteration, what is
returned, resumption (C08), nothing of the caller's written or shared (C09).

Symbolically the iteration is replaced by its contract (it leaves some parameters behind), `separate` by an arbitrary
function of the mixture and the current parameters (its own contracts: C16, C17)."""

import numpy as np

from vc.registry import contract
from contracts.c04_init import Rng as FloorRng, above, floor_of

MN, CA, BASE = "ssspy.bss.mnmf", "ssspy.bss.cacgmm", "ssspy.bss.base"


class Rng:
    """random generator by its contract: arbitrary positive values"""

    def __init__(self, c):
        self.c, self.k = c, 0

    def random(self, shape):
        self.k += 1
        return self.c.fresh_array("rand%d" % self.k, tuple(shape), "f", sign="pos")


class Case:
    def __init__(self, name, mod, cls, part=False, kw=None):
        self.name, self.mod, self.cls, self.part, self.kw = name, mod, cls, part, kw or {}

    def params(self, c, d):
        """name -> (shape, kind, options)"""
        N, I, J, K, M = d["N"], d["I"], d["J"], d["K"], d["M"]
        if self.cls == "CACGMM":
            return dict(mixing=((N, I), "f", dict(sign="pos")), covariance=((N, I, M, M), "c", dict(pd=True)))
        p = dict(basis=((I, K) if self.part else (N, I, K), "f", dict(sign="pos")), activation=((K, J) if self.part else (N, K, J), "f", dict(sign="pos")))
        if self.part:
            p["latent"] = ((N, K), "f", dict(sign="pos"))
        if self.cls == "GaussMNMF":
            p["spatial"] = ((N, I, M, M), "c", dict(pd=True))
        else:
            p["diagonalizer"] = ((I, M, M), "c", dict(invertible=True))
            p["spatial"] = ((I, N, M), "f", dict(sign="pos"))
        return p

    def dims(self, c):
        return dict(M=c.dim("M", 2, nhi=3), N=c.dim("N", 2, nhi=3), I=c.dim("I"), J=c.dim("J", 2, nlo=8), K=c.dim("K"))

    def make(self, c, d, **kw):
        md = c.load(self.mod)
        args = [] if self.cls == "CACGMM" else [d["K"]]
        k = dict(n_sources=d["N"], rng=Rng(c) if c.symbolic else np.random.default_rng(2))
        k.update(self.kw)
        if self.part:
            k["partitioning"] = True
        k.update(kw)
        return getattr(md, self.cls)(*args, **k)


CASES = [
    Case("GaussMNMF", MN, "GaussMNMF"),
    Case("GaussMNMF partitioned", MN, "GaussMNMF", True),
    Case("FastGaussMNMF", MN, "FastGaussMNMF"),
    Case("CACGMM", CA, "CACGMM", kw=dict(permutation_alignment=False)),
]


def opaque_separate(c, m, d, log):
    """symbolic: `separate` returns some array; the arguments and the parameters it sees are recorded"""

    def sep(input, posterior=None):
        Y = c.fresh_array("separated%d" % len(log), (d["N"], d["I"], d["J"]), "c")
        log.append((input.copy(), {k: getattr(m, k).copy() for k in m.__dict__ if k in NAMES}, Y))
        return Y

    c.stub(m, "separate", sep)


NAMES = ("basis", "activation", "latent", "spatial", "diagonalizer", "mixing", "covariance")


def equal(c, label, u, v):
    c.shape("shape: " + label, u, v.shape)
    c.forall(label, list(v.shape), lambda *ix: (u[ix], v[ix]))


for cs in CASES:
    for given in (False, True):

        @contract("%s initial state, %s parameters" % (cs.name, "given" if given else "default"), "C08 C09 C16" if cs.mod == MN else "C08 C09", "bss.%s.%s._reset" % (cs.mod.split(".")[-1], cs.cls), samples=4)
        def reset(c, cs=cs, given=given):
            d = cs.dims(c)
            N, I, J, K, M = (d[k] for k in "NIJKM")
            X = c.array("X", (M, I, J), "c")
            strict = cs.mod == MN
            floor = floor_of(c, "floor") if strict else c.ufunc("floor", sign="pos")
            m = cs.make(c, d, flooring_fn=floor, record_loss=False, **(dict(rng=FloorRng(c, False)) if strict else {}))
            P = cs.params(c, d)
            kw = {}
            if given:
                kw = {k: c.array("init_" + k, sh, kd, **o) for k, (sh, kd, o) in P.items()}
            if c.symbolic:
                opaque_separate(c, m, d, [])
            m.input = X.copy()
            m._reset(**kw)
            for k, (sh, kd, o) in P.items():
                v = getattr(m, k)
                c.shape("shape of %s" % k, v, sh)
                if given:
                    c.forall("given %s is the initial one" % k, list(sh), lambda *ix: (v[ix], kw[k][ix]))
                    c.not_shared("given %s not shared" % k, v, kw[k])
                    c.unchanged("given %s not modified" % k, kw[k])
                elif k in ("basis", "activation", "latent", "mixing") or (k == "spatial" and cs.cls == "FastGaussMNMF"):
                    if strict:
                        above(c, "initial %s above the floor" % k, v, sh, True)
                    else:
                        c.forall_pos("initial %s is nonnegative" % k, list(sh), lambda *ix: v[ix])
                elif k == "diagonalizer":
                    c.forall("initial diagonalizer is the identity", list(sh), lambda i, a, b: (v[i, a, b], c.delta(a, b)))
                elif k == "spatial":
                    c.forall("initial spatial covariance: identity of unit trace", list(sh), lambda n, i, a, b: (v[n, i, a, b], c.delta(a, b) / M))
            c.ensure_int("number of sources", m.n_sources == N)
            c.ensure_int("number of channels", m.n_channels == M)
            c.ensure_int("number of bins", m.n_bins == I)
            c.ensure_int("number of frames", m.n_frames == J)
            c.unchanged("mixture not modified", X)
            c.not_shared("mixture not shared", m.input, X)

    @contract("%s driver" % cs.name, "C08 C09 C16" if cs.mod == MN else "C08 C09 C17", "bss.%s.%s.__call__" % (cs.mod.split(".")[-1], cs.cls), samples=4)
    def driver(c, cs=cs):
        """the iteration runs once with the caller's count and flag; the returned array is the separation of the caller's mixture
        with the parameters the iteration left"""
        d = cs.dims(c)
        N, I, J, K, M = (d[k] for k in "NIJKM")
        X = c.array("X", (M, I, J), "c")
        ref = c.index("ref", M)
        P = cs.params(c, d)
        state = {k: c.array("init_" + k, sh, kd, **o) for k, (sh, kd, o) in P.items()}
        log = []
        m = cs.make(c, d, reference_id=ref, record_loss=False, callbacks=None if c.symbolic else (lambda o: log.append(1)))
        if c.symbolic:
            base = c.load(BASE).IterativeMethodBase
            calls, seps, left = [], [], {}
            opaque_separate(c, m, d, seps)
            if cs.cls == "CACGMM":
                post = []
                G = c.array("gamma", (N, I, J), "f", sign="pos")

                def posterior(**k):
                    post.append({k2: getattr(m, k2) for k2 in P})
                    m.posterior = G.copy()

                c.stub(m, "update_posterior", posterior)

            def iterate(self, *a, n_iter=100, initial_call=True, **k):
                calls.append((a, n_iter, initial_call, k))
                c.forall("iteration starts with the caller's mixture", list(X.shape), lambda *ix: (self.input[ix], X[ix]))
                for nm, (sh, kd, o) in P.items():
                    v = getattr(self, nm)
                    c.forall("iteration starts from the caller's %s" % nm, list(sh), lambda *ix: (v[ix], state[nm][ix]))
                    left[nm] = c.array("left_" + nm, sh, kd, **o)
                    setattr(self, nm, left[nm].copy())

            c.stub(base, "__call__", iterate)
            n_iter = c.dim("n_iter", 0)
            Y = m(X, n_iter=n_iter, initial_call=False, **state)
            if len(calls) != 1 or calls[0][0] or calls[0][3] or not seps:
                raise NotImplementedError
            c.ensure_int("number of iterations is the caller's", calls[0][1] == n_iter)
            c.ensure("initial evaluation as requested", calls[0][2] is False)
            inp, par, res = seps[-1]
            c.forall("the caller's mixture is separated", list(X.shape), lambda *ix: (inp[ix], X[ix]))
            for nm in P:
                c.forall("separation uses the final %s" % nm, list(left[nm].shape), lambda *ix: (par[nm][ix], left[nm][ix]))
            c.forall("returned array is the separation", [N, I, J], lambda *ix: (Y[ix], res[ix]))
        else:
            n_iter = int(c.rng.integers(0, 3))
            ini = bool(c.rng.integers(0, 2))
            Y = m(X, n_iter=n_iter, initial_call=ini, **state)
            c.ensure("callbacks: one per iteration plus the initial one when requested", len(log) == n_iter + ini)
            Y2 = m.separate(X) if cs.cls != "CACGMM" else m.separate(X, posterior=m.posterior)
            c.forall("returned array is the separation with the final parameters", [N, I, J], lambda *ix: (Y[ix], Y2[ix]))
        c.shape("one signal per source", Y, (N, I, J))
        c.forall("returned array is the stored estimate", [N, I, J], lambda *ix: (Y[ix], m.output[ix]))
        c.unchanged("caller's mixture not modified", X)
        c.not_shared("caller's mixture not shared", m.input, X)
        c.not_shared("caller's mixture not shared with the output", m.output, X)
        for k, v in state.items():
            c.unchanged("caller's %s not modified" % k, v)
            c.not_shared("caller's %s not shared" % k, getattr(m, k), v)

    for norm in (False, True):

        @contract("%s resumption, normalization=%s" % (cs.name, norm), "C08", "bss.%s.%s.__call__ bss.%s.%s._reset" % ((cs.mod.split(".")[-1], cs.cls) * 2), samples=4)
        def resume(c, cs=cs, norm=norm):
            """a second call goes on from the parameters and the history the first one left"""
            d = cs.dims(c)
            N, I, J, K, M = (d[k] for k in "NIJKM")
            X = c.array("X", (M, I, J), "c")
            P = cs.params(c, d)
            if c.symbolic:
                m = cs.make(c, d, record_loss=True, normalization=norm)
                base = c.load(BASE).IterativeMethodBase
                opaque_separate(c, m, d, [])
                if cs.cls == "CACGMM":
                    c.stub(m, "update_posterior", lambda **k: setattr(m, "posterior", c.fresh_array("g", (N, I, J), "f", sign="pos")))
                calls, left = [], {}

                def iterate(self, *a, n_iter=100, initial_call=True, **k):
                    calls.append((n_iter, initial_call))
                    if len(calls) == 1:
                        for nm, (sh, kd, o) in P.items():
                            left[nm] = c.array("left_" + nm, sh, kd, **o)
                            setattr(self, nm, left[nm].copy())
                        self.loss.append(0.5)
                    else:
                        for nm in P:
                            v = getattr(self, nm)
                            c.shape("shape of %s" % nm, v, left[nm].shape)
                            c.forall("the second run starts from the %s the first one left" % nm, list(v.shape), lambda *ix: (v[ix], left[nm][ix]))
                        c.ensure("history is kept", self.loss == [0.5])

                c.stub(base, "__call__", iterate)
                m(X, n_iter=c.dim("n1", 0))
                m(X, n_iter=c.dim("n2", 0), initial_call=False)
                c.ensure("two iteration runs", len(calls) == 2)
                c.ensure("history is kept at the end", m.loss == [0.5])
                return
            n1, n2 = int(c.rng.integers(0, 3)), int(c.rng.integers(0, 3))
            c.require(n1 + n2 > 0 and J >= 8)
            seen = []

            def cb(o):
                l = o.compute_loss()
                seen.append(("a", len(o.loss), abs(l - o.loss[-1]) <= 1e-9 * (1 + abs(l))))

            cb2 = lambda o: seen.append(("b", len(o.loss), True))
            m, q = cs.make(c, d, normalization=norm), cs.make(c, d, normalization=norm, callbacks=[cb, cb2])
            m(X, n_iter=n1 + n2)
            q(X, n_iter=n1)
            c.ensure("one history entry per iteration plus the initial one", len(m.loss) == 1 + n1 + n2)
            c.ensure("callbacks in order, each seeing the state its loss was computed from", seen == [(n, k, True) for k in range(1, 2 + n1) for n in "ab"], repr(seen))
            q(X, n_iter=n2, initial_call=False)
            c.forall("resumed run records the same losses", [1 + n1 + n2], lambda k: (q.loss[k], m.loss[k]))
            for nm in P:
                u, v = getattr(m, nm), getattr(q, nm)
                c.forall("resumed run ends with the same %s" % nm, list(u.shape), lambda *ix: (u[ix], v[ix]))
            c.forall("resumed run returns the same signals", [N, I, J], lambda *ix: (m.output[ix], q.output[ix]))
