"""Initial states of the low-rank (ILRMA) and positive semidefinite (IPSDTA) source models, and one whole ILRMA iteration:
parameters above the floor, memberships that sum to one, unit traces (C04, C05); nothing of the caller's written or shared
(C08, C09); source model, spatial model, normalisation in turn (C03, C04, C05)."""

import copy

import numpy as np

from vc.registry import contract
from contracts.c04_ilrma import Setup, same, state

IL, IP = "ssspy.bss.ilrma", "ssspy.bss.ipsdta"
FLOOR = 0.3


class Rng:
    """random generator by its contract: values in [0, 1), every array strictly positive in sum"""

    def __init__(self, c, pos):
        self.c, self.k, self.pos = c, 0, pos
        self.real = None if c.symbolic else np.random.default_rng(5)

    def random(self, shape):
        self.k += 1
        if self.c.symbolic:
            return self.c.fresh_array("rand%d" % self.k, tuple(shape), "f", sign="pos" if self.pos else "nonneg")
        return self.real.random(shape)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise NotImplementedError("random numbers by %s" % name)


def floor_of(c, kind):
    if kind == "none":
        return None
    return c.ufunc("floor", sign="pos") if c.symbolic else (lambda x: np.maximum(x, FLOOR))


def above(c, label, arr, shape, floored):
    """above the floor (symbolically: the floor is an arbitrary positive function, and nothing but its values is known to be positive)"""
    c.shape("shape: " + label, arr, shape)
    if floored:
        c.forall_pos(label, list(shape), lambda *ix: arr[ix] if c.symbolic else arr[ix] - FLOOR * (1 - 1e-12), strict=c.symbolic)
    else:
        c.forall_pos(label + " (nonnegative)", list(shape), lambda *ix: arr[ix])


for model in ("Gauss", "T", "GGD"):
    for part in (False, True):
        for fl in ("floor", "none"):
            for given in (False, True):
                if given and fl == "none":
                    continue

                @contract(
                    "%sILRMA initial state, %s parameters%s, %s" % (model, "given" if given else "default", " partitioned" if part else "", "floored" if fl == "floor" else "no floor"),
                    "C04 C08 C09",
                    "bss.ilrma.%sILRMA._reset bss.ilrma.ILRMABase._reset bss.ilrma.ILRMABase._init_nmf" % model,
                    samples=4,
                )
                def reset(c, model=model, part=part, fl=fl, given=given):
                    md = c.load(IL)
                    N, I, J, K = c.dim("N", 2), c.dim("I"), c.dim("J", 2), c.dim("K")
                    X = c.array("X", (N, I, J), "c")
                    g = floor_of(c, fl)
                    args = dict(partitioning=part, flooring_fn=g, record_loss=False, scale_restoration=False, rng=Rng(c, fl == "none"))
                    if model == "T":
                        args["dof"] = c.scalar("nu", sign="pos")
                    if model == "GGD":
                        args["beta"] = 1
                    m = {"Gauss": md.GaussILRMA, "T": md.TILRMA, "GGD": md.GGDILRMA}[model](K, **args)
                    shapes = dict(basis=(I, K) if part else (N, I, K), activation=(K, J) if part else (N, K, J))
                    if part:
                        shapes["latent"] = (N, K)
                    kw = {}
                    if given:
                        kw = {k: c.array("init_" + k, sh, "f", sign="pos") for k, sh in shapes.items()}
                        kw["demix_filter"] = c.array("init_W", (I, N, N), "c")
                    m.input = X.copy()
                    m._reset(**kw)
                    for k, sh in shapes.items():
                        v = getattr(m, k)
                        if given:
                            c.forall("given %s is the initial one" % k, list(sh), lambda *ix: (v[ix], kw[k][ix]))
                        else:
                            above(c, "initial %s above the floor" % k, v, sh, fl == "floor")
                    if part and not given and fl == "none":
                        c.forall("initial memberships sum to one over sources", [K], lambda k: (c.sum(N, lambda n: m.latent[n, k]), 1))
                    W = kw["demix_filter"] if given else None
                    c.forall("initial filter: the given one, or the identity", [I, N, N], lambda i, n, a: (m.demix_filter[i, n, a], W[i, n, a] if given else c.delta(n, a)))
                    Y = m.output
                    c.forall("initial estimate: filter applied to the mixture", [N, I, J], lambda n, i, j: (Y[n, i, j], c.sum(N, lambda a: m.demix_filter[i, n, a] * X[a, i, j])))
                    for k, v in kw.items():
                        c.not_shared("given %s not shared" % k, getattr(m, k), v)
                        c.unchanged("given %s not modified" % k, v)
                    c.unchanged("mixture not modified", X)


# ---------------------------------------------------------------- IPSDTA
for cls in ("GaussIPSDTA", "TIPSDTA"):
    for rem in (False, True):
        for norm in (True, False):
            for given in (False, True):
                if given and norm:
                    continue

                @contract(
                    "%s initial state, %s parameters, %s, source_normalization=%s" % (cls, "given" if given else "default", "unequal blocks" if rem else "equal blocks", norm),
                    "C04 C08 C09" + (" C05" if norm else ""),
                    "bss.ipsdta.%s._reset bss.ipsdta.BlockDecompositionIPSDTABase._reset bss.ipsdta.BlockDecompositionIPSDTABase._init_block_decomposition_psdtf" % cls,
                    samples=4,
                )
                def reset_psd(c, cls=cls, rem=rem, norm=norm, given=given):
                    md = c.load(IP)
                    N, J, K, P = c.dim("N", 2, nhi=2), c.dim("J", 2), c.dim("K", nhi=2), c.dim("P", nhi=3)
                    if rem:
                        bl, r = c.dim("Bl", nhi=2), c.dim("r", nhi=2)
                        B, I = bl + r, (bl + r) * P + r
                        parts = [(bl, P), (r, P + 1)]
                    else:
                        B = c.dim("B", nhi=3)
                        I = B * P
                        parts = [(B, P)]
                    X = c.array("X", (N, I, J), "c")
                    g = floor_of(c, "floor")
                    args = dict(flooring_fn=g, record_loss=False, scale_restoration=False, source_normalization=norm, rng=Rng(c, norm))
                    if cls == "TIPSDTA":
                        args["dof"] = c.scalar("nu", sign="pos")
                    m = getattr(md, cls)(K, B, **args)
                    m.input = X.copy()
                    kw = {}
                    if given:
                        Ts = [c.array("T%d" % k, (N, K, b, p, p), "c", pd=True) for k, (b, p) in enumerate(parts)]
                        kw = dict(basis=tuple(Ts) if rem else Ts[0], activation=c.array("V", (N, K, J), "f", sign="pos"), demix_filter=c.array("init_W", (I, N, N), "c"))
                    m._reset(**kw)
                    got = list(m.basis) if rem else [m.basis]
                    c.ensure("one basis per block size", len(got) == len(parts))
                    for k, (b, p) in enumerate(parts):
                        T = got[k]
                        sh = (N, K, b, p, p)
                        c.shape("shape of basis %d" % k, T, sh)
                        if given:
                            c.forall("given basis %d is the initial one" % k, list(sh), lambda *ix: (T[ix], Ts[k][ix]))
                            c.not_shared("given basis %d not shared" % k, T, Ts[k])
                            c.unchanged("given basis %d not modified" % k, Ts[k])
                        else:
                            c.forall("initial basis %d is diagonal" % k, list(sh), lambda n, q, z, x, y: (T[n, q, z, x, y] * (1 - c.delta(x, y)), 0))
                            c.forall("initial basis %d is real on the diagonal" % k, [N, K, b, p], lambda n, q, z, x: (c.conj(T[n, q, z, x, x]), T[n, q, z, x, x]))
                            c.forall_pos("initial basis %d is nonnegative" % k, [N, K, b, p], lambda n, q, z, x: c.re(T[n, q, z, x, x]))
                    V = m.activation
                    c.shape("shape of activation", V, (N, K, J))
                    if given:
                        c.forall("given activation is the initial one", [N, K, J], lambda *ix: (V[ix], kw["activation"][ix]))
                        for nm in ("activation", "demix_filter"):
                            c.not_shared("given %s not shared" % nm, getattr(m, nm), kw[nm])
                            c.unchanged("given %s not modified" % nm, kw[nm])
                    elif norm:
                        c.forall_pos("initial activation is nonnegative", [N, K, J], lambda *ix: V[ix])
                        c.forall("initial bases have unit trace", [N, K], lambda n, q: (sum(c.sum(b, lambda z: c.sum(p, lambda x: c.re(got[k][n, q, z, x, x]))) for k, (b, p) in enumerate(parts)), 1))
                    else:
                        above(c, "initial activation above the floor", V, (N, K, J), True)
                    c.forall("initial filter: the given one, or the identity", [I, N, N], lambda i, n, a: (m.demix_filter[i, n, a], kw["demix_filter"][i, n, a] if given else c.delta(n, a)))
                    Y = m.output
                    c.forall("initial estimate: filter applied to the mixture", [N, I, J], lambda n, i, j: (Y[n, i, j], c.sum(N, lambda a: m.demix_filter[i, n, a] * X[a, i, j])))
                    c.unchanged("mixture not modified", X)


# ---------------------------------------------------------------- one iteration of ILRMA
for model in ("Gauss", "T", "GGD"):
    for part in (False, True):
        for alg in ("IP1", "ISS1"):
            for nz in (False, "power", "projection_back"):
                if nz == "projection_back" and part:
                    continue

                @contract(
                    "%sILRMA update_once%s%s, normalization=%s" % (model, " partitioned" if part else "", "" if alg == "IP1" else " signal mode", nz),
                    "C03 C04 C05",
                    "bss.ilrma.%sILRMA.update_once" % model,
                    samples=4,
                )
                def once(c, model=model, part=part, alg=alg, nz=nz):
                    """source model at the current filter, spatial model with the new source model, then the normalisation of the result"""
                    g = None if nz == "power" else c.ufunc("floor", sign="pos")
                    s = Setup(c, model, part, "2", alg=alg, opaque=False, floor=g, normalization=nz, beta="1", reference_id=c.index("ref", c.dim("N", 2)))
                    m, N, I, J = s.m, s.N, s.I, s.J
                    names = ["basis", "activation"] + (["latent"] if part else [])
                    sig = "output" if s.iss else "demix_filter"
                    if c.symbolic:
                        log = []
                        old = {k: getattr(m, k) for k in names + [sig]}
                        new = {k: c.fresh_array("new_" + k, tuple(old[k].shape), "f", sign="pos") for k in names}
                        new[sig] = c.fresh_array("new_" + sig, tuple(old[sig].shape), "c")

                        def stub(what, keys):
                            def f(flooring_fn="self"):
                                log.append((what, {k: getattr(m, k) for k in old}, flooring_fn))
                                for k in keys:
                                    setattr(m, k, new[k])

                            c.stub(m, what, f)

                        stub("update_source_model", names)
                        stub("update_spatial_model", [sig])
                        m.update_once()
                        if sorted(w for w, _, _ in log) != ["update_source_model", "update_spatial_model"]:
                            raise NotImplementedError
                        c.ensure("source model before spatial model", [w for w, _, _ in log] == ["update_source_model", "update_spatial_model"])
                        c.ensure("source model updated at the current state", all(log[0][1][k] is old[k] for k in old))
                        c.ensure("spatial model updated with the new source model", all(log[1][1][k] is new[k] for k in names) and log[1][1][sig] is old[sig])
                        c.ensure("method's floor", all(f == "self" or f is m.flooring_fn for _, _, f in log))
                        want = new
                    else:
                        c.require(s.K >= 2 or not part)
                        q = copy.deepcopy(m)
                        q.update_source_model()
                        q.update_spatial_model()
                        want = {k: getattr(q, k) for k in names + [sig]}
                        m.update_once()
                    if not nz:
                        for k in names + [sig]:
                            v = getattr(m, k)
                            c.forall("one iteration: %s" % k, list(want[k].shape), lambda *ix: (v[ix], want[k][ix]))
                        return
                    R0 = s.lam(want["basis"], want["activation"], want.get("latent"))
                    T, V, Z = state(s)
                    R1 = s.lam(T, V, Z)
                    if s.iss:
                        y0, y1 = (lambda *ix: want[sig][ix]), (lambda *ix: m.output[ix])
                    else:
                        ap = lambda W: (lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * s.X[a, i, j]))
                        y0, y1 = ap(want[sig]), ap(m.demix_filter)
                    c.forall("normalised: signal power relative to the model variance as after the spatial update", [N, I, J], lambda n, i, j: (c.abs2(y1(n, i, j)) * R0(n, i, j), c.abs2(y0(n, i, j)) * R1(n, i, j)))
                    if nz == "power":
                        c.forall("normalised: unit power", [N], lambda n: (c.sum(I, lambda i: c.sum(J, lambda j: c.abs2(y1(n, i, j)))) / (I * J), 1))
                    elif not s.iss:
                        c.forall("normalised: sources add up to the reference channel", [I, J], lambda i, j: (c.sum(N, lambda n: y1(n, i, j)), s.X[m.reference_id, i, j]))
