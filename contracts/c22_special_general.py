"""Specialised methods against the general method they specialise (C22): both objects are executed from the same
arbitrary state for one iteration and every part of the next state is compared."""

import inspect

import numpy as np

from vc.registry import contract

ICA, FD, IV, IL, MN = "ssspy.bss.ica", "ssspy.bss.fdica", "ssspy.bss.iva", "ssspy.bss.ilrma", "ssspy.bss.mnmf"
SPATIAL = ("update_by_ip1", "update_by_ip2", "update_by_iss1", "update_by_iss2", "update_by_ipa")


def is_array(v):
    return isinstance(v, np.ndarray) or hasattr(v, "st")


class Congruent:
    """spatial updates by congruence: called with equal arguments by both objects, they return the same arbitrary array"""

    def __init__(self, c, md):
        self.c, self.log, self.cur, self.res = c, [[], []], 0, []
        if not c.symbolic:
            return
        for nm in SPATIAL:
            if hasattr(md, nm):
                self.install(md, nm)

    def install(self, md, nm):
        c = self.c
        sig = inspect.signature(getattr(md, nm))

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            d = {x: (v.copy() if is_array(v) else v) for x, v in b.arguments.items()}
            me = self.log[self.cur]
            me.append((nm, d))
            i = len(me) - 1
            if self.cur == 0:
                main = d.get("demix_filter", d.get("separated"))
                self.res.append(c.fresh_array("spatial%d" % i, main.shape, "c"))
            if i >= len(self.res):
                raise NotImplementedError
            return self.res[i].copy()

        c.stub(md, nm, stub)

    def second(self):
        self.cur = 1

    def compare(self, skip=()):
        c = self.c
        if not c.symbolic:
            return
        a, b = self.log
        if [x for x, _ in a] != [x for x, _ in b]:
            raise NotImplementedError("different spatial updates: %r %r" % ([x for x, _ in a], [x for x, _ in b]))
        for i, ((nm, p), (_, q)) in enumerate(zip(a, b)):
            for k in p:
                u, v = p[k], q[k]
                if is_array(u) or is_array(v):
                    same(c, "%s: %s" % (nm, k), u, v)
                elif k not in skip:
                    c.ensure("%s: %s" % (nm, k), u is v or u == v, "%r %r" % (u, v))


def same(c, label, u, v):
    if u is None or v is None:
        c.ensure(label, u is None and v is None)
        return
    sh = []
    for i, (a, b) in enumerate(zip(u.shape, v.shape)):
        sh.append(b if isinstance(a, int) and a == 1 else a)
    one = lambda w, ix: tuple(0 if isinstance(d, int) and d == 1 else i for d, i in zip(w.shape, ix))
    c.forall(label, sh, lambda *ix: (u[one(u, ix)], v[one(v, ix)]))


def state(c, A, B, names, tag="next state"):
    for nm in names:
        same(c, tag + ": %s" % nm, getattr(A, nm), getattr(B, nm))


# ------------------------------------------------------------------ contrasts and scores as documented
def funcs(c, fam, src, floor, var):
    np_ = c.np
    fl = floor if floor is not None else (lambda x: x)
    if fam == "ICA":
        return np_.abs, np_.sign
    if fam == "FDICA":
        return (lambda y: 2 * np_.abs(y)), (lambda y: y / fl(np_.abs(y)))
    if src == "Laplace":
        return (lambda y: 2 * np_.linalg.norm(y, axis=1)), (lambda y: y / fl(np_.linalg.norm(y, axis=1, keepdims=True)))
    n = var["I"]
    return (lambda y: n * np_.log(var["v"]) + np_.linalg.norm(y, axis=1) ** 2 / var["v"]), (lambda y: y / var["v"][:, None, :])


def d_funcs(c, fam, src, var):
    if src == "Laplace":
        return lambda y: 2 * c.np.ones_like(y)
    return lambda y: 2 * y / var["v"]


def given(c, fam):
    N, J = c.dim("N", 2), c.dim("J", 2, nlo=8)
    I = None if fam == "ICA" else c.dim("I")
    kd = "f" if fam == "ICA" else "c"
    X = c.array("X", (N, J) if I is None else (N, I, J), kd)
    W = c.array("W", (N, N) if I is None else (I, N, N), kd, invertible=True)
    return N, I, J, X, W


def mean_power(c, N, I, J, y):
    return c.fresh_from((N, J), lambda n, j: c.sum(I, lambda i: c.abs2(y[n, i, j])) / I, "f")


for fam, mod, src in (("ICA", ICA, "Laplace"), ("FDICA", FD, "Laplace"), ("IVA", IV, "Laplace"), ("IVA", IV, "Gauss")):
    for pre in ("Grad", "NaturalGrad"):
        for hol in (True, False):
            short = mod.split(".")[-1]
            S, G = pre + src + fam, pre + fam

            @contract("%s equals %s with its functions, holonomic=%s" % (S, G, hol), "C22", "bss.%s.%s bss.%s.%s" % (short, S, short, G), samples=6)
            def grad(c, fam=fam, mod=mod, src=src, hol=hol, S=S, G=G):
                md = c.load(mod)
                N, I, J, X, W = given(c, fam)
                eta = c.scalar("eta")
                floor = None if fam == "ICA" else c.ufunc("floor", sign="pos")
                var = {"I": I}
                kw = dict(step_size=eta, is_holonomic=hol, record_loss=False)
                if fam != "ICA":
                    kw.update(flooring_fn=floor, scale_restoration=False)
                if fam == "FDICA":
                    kw["permutation_alignment"] = False
                g, s = funcs(c, fam, src, floor, var)
                A = getattr(md, S)(**kw)
                B = getattr(md, G)(contrast_fn=g, score_fn=s, **kw)
                for m in (A, B):
                    m.input = X.copy()
                    m._reset(demix_filter=W)
                if src == "Gauss":
                    # the general method is given the functions of the variance that the special one re-estimates first
                    var["v"] = mean_power(c, N, I, J, B.separate(X, demix_filter=W))
                la0, lb0 = (A.compute_loss(), B.compute_loss()) if src != "Gauss" else (0, 0)
                A.update_once()
                B.update_once()
                state(c, A, B, ("demix_filter", "output"))
                c.forall("same loss before", [1], lambda _: (la0, lb0))
                if not c.symbolic:
                    la, lb = A.compute_loss(), B.compute_loss()
                    c.forall("same loss after (runs)", [1], lambda _: (la, lb))


for fam, src, S, G, mod, algs in (
    ("FDICA", "Laplace", "AuxLaplaceFDICA", "AuxFDICA", FD, ("IP", "IP1", "IP2")),
    ("IVA", "Laplace", "AuxLaplaceIVA", "AuxIVA", IV, ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA")),
    ("IVA", "Gauss", "AuxGaussIVA", "AuxIVA", IV, ("IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA")),
):
    for alg in algs:
        short = mod.split(".")[-1]

        def setup(c, fam, src, mod, alg, W, X, N, I, J, floor, var, cls, general):
            md = c.load(mod)
            sel = c.load("ssspy.utils.select_pair").combination_pair_selector
            kw = dict(spatial_algorithm=alg, flooring_fn=floor, record_loss=False, scale_restoration=False)
            if fam == "FDICA":
                kw["permutation_alignment"] = False
            if alg in ("ISS2", "IP2"):
                kw["pair_selector"] = sel
            if alg == "IPA":
                kw.update(newton_iter=3, lqpqm_normalization=False)
            if general:
                kw.update(contrast_fn=funcs(c, fam, src, floor, var)[0], d_contrast_fn=d_funcs(c, fam, src, var))
            m = getattr(md, cls)(**kw)
            m.input = X.copy()
            m._reset(demix_filter=W.copy())
            return m

        @contract("%s equals %s with its functions, %s" % (S, G, alg), "C22", "bss.%s.%s bss.%s.%s" % (short, S, short, G), samples=6)
        def aux(c, fam=fam, src=src, S=S, G=G, mod=mod, alg=alg, setup=setup):
            if c.symbolic and alg == "IP2" and src == "Gauss":
                return  # the general method has no per-pair variance; see the numeric branch
            if c.symbolic and alg == "IP2":
                return  # pairwise updates: the contracts "update_once IP2" (C03) state both classes' step
            floor = c.ufunc("floor", sign="pos")
            N, I, J, X, W = given(c, fam)
            if not c.symbolic:
                c.require(J >= 2 * N)
            var = {"I": I}
            cg = Congruent(c, c.load(mod))
            A = setup(c, fam, src, mod, alg, W, X, N, I, J, floor, var, S, False)
            B = setup(c, fam, src, mod, alg, W, X, N, I, J, floor, var, G, True)
            if src == "Gauss":
                Y0 = A.output if A.demix_filter is None else A.separate(X, demix_filter=A.demix_filter)
                var["v"] = mean_power(c, N, I, J, Y0)
                if alg == "IP2":
                    # the general class takes no per-pair variance: one pair at a time
                    pair = tuple(int(k) for k in c.rng.permutation(int(N))[:2])
                    A.pair_selector = B.pair_selector = lambda n: [pair]
                    v = var["v"]
                    B.d_contrast_fn = lambda y: 2 * y / v[list(pair)]
            A.update_once()
            cg.second()
            B.update_once()
            cg.compare()
            if alg in ("IP2", "ISS2", "IPA"):
                c.tol = 1e-5
            state(c, A, B, ("demix_filter", "output"))


# ------------------------------------------------------------------ algorithm aliases
def alias_iva(cls, mod, fam):
    def make(c, alg, d):
        md = c.load(mod)
        kw = dict(spatial_algorithm=alg, flooring_fn=d["floor"], record_loss=False, scale_restoration=False)
        if fam == "FDICA":
            kw["permutation_alignment"] = False
        m = getattr(md, cls)(**kw)
        m.input = d["X"].copy()
        m._reset(demix_filter=d["W"].copy())
        if not c.symbolic and m.demix_filter is None and hasattr(m, "variance"):
            pass
        return m

    return make


def alias_ilrma(cls):
    def make(c, alg, d):
        md = c.load(IL)
        kw = dict(spatial_algorithm=alg, flooring_fn=d["floor"], record_loss=False, scale_restoration=False, normalization=False)
        if cls == "TILRMA":
            kw["dof"] = d["nu"]
        if cls == "GGDILRMA":
            kw["beta"] = 1
        m = getattr(md, cls)(d["K"], **kw)
        m.input = d["X"].copy()
        m._reset(flooring_fn=m.flooring_fn, demix_filter=d["W"].copy(), basis=d["T"].copy(), activation=d["V"].copy())
        return m

    return make


ALIAS = [("AuxLaplaceFDICA", FD, alias_iva("AuxLaplaceFDICA", FD, "FDICA"), ("IP",))]
for cls in ("AuxLaplaceIVA", "AuxGaussIVA"):
    ALIAS.append((cls, IV, alias_iva(cls, IV, "IVA"), ("IP", "ISS")))
for cls in ("GaussILRMA", "TILRMA", "GGDILRMA"):
    ALIAS.append((cls, IL, alias_ilrma(cls), ("IP", "ISS")))

for cls, mod, make, names in ALIAS:
    for nm in names:

        @contract("%s: %s is %s1" % (cls, nm, nm), "C22", "bss.%s.%s.update_once" % (mod.split(".")[-1], cls), samples=5)
        def alias(c, cls=cls, mod=mod, make=make, nm=nm):
            floor = c.ufunc("floor", sign="pos")
            N, I, J, X, W = given(c, "IVA")
            d = dict(floor=floor, X=X, W=W)
            if "ILRMA" in cls:
                d["K"] = K = c.dim("K")
                d["T"], d["V"] = c.array("T", (N, I, K), "f", sign="pos"), c.array("V", (N, K, J), "f", sign="pos")
                d["nu"] = c.scalar("nu", sign="pos")
            cg = Congruent(c, c.load(mod))
            A, B = make(c, nm, d), make(c, nm + "1", d)
            tag = "next state"
            if c.symbolic and "ILRMA" in cls:
                # the source model's rules do not depend on the spatial algorithm: the same arbitrary model for both
                tag = "next state after the spatial step"
                for m in (A, B):
                    c.stub(m, "update_source_model", lambda *a, **k: None)
            A.update_once()
            cg.second()
            B.update_once()
            cg.compare()
            state(c, A, B, ("demix_filter", "output") + (("basis", "activation") if "ILRMA" in cls else ()) + (("variance",) if "Gauss" in cls and "IVA" in cls else ()), tag)


@contract("FastGaussMNMF: IP is IP1", "C22", "bss.mnmf.FastGaussMNMF.update_diagonalizer", samples=5)
def alias_mnmf(c):
    md = c.load(MN)
    M, I, J, K, N = c.dim("M", 2), c.dim("I"), c.dim("J", 2, nlo=12), c.dim("K"), c.dim("N", 2)
    X, Q = c.array("X", (M, I, J), "c"), c.array("Q", (I, M, M), "c", invertible=True)
    D, T, V = c.array("D", (I, N, M), "f", sign="pos"), c.array("T", (N, I, K), "f", sign="pos"), c.array("V", (N, K, J), "f", sign="pos")
    floor = c.ufunc("floor", sign="pos")
    cg = Congruent(c, md)
    ms = []
    for alg in ("IP", "IP1"):
        m = md.FastGaussMNMF(K, n_sources=N, diagonalizer_algorithm=alg, flooring_fn=floor, normalization=False, record_loss=False)
        m.input = X.copy()
        m.n_sources, m.n_channels, m.n_bins, m.n_frames = N, M, I, J
        m.basis, m.activation, m.spatial, m.diagonalizer = T.copy(), V.copy(), D.copy(), Q.copy()
        tag = "next state"
        if c.symbolic:
            tag = "next state after the diagonalizer step"
            for nm in ("update_basis", "update_activation", "update_spatial"):
                c.stub(m, nm, lambda *a, **k: None)
        m.update_once()
        cg.second()
        ms.append(m)
    cg.compare()
    state(c, *ms, ("basis", "activation", "spatial", "diagonalizer"), tag)


# ------------------------------------------------------------------ generalized Gaussian at shape two
def lowrank(c, cls, part, alg, p, nz=False):
    md = c.load(IL)
    N, I, J, X, W = given(c, "IVA")
    K = c.dim("K")
    if part:
        st = dict(basis=c.array("T", (I, K), "f", sign="pos"), activation=c.array("V", (K, J), "f", sign="pos"), latent=c.array("Z", (N, K), "f", sign="pos"))
    else:
        st = dict(basis=c.array("T", (N, I, K), "f", sign="pos"), activation=c.array("V", (N, K, J), "f", sign="pos"))
    return md, N, I, J, K, X, W, st


def build(md, cls, K, X, W, st, **kw):
    m = getattr(md, cls)(K, flooring_fn=None, record_loss=False, scale_restoration=False, **kw)
    m.input = X.copy()
    m._reset(flooring_fn=m.flooring_fn, demix_filter=W.copy(), **{k: v.copy() for k, v in st.items()})
    return m


for part in (False, True):
    for alg in ("IP1", "ISS1"):
        for pname in ("2", "any"):

            @contract(
                "GGDILRMA at shape two equals GaussILRMA, %s, domain %s%s" % (alg, pname, " partitioned" if part else ""),
                "C22",
                "bss.ilrma.GGDILRMA bss.ilrma.GaussILRMA",
                samples=5,
            )
            def ggd(c, part=part, alg=alg, pname=pname):
                """(the constructor takes shapes below two; the rules are compared at two)"""
                md, N, I, J, K, X, W, st = lowrank(c, None, part, alg, pname)
                p = 2 if pname == "2" else c.scalar("p", sign="pos", hi=2)
                if not c.symbolic:
                    c.require(J >= 2 * N)
                cg = Congruent(c, md)
                ms = [build(md, cls, K, X, W, st, spatial_algorithm=alg, domain=p, partitioning=part, normalization=False, **kw) for cls, kw in (("GGDILRMA", dict(beta=1)), ("GaussILRMA", {}))]
                ms[0].beta = 2
                names = ("basis", "activation", "demix_filter", "output") + (("latent",) if part else ())
                steps = (["update_latent_mm"] if part else []) + ["update_basis_mm", "update_activation_mm"]
                if alg == "IP1":
                    l0, l1 = ms[0].compute_loss(), ms[1].compute_loss()
                    c.forall("same loss", [1], lambda _: (l0, l1))
                for k, nm in enumerate(steps):
                    for m in ms:
                        getattr(m, nm)()
                    state(c, ms[0], ms[1], names, nm + (" (each step from the same state)" if c.symbolic else " (in sequence)"))
                    # go on from the common state
                    if c.symbolic:
                        for at, v in (("basis", st["basis"]), ("activation", st["activation"]), ("latent", st.get("latent"))):
                            for m in ms:
                                if v is not None:
                                    setattr(m, at, v)
                ms[0].update_spatial_model()
                cg.second()
                ms[1].update_spatial_model()
                cg.compare()
                state(c, ms[0], ms[1], names, "spatial step" + (" (each step from the same state)" if c.symbolic else " (in sequence)"))


# ------------------------------------------------------------------ one-hot memberships
for model in ("GaussILRMA", "TILRMA", "GGDILRMA"):
    for alg in ("IP1", "ISS1"):

        @contract("%s: one-hot memberships equal separate bases, %s" % (model, alg), "C22", "bss.ilrma.%s" % model, samples=6)
        def onehot(c, model=model, alg=alg):
            """one basis per source symbolically; any number of bases per source on the real code"""
            md = c.load(IL)
            N, I, J, X, W = given(c, "IVA")
            K = 1 if c.symbolic else c.dim("K")
            if not c.symbolic:
                c.require(J >= 2 * N)
            T, V = c.array("T", (N, I, K), "f", sign="pos"), c.array("V", (N, K, J), "f", sign="pos")
            if c.symbolic:
                Ts = c.fresh_from((I, N), lambda i, k: T[k, i, 0], "f")
                Vs = c.fresh_from((N, J), lambda k, j: V[k, 0, j], "f")
                Z = c.fresh_from((N, N), lambda n, k: c.delta(n, k), "f")
                NK = N
            else:
                Ts = T.transpose(1, 0, 2).reshape(I, N * K)
                Vs = V.reshape(N * K, J)
                Z = np.repeat(np.eye(N), K, axis=1)
                NK = N * K
            kw = dict(TILRMA=dict(dof=c.scalar("nu", sign="pos")), GGDILRMA=dict(beta=1)).get(model, {})
            cg = Congruent(c, md)
            A = build(md, model, K, X, W, dict(basis=T, activation=V), spatial_algorithm=alg, normalization=False, **kw)
            B = build(md, model, NK, X, W, dict(basis=Ts, activation=Vs, latent=Z), spatial_algorithm=alg, normalization=False, partitioning=True, **kw)

            def cmp(tag):
                if c.symbolic:
                    c.forall(tag + ": memberships stay one-hot", [N, N], lambda n, k: (B.latent[n, k], c.delta(n, k)))
                    c.forall(tag + ": bases", [N, I], lambda n, i: (B.basis[i, n], A.basis[n, i, 0]))
                    c.forall(tag + ": activations", [N, J], lambda n, j: (B.activation[n, j], A.activation[n, 0, j]))
                else:
                    c.forall(tag + ": memberships stay one-hot (any K)", [N, NK], lambda n, k: (B.latent[n, k], Z[n, k]))
                    bb, aa = B.basis.reshape(I, N, K), B.activation.reshape(N, K, J)
                    c.forall(tag + ": bases (any K)", [N, I, K], lambda n, i, k: (bb[i, n, k], A.basis[n, i, k]))
                    c.forall(tag + ": activations (any K)", [N, K, J], lambda n, k, j: (aa[n, k, j], A.activation[n, k, j]))

            if alg == "IP1":
                la, lb = A.compute_loss(), B.compute_loss()
                c.forall("same loss" + ("" if c.symbolic else " (any K)"), [1], lambda _: (la, lb))
            B.update_latent_mm()
            cmp("memberships")
            A.update_basis_mm()
            B.update_basis_mm()
            cmp("basis update")
            if c.symbolic:
                A.basis, B.basis, B.latent = T, Ts, Z
            A.update_activation_mm()
            B.update_activation_mm()
            cmp("activation update")
            if c.symbolic:
                A.activation, B.activation = V, Vs
            A.update_spatial_model()
            cg.second()
            B.update_spatial_model()
            cg.compare()
            state(c, A, B, ("demix_filter", "output"))
