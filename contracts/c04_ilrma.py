"""Low-rank source models (ILRMA family): source-model updates (C04), normalisation (C05), objective (C06),
and the weights handed to the spatial updates (C03)."""

import functools

import numpy as np

from vc.registry import contract

IL = "ssspy.bss.ilrma"

def any_beta(c):
    b = c.scalar("beta", sign="pos", hi=2)
    c.assume(b < 2)
    return b


# domain exponents: any real number in (0, 2], and the special cases 1 and 2
DOMAINS = {"2": lambda c: 2, "1": lambda c: 1, "any": lambda c: c.scalar("p", sign="pos", hi=2)}
BETAS = {"1": lambda c: 1, "any": any_beta}


class Setup:
    """an ILRMA object in an arbitrary state"""

    def __init__(self, c, model, part, p="2", beta="any", alg="IP", source="MM", floor=None, normalization=False, opaque=True, consistent=False, **kw):
        self.c, self.model, self.part = c, model, part
        N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 2, nlo=4)
        if not c.symbolic and J < N + 1:
            c.require(False)
        K = c.dim("K")
        self.N, self.I, self.J, self.K = N, I, J, K
        self.p = DOMAINS[p](c)
        md = self.md = c.load(IL)
        self.X = c.array("X", (N, I, J), "c")
        self.W = c.array("W", (I, N, N), "c", invertible=True)
        if part:
            self.T = c.array("T", (I, K), "f", sign="pos")
            self.V = c.array("V", (K, J), "f", sign="pos")
            self.Z = c.array("Z", (N, K), "f", sign="pos")
        else:
            self.T = c.array("T", (N, I, K), "f", sign="pos")
            self.V = c.array("V", (N, K, J), "f", sign="pos")
            self.Z = None
        args = dict(spatial_algorithm=alg, source_algorithm=source, domain=self.p, partitioning=part, flooring_fn=floor, normalization=normalization, scale_restoration=False, record_loss=False)
        args.update(kw)
        if model == "T":
            self.nu = c.scalar("nu", sign="pos")
            args["dof"] = self.nu
        if model == "GGD":
            self.beta = BETAS[beta](c)
            args["beta"] = self.beta
        cls = {"Gauss": md.GaussILRMA, "T": md.TILRMA, "GGD": md.GGDILRMA}[model]
        m = self.m = cls(K, **args)
        m.input = self.X.copy()
        st = dict(demix_filter=self.W, basis=self.T, activation=self.V)
        if part:
            st["latent"] = self.Z
        m._reset(flooring_fn=m.flooring_fn, **st)
        self.iss = m.demix_filter is None
        self.Y = m.output if self.iss else None
        self.sep = {}
        if self.iss and consistent:
            self.Y = None
            pass
        elif self.iss:
            # signal mode: the separated signal itself is the state
            self.Y = c.array("Y", (N, I, J), "c")
            m.output = self.Y
        elif c.symbolic and opaque:
            # `separate` is replaced by its contract (proved on its own): some array that depends on filter and mixture only
            self.Y = c.array("Y", (N, I, J), "c")
            real = m.separate

            def separate(input, demix_filter):
                if demix_filter is self.W or demix_filter.st is getattr(m.demix_filter, "st", None) and m.demix_filter is self.Wm:
                    return self.Y
                return real(input, demix_filter)

            self.Wm = m.demix_filter
            m.separate = separate

    def y(self, n, i, j, W=None):
        if self.Y is not None and (self.iss or W is None or W is self.W):
            return self.Y[n, i, j]
        W = self.W if W is None else W
        return self.c.sum(self.N, lambda a: W[i, n, a] * self.X[a, i, j])

    def table(self, dims, f):
        if self.c.symbolic:
            return f
        a = self.c.fresh_from(dims, f, "f")
        return lambda *ix: a[ix]

    def lam(self, T, V, Z):
        """model variance to the power p/2"""
        c, K = self.c, self.K
        if self.part:
            return lambda n, i, j: c.sum(K, lambda k: Z[n, k] * T[i, k] * V[k, j])
        return lambda n, i, j: c.sum(K, lambda k: T[n, i, k] * V[n, k, j])

    def expo(self, source="MM"):
        p = self.p
        if source == "ME":
            return 1
        return p / (p + 2) if self.model != "GGD" else p / (p + self.beta)

    def ratio_num(self, R):
        """|y|^2 / (weighted variance) over the variance: what the gradient of the first loss term contributes"""
        c, p = self.c, self.p
        pw = c.pw
        if self.model == "Gauss":
            return lambda n, i, j: c.abs2(self.y(n, i, j)) / pw(R(n, i, j), (p + 2) / p)
        if self.model == "T":
            nu = self.nu
            a = nu / (nu + 2)
            return lambda n, i, j: c.abs2(self.y(n, i, j)) / (R(n, i, j) * (a * pw(R(n, i, j), 2 / p) + (1 - a) * c.abs2(self.y(n, i, j))))
        b = self.beta
        return lambda n, i, j: b / 2 * pw(c.abs(self.y(n, i, j)), b) / pw(R(n, i, j), (b + p) / p)

    def rule(self, which, T, V, Z, source="MM"):
        """documented multiplicative update (before flooring / normalisation)"""
        c, N, I, J, K = self.c, self.N, self.I, self.J, self.K
        tab = lambda f: self.table((N, I, J), f)
        R = tab(self.lam(T, V, Z))
        q = tab(self.ratio_num(R))
        e = self.expo(source)
        inv = lambda n, i, j: 1 / R(n, i, j)
        if self.part:
            if which == "basis":
                co = lambda f: lambda i, k: c.sum(N, lambda n: c.sum(J, lambda j: Z[n, k] * V[k, j] * f(n, i, j)))
                return lambda i, k: c.pw(co(q)(i, k) / co(inv)(i, k), e) * T[i, k]
            if which == "activation":
                co = lambda f: lambda k, j: c.sum(N, lambda n: c.sum(I, lambda i: Z[n, k] * T[i, k] * f(n, i, j)))
                return lambda k, j: c.pw(co(q)(k, j) / co(inv)(k, j), e) * V[k, j]
            co = lambda f: lambda n, k: c.sum(I, lambda i: c.sum(J, lambda j: T[i, k] * V[k, j] * f(n, i, j)))
            z = lambda n, k: c.pw(co(q)(n, k) / co(inv)(n, k), e) * Z[n, k]
            z = self.table((N, K), z)
            return lambda n, k: z(n, k) / c.sum(N, lambda m: z(m, k))
        if which == "basis":
            co = lambda f: lambda n, i, k: c.sum(J, lambda j: V[n, k, j] * f(n, i, j))
            return lambda n, i, k: c.pw(co(q)(n, i, k) / co(inv)(n, i, k), e) * T[n, i, k]
        co = lambda f: lambda n, k, j: c.sum(I, lambda i: T[n, i, k] * f(n, i, j))
        return lambda n, k, j: c.pw(co(q)(n, k, j) / co(inv)(n, k, j), e) * V[n, k, j]

    def dims(self, which):
        N, I, J, K = self.N, self.I, self.J, self.K
        if which == "latent":
            return (N, K)
        if which == "basis":
            return (I, K) if self.part else (N, I, K)
        return (K, J) if self.part else (N, K, J)

    def weight(self, T, V, Z, g, W=None):
        """weight of the weighted covariance for the spatial update"""
        c, p = self.c, self.p
        R = self.lam(T, V, Z)
        if self.model == "Gauss":
            return lambda n, i, j: 1 / c.pw(R(n, i, j), 2 / p)
        if self.model == "T":
            nu = self.nu
            a = nu / (nu + 2)
            return lambda n, i, j: 1 / (a * c.pw(R(n, i, j), 2 / p) + (1 - a) * c.abs2(self.y(n, i, j, W)))
        b = self.beta
        N, I, J = self.N, self.I, self.J
        fl = g(c.fresh_from((N, I, J), lambda n, i, j: c.pw(c.abs(self.y(n, i, j, W)), 2 - b)))
        return lambda n, i, j: b / (2 * fl[n, i, j] * c.pw(R(n, i, j), b / p))

    def loss(self, T, V, Z, W):
        """documented objective"""
        c, p, N, I, J = self.c, self.p, self.N, self.I, self.J
        R = self.lam(T, V, Z)
        y = lambda n, i, j: self.y(n, i, j, W)
        if self.model == "Gauss":
            f = lambda n, i, j: c.abs2(y(n, i, j)) / c.pw(R(n, i, j), 2 / p)
        elif self.model == "T":
            nu = self.nu
            f = lambda n, i, j: (1 + nu / 2) * c.log(1 + 2 / nu * (c.abs2(y(n, i, j)) / c.pw(R(n, i, j), 2 / p)))
        else:
            b = self.beta
            f = lambda n, i, j: c.pw(c.abs(y(n, i, j)), b) / c.pw(R(n, i, j), b / p)
        two_p = 2 / p
        tot = c.sum(N, lambda n: c.sum(I, lambda i: c.sum(J, lambda j: f(n, i, j) + two_p * c.log(R(n, i, j))) / J))
        return tot - 2 * c.sum(I, lambda i: c.logabsdet(N, lambda a, b: W[i, a, b]))


ALGS = {"filter": "IP", "signal": "ISS"}
MODELS = [("Gauss", "any"), ("Gauss", "2"), ("Gauss", "1"), ("T", "any"), ("T", "2"), ("T", "1"), ("GGD", "any"), ("GGD", "2"), ("GGD", "1")]


def state(s):
    m = s.m
    return m.basis, m.activation, (m.latent if s.part else None)


for model, p in MODELS:
    for part in (False, True):
        for which in ("basis", "activation") + (("latent",) if part else ()):
            for src, alg in (("MM", "IP"), ("MM", "ISS1"), ("ME", "IP"), ("ME", "ISS1")):
                if src == "ME" and (model == "GGD" or p != "2"):
                    continue
                if alg == "ISS1" and src == "MM" and p != "any":
                    continue

                @contract(
                    "%sILRMA update_%s_%s domain=%s%s" % (model, which, src.lower(), p, (" partitioned" if part else "") + ("" if alg == "IP" else " signal mode")),
                    "C04",
                    "bss.ilrma.%sILRMA.update_%s_%s bss.ilrma.ILRMABase.reconstruct_nmf bss.ilrma.ILRMABase.separate" % (model, which, src.lower()),
                    samples=4,
                )
                def upd(c, model=model, p=p, part=part, which=which, src=src, alg=alg):
                    g = c.ufunc("floor", sign="pos")
                    s = Setup(c, model, part, p, source=src, floor=g, alg=alg)
                    m = s.m
                    getattr(m, "update_%s_%s" % (which, src.lower()))()
                    want = s.rule(which, s.T, s.V, s.Z, src)
                    d = s.dims(which)
                    new = getattr(m, which)
                    c.shape("shape", new, d)
                    if which == "latent":
                        c.forall("documented multiplicative rule, normalised over sources", d, lambda *ix: (new[ix], want(*ix)))
                        c.forall("memberships sum to one over sources", [s.K], lambda k: (c.sum(s.N, lambda n: new[n, k]), 1))
                    else:
                        fl = g(c.fresh_from(d, want))
                        c.forall("documented multiplicative rule, floored", d, lambda *ix: (new[ix], fl[ix]))
                    c.forall_pos("nonnegative", d, lambda *ix: new[ix])
                    for nm in ("basis", "activation", "latent"):
                        old = {"basis": s.T, "activation": s.V, "latent": s.Z}[nm]
                        if nm != which and old is not None:
                            cur = getattr(m, nm)
                            c.forall("%s kept" % nm, s.dims(nm), lambda *ix: (cur[ix], old[ix]))
                    Wn = m.demix_filter
                    if s.iss:
                        c.ensure("no filter", Wn is None)
                        c.forall("separated signal kept", [s.N, s.I, s.J], lambda *ix: (m.output[ix], s.Y[ix]))
                    else:
                        c.forall("demixing filter kept", [s.I, s.N, s.N], lambda *ix: (Wn[ix], s.W[ix]))
                    for nm in ("X", "W", "T", "V") + (("Z",) if part else ()):
                        c.unchanged("caller's %s not modified" % nm, getattr(s, nm))


def same(c, label, dims, a, b):
    c.forall(label, list(dims), lambda *ix: (a[ix], b[ix] if not callable(b) else b(*ix)))


for model, p in MODELS:
    for part in (False, True):
        for src in ("MM", "ME"):
            if (src == "ME" and (model == "GGD" or p != "2")) or (src == "MM" and p == "1"):
                continue

            @contract(
                "%sILRMA update_source_model %s domain=%s%s" % (model, src, p, " partitioned" if part else ""),
                "C04",
                "bss.ilrma.%sILRMA.update_source_model bss.ilrma.%sILRMA.update_source_model_%s" % (model, model, src.lower()),
                samples=4,
            )
            def seq(c, model=model, p=p, part=part, src=src):
                """memberships, basis, activation in turn, each evaluated at the latest values of the others"""
                g = c.ufunc("floor", sign="pos")
                s = Setup(c, model, part, p, source=src, floor=g)
                s.m.update_source_model()
                T, V, Z = state(s)
                Z0 = s.Z
                if part:
                    same(c, "memberships from the previous state", s.dims("latent"), Z, s.rule("latent", s.T, s.V, s.Z, src))
                fl = g(c.fresh_from(s.dims("basis"), s.rule("basis", s.T, s.V, Z, src)))
                same(c, "basis from the latest memberships", s.dims("basis"), T, fl)
                fl = g(c.fresh_from(s.dims("activation"), s.rule("activation", T, s.V, Z, src)))
                same(c, "activation from the latest basis and memberships", s.dims("activation"), V, fl)


# ---------------------------------------------------------------- C06: objective
for model, p in MODELS:
    for part in (False, True):
        for alg in ("IP", "ISS1"):
            if p == "1":
                continue

            @contract(
                "%sILRMA compute_loss domain=%s%s%s" % (model, p, " partitioned" if part else "", "" if alg == "IP" else " signal mode"),
                "C06",
                "bss.ilrma.%sILRMA.compute_loss bss.ilrma.ILRMABase.compute_logdet bss.ilrma.ILRMABase.reconstruct_nmf bss.ilrma.ILRMABase.separate" % model,
                samples=4,
            )
            def loss(c, model=model, p=p, part=part, alg=alg):
                s = Setup(c, model, part, p, alg=alg, opaque=False, consistent=True)
                got = s.m.compute_loss()
                if not c.symbolic:
                    c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
                c.forall("documented objective", [1], lambda _: (got, s.loss(s.T, s.V, s.Z, s.W)))


# ---------------------------------------------------------------- C05: normalisation
for model, p in MODELS:
    for part in (False, True):
        for alg in ("IP", "ISS1"):
            for nz, fl in (("power", True), ("power", False), ("projection_back", False), (True, True), ("projection_back, default reference", False)):
                if p == "1" or (str(nz).startswith("projection_back") and part):
                    continue
                if nz not in ("power", "projection_back") and (p != "any" or model == "T"):
                    continue
                if not fl and nz == "power" and (p != "any" or model == "GGD"):
                    continue

                @contract(
                    "%sILRMA normalize %s%s domain=%s%s%s" % (model, nz, " floored" if fl else "", p, " partitioned" if part else "", "" if alg == "IP" else " signal mode"),
                    "C05",
                    "bss.ilrma.ILRMABase.normalize bss.ilrma.ILRMABase.normalize_by_power bss.ilrma.ILRMABase.normalize_by_projection_back",
                    samples=4,
                )
                def norm(c, model=model, p=p, part=part, alg=alg, nz=nz, fl=fl):
                    g = c.ufunc("floor", sign="pos") if fl else None
                    ref = c.index("ref", c.dim("N", 2))
                    if nz == "projection_back, default reference":
                        ref, nz = None, "projection_back"  # documented: channel 0
                    s = Setup(c, model, part, p, alg=alg, opaque=False, consistent=True, normalization=nz, floor=g, reference_id=ref)
                    m = s.m
                    N, I, J = s.N, s.I, s.J
                    y0 = s.y
                    if nz is True:
                        nz = "power"
                    R0 = s.lam(s.T, s.V, s.Z)
                    L0 = m.compute_loss()
                    m.normalize()
                    T, V, Z = state(s)
                    R1 = s.lam(T, V, Z)
                    if s.iss:
                        out = m.output
                        y1 = lambda n, i, j: out[n, i, j]
                    else:
                        W1 = m.demix_filter
                        y1 = lambda n, i, j: c.sum(N, lambda a: W1[i, n, a] * s.X[a, i, j])
                    two_p = 2 / s.p
                    if fl or nz != "power":
                        c.forall(
                            "signal power relative to the model variance is unchanged",
                            [N, I, J],
                            lambda n, i, j: (c.abs2(y1(n, i, j)) * c.pw(R0(n, i, j), two_p), c.abs2(y0(n, i, j)) * c.pw(R1(n, i, j), two_p)),
                        )
                        c.forall("objective is unchanged", [1], lambda _: (m.compute_loss(), L0))
                    if nz == "power" and not fl:
                        c.forall("unit power", [N], lambda n: (c.sum(I, lambda i: c.sum(J, lambda j: c.abs2(y1(n, i, j)))) / (I * J), 1))
                    if nz != "power":
                        c.forall("sources add up to the reference channel", [I, J], lambda i, j: (c.sum(N, lambda n: y1(n, i, j)), s.X[0 if ref is None else ref, i, j]))
                    if part:
                        c.forall("memberships sum to one over sources", [s.K], lambda k: (c.sum(N, lambda n: Z[n, k]), 1))


# ---------------------------------------------------------------- C03: weights of the spatial updates
SPATIAL = {"IP": "update_by_ip1", "IP1": "update_by_ip1", "IP2": "update_by_ip2", "ISS": "update_by_iss1", "ISS1": "update_by_iss1", "ISS2": "update_by_iss2", "IPA": "update_by_ipa"}


def num_spatial(c, fn, args):
    SMr = c.load("ssspy.bss._update_spatial_model")
    return getattr(SMr, fn)(*args[0], **args[1])


for model, p in MODELS:
    for part in (False, True):
        for alg in ("IP1", "IP2", "ISS1", "ISS2", "IPA"):
            if p == "1" or (alg == "IPA" and model != "Gauss"):
                continue

            @contract(
                "%sILRMA update_spatial_model %s domain=%s%s" % (model, alg, p, " partitioned" if part else ""),
                "C03",
                "bss.ilrma.%sILRMA.update_spatial_model bss.ilrma.%sILRMA.update_spatial_model_%s" % (model, model, alg.lower()),
                samples=8 if alg == "IPA" else 4,
            )
            def spat(c, model=model, p=p, part=part, alg=alg):
                g = c.ufunc("floor", sign="pos")
                if alg == "IPA" and not c.symbolic and c.rng.random() < 0.6:
                    g = lambda x: np.maximum(x, 1e-12)  # a small floor: the Newton steps are then really taken
                sel = c.load("ssspy.utils.select_pair").combination_pair_selector
                kw = dict(pair_selector=sel) if alg in ("IP2", "ISS2") else {}
                if alg == "IPA":
                    kw = dict(newton_iter=3, lqpqm_normalization=False)
                s = Setup(c, model, part, p, alg=alg, floor=g, **kw)
                m = s.m
                N, I, J = s.N, s.I, s.J
                w = s.weight(s.T, s.V, s.Z, g)
                fn = SPATIAL[alg]
                U = lambda i, n, a, b: c.sum(J, lambda j: w(n, i, j) * s.X[a, i, j] * c.conj(s.X[b, i, j])) / J
                if not c.symbolic:
                    # with one shared basis the weights of the sources are proportional and the pairwise eigenproblem is degenerate
                    c.require(s.K >= 2 or not (part and alg in ("IP2", "ISS2")))
                    k2 = dict(flooring_fn=g)
                    if alg in ("IP2", "ISS2"):
                        k2["pair_selector"] = sel
                    if alg == "IPA":
                        k2.update(normalization=False, max_iter=3)
                    if not s.iss:
                        want = num_spatial(c, fn, ((s.W.copy(), c.fresh_from((I, N, N, N), U, "c")), k2))
                    else:
                        want = num_spatial(c, fn, ((s.Y.copy(), c.fresh_from((N, I, J), w, "f")), k2))
                    m.update_spatial_model()
                    same(c, "spatial update with the model's weights", (N, I, J) if s.iss else (I, N, N), m.output if s.iss else m.demix_filter, want)
                else:
                    from vc.cutil import Rec

                    shp = (N, I, J) if s.iss else (I, N, N)
                    res = c.fresh_array("result", shp, "c")
                    r = Rec(c, s.md, fn, lambda a: res)
                    m.update_spatial_model()
                    a = r.only()
                    if s.iss:
                        same(c, "current separated signal is updated", shp, a["separated"], s.Y)
                        same(c, "weight", (N, I, J), a["weight"], w)
                        same(c, "result is the new separated signal", shp, m.output, res)
                        c.ensure("no filter", m.demix_filter is None)
                    else:
                        same(c, "current filter is updated", shp, a["demix_filter"], s.W)
                        same(c, "weighted covariance", (I, N, N, N), a["weighted_covariance"], U)
                        same(c, "result is the new filter", shp, m.demix_filter, res)
                    c.ensure("flooring function handed on", a["flooring_fn"] is g)
                    if "pair_selector" in a:
                        c.ensure("pair selector handed on", a["pair_selector"] is sel)
                    if alg == "IPA":
                        c.ensure("options handed on", a["normalization"] is False and a["max_iter"] == 3)
                for nm, cur in (("basis", s.T), ("activation", s.V), ("latent", s.Z)):
                    if cur is not None:
                        same(c, nm + " kept", s.dims(nm), getattr(m, nm), cur)
