"""Harmonic vector analysis (C12): the mask built into the proximal-splitting HVA methods, and the constructor aliases.

The inverse real Fourier transform is replaced by its contract symbolically (some real array depending on its argument; argument,
axis and scaling are checked); on the real code the documented mask is evaluated with numpy's transform."""

import math

import numpy as np

from vc.registry import contract

HV = "ssspy.bss.hva"
KINDS = {"MaskingPDSHVA": dict(mu1=1, mu2=1), "MaskingADMMHVA": dict(rho=1), "HVA": dict(mu1=1, mu2=1)}


class Fft:
    def __init__(self, c):
        self.c, self.calls = c, []

    def irfft(self, a, n=None, axis=-1, norm=None):
        if n is not None:
            raise NotImplementedError("explicit transform length")
        sh = list(a.shape)
        ax = axis % len(sh)
        sh[ax] = 2 * (sh[ax] - 1)
        r = self.c.fresh_array("transform%d" % len(self.calls), tuple(sh), "f")
        self.calls.append((a, ax, norm, r))
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise NotImplementedError("np.fft.%s" % name)


for cls, kw in KINDS.items():
    for iters in (1, 2):
        for att in ("given", "default"):

            @contract("%s mask, %d shrinkage step%s, attenuation %s" % (cls, iters, "" if iters == 1 else "s", att), "C12", "bss.hva.%s.__init__" % cls, samples=6)
            def mask(c, cls=cls, kw=kw, iters=iters, att=att):
                md = c.load(HV)
                N, I, J = c.dim("N", 2), c.dim("I", 2), c.dim("J")
                Y = c.array("Y", (N, I, J), "c")
                g = c.ufunc("floor", sign="pos")
                gam = c.scalar("gamma", sign="pos") if att == "given" else None
                m = getattr(md, cls)(attenuation=gam, mask_iter=iters, flooring_fn=g, record_loss=False, scale_restoration=False, **kw)
                f = None
                if c.symbolic:
                    f = Fft(c)
                    c.stub(md.np, "fft", f)
                M = m.mask_fn(Y)
                c.unchanged("argument not modified", Y)
                c.shape("one mask value per source, bin and frame", M, (N, I, J))
                a = g(abs(Y)) if not c.symbolic else c.fresh_from((N, I, J), lambda n, i, j: g(c.abs(Y[n, i, j])))
                z = lambda n, i, j: c.log(a[n, i, j])
                mean = lambda n, j: c.sum(I, lambda i: z(n, i, j)) / I
                if c.symbolic:
                    if len(f.calls) != 2:
                        raise NotImplementedError
                    (a1, ax1, nm1, nu), (a2, ax2, nm2, xi) = f.calls
                    c.forall("liftering starts from the log amplitude without its mean over bins", [N, I, J], lambda n, i, j: (a1[n, i, j], z(n, i, j) - mean(n, j)))
                    c.ensure("transforms along the bins, scaled on the way there only", ax1 == 1 and ax2 == 1 and nm1 in (None, "backward") and nm2 == "forward")

                    def shrink(x):
                        v = c.minimum(1, x)
                        for _ in range(iters):
                            v = (1 - md.np.cos(math.pi * v)) / 2
                        return v * x

                    c.forall("cosine shrinkage of the cepstrum", [N, I, J], lambda n, i, j: (a2[n, i, j], shrink(nu[n, i, j])))
                else:
                    la = np.log(a)
                    mu = la.mean(axis=1, keepdims=True)
                    nu = np.fft.irfft(la - mu, axis=1)[:, :I]
                    v = np.minimum(1, nu)
                    for _ in range(iters):
                        v = (1 - np.cos(np.pi * v)) / 2
                    xi = np.fft.irfft(v * nu, axis=1, norm="forward")
                v = lambda n, i, j: c.exp(2 * (xi[n, i, j] + mean(n, j)))
                ex = gam if att == "given" else 1 / c.num(N)
                c.forall("mask: source's share of the shrunk power, attenuated", [N, I, J], lambda n, i, j: (M[n, i, j], c.pw(v(n, i, j) / c.sum(N, lambda q: v(q, i, j)), ex)))


for mod, cls, kw in (("pdsbss", "PDSBSS", {}), ("pdsbss", "MaskingPDSBSS", {}), ("admmbss", "ADMMBSS", {}), ("admmbss", "MaskingADMMBSS", {}), ("hva", "MaskingPDSHVA", {}), ("hva", "MaskingADMMHVA", {}), ("iva", "PDSIVA", {})):

    @contract("%s: alpha is the relaxation" % cls, "C12", "bss.%s.%s.__init__" % (mod, cls), samples=2)
    def alias(c, mod=mod, cls=cls):
        md = c.load("ssspy.bss." + mod)
        al = c.scalar("alpha", sign="pos", hi=2)
        k = {}
        if cls.startswith("Masking") and "HVA" not in cls:
            k["mask_fn"] = lambda y: y
        elif cls == "PDSIVA":
            k = dict(contrast_fn=lambda y: y, prox_penalty=lambda y, step_size=1: y)
        elif "HVA" not in cls:
            k = dict(prox_penalty=lambda y, step_size=1: y)
        A = getattr(md, cls)(alpha=al, record_loss=False, **k)
        B = getattr(md, cls)(relaxation=al, record_loss=False, **k)
        D = getattr(md, cls)(record_loss=False, **k)
        c.forall("relaxation from either name, one by default", [1], lambda _: (A.relaxation, al))
        c.forall("relaxation by its own name", [1], lambda _: (B.relaxation, al))
        c.forall("no relaxation by default", [1], lambda _: (D.relaxation, 1))
