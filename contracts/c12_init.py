"""Initial states of the proximal splitting methods (C12): zero dual and auxiliary variables and the identity filter unless given;
given ones are copied (C09), deprecated names map to the documented ones, and an initial state can be resumed from (C08)."""

from vc.registry import contract

PB, AB, IV, HV = "ssspy.bss.pdsbss", "ssspy.bss.admmbss", "ssspy.bss.iva", "ssspy.bss.hva"
QS = (1, 2)


def make(c, cls, Q):
    pen, prox = [lambda y: 0.0 for _ in range(Q)], [lambda y, step_size=1: y for _ in range(Q)]
    if cls in ("PDSBSS", "ADMMBSS"):
        return getattr(c.load(PB if cls == "PDSBSS" else AB), cls)(penalty_fn=pen, prox_penalty=prox, record_loss=False, scale_restoration=False)
    if cls in ("MaskingPDSBSS", "MaskingADMMBSS"):
        return getattr(c.load(PB if "PDS" in cls else AB), cls)(mask_fn=lambda y: y, record_loss=False, scale_restoration=False)
    if cls in ("PDSIVA", "ADMMIVA"):
        return getattr(c.load(IV), cls)(contrast_fn=lambda y: y, prox_penalty=lambda y, step_size=1: y, record_loss=False, scale_restoration=False)
    return getattr(c.load(HV), cls)(record_loss=False, scale_restoration=False)


for cls, mod in (("PDSBSS", "pdsbss"), ("MaskingPDSBSS", "pdsbss"), ("PDSIVA", "iva"), ("HVA", "hva"), ("MaskingPDSHVA", "hva"), ("ADMMBSS", "admmbss"), ("MaskingADMMBSS", "admmbss"), ("ADMMIVA", "iva"), ("MaskingADMMHVA", "hva")):
    for Q in QS if cls in ("PDSBSS", "ADMMBSS") else (1,):
        for given in ("default", "given", "deprecated names") if "ADMM" in cls else ("default", "given"):

            @contract("%s initial state%s, %s" % (cls, " %d penalties" % Q if Q > 1 else "", given), "C12 C08 C09", "bss.%s.%s._reset" % (mod, cls), samples=3)
            def reset(c, cls=cls, Q=Q, given=given):
                N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 2)
                m = make(c, cls, Q)
                X = c.array("X", (N, I, J), "c")
                tf = (N, I, J) if cls.startswith("Masking") or cls == "HVA" else (Q, N, I, J)
                shapes = dict(dual=tf) if "ADMM" not in cls else dict(auxiliary1=(I, N, N), auxiliary2=tf, dual1=(I, N, N), dual2=tf)
                old = dict(auxiliary1="aux1", auxiliary2="aux2") if given == "deprecated names" else {}
                kw = {}
                if given != "default":
                    kw = {k: c.array("init_" + k, sh, "c") for k, sh in shapes.items()}
                    kw["demix_filter"] = c.array("init_W", (I, N, N), "c")
                m.input = X.copy()
                m._reset(**{old.get(k, k): v for k, v in kw.items()})
                for k, sh in shapes.items():
                    v = getattr(m, k)
                    c.shape("shape of " + k, v, sh)
                    c.forall("initial %s: the given one, or zero" % k, list(sh), lambda *ix: (v[ix], kw[k][ix] if kw else 0))
                W = m.demix_filter
                c.forall("initial filter: the given one, or the identity", [I, N, N], lambda i, n, a: (W[i, n, a], kw["demix_filter"][i, n, a] if kw else c.delta(n, a)))
                c.forall("initial estimate: filter applied to the mixture", [N, I, J], lambda n, i, j: (m.output[n, i, j], c.sum(N, lambda a: W[i, n, a] * X[a, i, j])))
                for k, v in kw.items():
                    c.not_shared("given %s not shared" % k, getattr(m, k), v)
                    c.unchanged("given %s not modified" % k, v)
                c.unchanged("mixture not modified", X)
