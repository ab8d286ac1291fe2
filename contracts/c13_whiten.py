from vc.registry import contract

# (name, kind, layout): layout maps the axes of the input to (lead.., channel, time)
SHAPES = [
    ("2-D real", "f", "ct"),
    ("3-D real", "f", "bct"),
    ("3-D complex", "c", "cft"),
    ("4-D complex", "c", "bcft"),
]


def build(c, kind, lay):
    B, N, F, Tm = c.dim("B"), c.dim("N", 2), c.dim("F"), c.dim("T", 1, nlo=6)
    c.require(Tm >= N + 1)  # the sample covariance is nonsingular
    d = {"b": B, "c": N, "f": F, "t": Tm}
    x = c.array("x", tuple(d[k] for k in lay), kind)
    lead = [k for k in lay if k in "bf"]

    def at(arr, l, ch, t):
        e = dict(zip(lead, l))
        e["c"], e["t"] = ch, t
        return arr[tuple(e[k] for k in lay)]

    return x, d, [d[k] for k in lead], at, N, Tm


for nm, kind, lay in SHAPES:

    @contract("whiten %s" % nm, "C13", "transform.whiten.whiten", samples=8)
    def whiten(c, kind=kind, lay=lay):
        x, d, lead, at, N, Tm = build(c, kind, lay)
        y = c.load("ssspy.transform.whiten").whiten(x)
        c.shape("shape", y, tuple(d[k] for k in lay))
        L = len(lead)
        c.forall(
            "identity sample covariance",
            lead + [N, N],
            lambda *i: (c.sum(Tm, lambda t: at(y, i[:L], i[L], t) * c.conj(at(y, i[:L], i[L + 1], t))), Tm * c.delta(i[L], i[L + 1])),
        )
        # Y = Q X with Q invertible: the rows of Y span exactly the row space of X
        # (with the covariance above, Y^H Y / T = X^H (X X^H)^{-1} X says precisely this)
        C = lambda i: c.inv(N, lambda a, b: c.sum(Tm, lambda t: at(x, i, a, t) * c.conj(at(x, i, b, t))))

        def span(*i):
            l, t, s = i[:L], i[L], i[L + 1]
            iC = C(l)
            return (
                c.sum(N, lambda m: c.conj(at(y, l, m, t)) * at(y, l, m, s)),
                Tm * c.sum(N, lambda a: c.sum(N, lambda b: c.conj(at(x, l, a, t)) * iC(a, b) * at(x, l, b, s))),
            )

        c.forall("output is an invertible channel transform of the input, the same for every frame", lead + [Tm, Tm], span)
        c.unchanged("input not modified", x)

    for asc in (True, False):

        @contract("pca %s ascend=%s" % (nm, asc), "C13", "transform.pca.pca", samples=8)
        def pca(c, kind=kind, lay=lay, asc=asc):
            x, d, lead, at, N, Tm = build(c, kind, lay)
            y = c.load("ssspy.transform.pca").pca(x, ascend=asc)
            c.shape("shape", y, tuple(d[k] for k in lay))
            L = len(lead)
            cov = lambda l, m, n: c.sum(Tm, lambda t: at(y, l, m, t) * c.conj(at(y, l, n, t)))
            c.forall("components uncorrelated", lead + [N, N], lambda *i: ((1 - c.delta(i[L], i[L + 1])) * cov(i[:L], i[L], i[L + 1]), 0))
            c.ordered("variances in the requested order", lead + [N], lambda *i: cov(i[:L], i[L], i[L]), "descending" if asc else "ascending")
            c.forall(
                "orthonormal channel transform (energy of every frame preserved)",
                lead + [Tm, Tm],
                lambda *i: (
                    c.sum(N, lambda m: c.conj(at(y, i[:L], m, i[L])) * at(y, i[:L], m, i[L + 1])),
                    c.sum(N, lambda m: c.conj(at(x, i[:L], m, i[L])) * at(x, i[:L], m, i[L + 1])),
                ),
            )
            c.unchanged("input not modified", x)


@contract("whiten and pca reject other inputs", "C13", "transform.whiten.whiten transform.pca.pca")
def bad(c):
    w, p = c.load("ssspy.transform.whiten").whiten, c.load("ssspy.transform.pca").pca
    B, N, F, Tm, E = c.dim("B"), c.dim("N"), c.dim("F"), c.dim("T"), c.dim("E")
    for f, n in ((w, "whiten"), (p, "pca")):
        c.raises(n + ": complex matrix", ValueError, lambda: f(c.array("a" + n, (N, Tm), "c")))
        c.raises(n + ": real 4-D", ValueError, lambda: f(c.array("b" + n, (B, N, F, Tm), "f")))
        c.raises(n + ": vector", ValueError, lambda: f(c.array("c" + n, (Tm,), "f")))
        c.raises(n + ": 5-D", ValueError, lambda: f(c.array("d" + n, (E, B, N, F, Tm), "c")))
