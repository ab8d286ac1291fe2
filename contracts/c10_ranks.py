"""Every batch shape: the matrix helpers, proximal operators and guards act slice by slice, for stacks of
rank 0, 2 and 3.  Together with the rank-1 contracts (C10, C11, C21) this covers every batch shape."""
from vc.registry import contract

LA = "ssspy.linalg"


def ranks(name, props, under, make, ranks=(0, 2, 3), **kw):
    """make(c, lead) -> (call, arrays); call(*arrays) returns a list of arrays whose leading axes are the batch axes"""
    for r in ranks:

        @contract("%s, batch rank %d" % (name, r), props, under, samples=4, **kw)
        def t(c, r=r):
            lead = tuple(c.dim("B%d" % k) for k in range(r))
            call, arrs, tails = make(c, lead)
            out = call(*arrs)
            idx = tuple(c.index("b%d" % k, d) for k, d in enumerate(lead))
            # rank-1 stack holding the slice at idx
            one = call(*[a[idx][None] if r else a[None] for a in arrs])
            for n, (o, p, tl) in enumerate(zip(out, one, tails)):
                c.shape("shape %d" % n, o, lead + tuple(tl))
                ft = [d for d in tl]
                if not ft:
                    c.forall("slice %d equals the result for the slice" % n, [1], lambda z, o=o, p=p: (o[idx] if r else o[()], p[0]))
                else:
                    c.forall("slice %d equals the result for the slice" % n, ft, lambda *i, o=o, p=p: (o[idx + i], p[(0,) + i]))
            for n, a in enumerate(arrs):
                c.unchanged("argument %d not modified" % n, a)


for kind, kn in (("c", "complex"), ("f", "real")):

    for typ in (1, 2, 3):

        def mk(c, lead, kind=kind, typ=typ, fn="eigh"):
            N = c.dim("N", 2)
            A = c.array("A", lead + (N, N), kind, herm=True)
            Bm = c.array("Bm", lead + (N, N), kind, pd=True)
            f = c.load(LA + ".eigh").eigh

            def call(a, b):
                lam, z = f(a, b, type=typ)
                zz = z[..., :, None, :] * c.conj(z[..., None, :, :])  # phase-free form of the eigenvectors
                return lam, zz

            return call, [A, Bm], [(N,), (N, N, N)]

        ranks("eigh type %d %s" % (typ, kn), "C10", "linalg.eigh.eigh", mk)

    def mki(c, lead, kind=kind):
        X = c.array("X", lead + (2, 2), kind)
        f = c.load(LA + ".inv").inv2
        return (lambda a: [f(a)]), [X], [(2, 2)]

    ranks("inv2 %s" % kn, "C10", "linalg.inv.inv2", mki)

    for fn in ("sqrtmh", "invsqrtmh"):

        def mks(c, lead, kind=kind, fn=fn):
            N = c.dim("N", 2)
            X = c.array("X", lead + (N, N), kind, pd=True)
            f = getattr(c.load(LA + ".sqrtm"), fn)
            return (lambda a: [f(a)]), [X], [(N, N)]

        ranks("%s %s" % (fn, kn), "C10", "linalg.sqrtm." + fn, mks)

    def mkv(c, lead, kind=kind):
        N = c.dim("N", 2)
        A, b = c.array("A", lead + (N, N), kind), c.array("b", lead + (N,), kind)
        f = c.load(LA).solve
        return (lambda a, y: [f(a, y)]), [A, b], [(N,)]

    ranks("solve vector %s" % kn, "C10", "linalg._solve.solve", mkv)

    def mkm(c, lead, kind=kind):
        N, K = c.dim("N", 2), c.dim("K")
        A, b = c.array("A", lead + (N, N), kind), c.array("b", lead + (N, K), kind)
        f = c.load(LA).solve
        return (lambda a, y: [f(a, y)]), [A, b], [(N, K)]

    ranks("solve matrix %s" % kn, "C10", "linalg._solve.solve", mkm, ranks=(2, 3))

    def mkq(c, lead, kind=kind):
        N = c.dim("N", 2)
        X, A = c.array("X", lead + (N,), kind), c.array("A", lead + (N, N), kind)
        f = c.load(LA).quadratic
        return (lambda a, y: [f(a, y)]), [X, A], [()]

    ranks("quadratic %s" % kn, "C10", "linalg.quadratic.quadratic", mkq)

    def mkc(c, lead, kind=kind):
        x = c.array("x", lead, kind)
        f = c.load(LA + ".cubic").cbrt
        return (lambda a: [f(a)]), [x], [()]

    ranks("cbrt %s" % kn, "C10", "linalg.cubic.cbrt", mkc, ranks=(2, 3))

    def mkl1(c, lead, kind=kind):
        x = c.array("x", lead, kind)
        g = c.scalar("g", sign="pos")
        f = c.load(LA + ".prox").l1
        return (lambda a: [f(a, step_size=g)]), [x], [()]

    ranks("prox l1 %s" % kn, "C11", "linalg.prox.l1", mkl1, ranks=(2, 3))

    for mod in ("ssspy.special.psd", "ssspy.bss._psd"):

        def mkp(c, lead, kind=kind, mod=mod):
            N = c.dim("N", 2)
            X = c.array("X", lead + (N, N), kind)
            f = c.load(mod).to_psd
            return (lambda a: [f(a)]), [X], [(N, N)]

        ranks("to_psd (%s) %s" % (mod[6:], kn), "C21", mod[6:] + ".to_psd", mkp)


def mkpb(c, lead):
    N = c.dim("N", 2)
    W = c.array("W", lead + (N, N))
    ref = c.index("ref", N)
    f = c.load("ssspy.algorithm.projection_back").projection_back
    return (lambda a: [f(a, reference_id=ref)]), [W], [(N, N)]


ranks("projection_back filter form", "C02", "projection_back.projection_back", mkpb)


def mknl(c, lead):
    x = c.array("x", lead, "f", sign="nonneg")
    g = c.scalar("g", sign="pos")
    f = c.load(LA + ".prox").neg_log
    return (lambda a: [f(a, step_size=g)]), [x], [()]


ranks("prox neg_log", "C11", "linalg.prox.neg_log", mknl, ranks=(2, 3))


# group norm: every number of axes, every grouping axis, every value of the (unused) first axis argument
for nd in (1, 2, 3, 4):
    for k in range(nd):

        @contract("prox l21 %d axes, group axis %d" % (nd, k), "C11", "linalg.prox.l21", samples=4)
        def l21n(c, nd=nd, k=k):
            D = [c.dim("D%d" % j) for j in range(nd)]
            g = c.scalar("g", sign="pos")
            x = c.array("x", tuple(D), "c")
            f = c.load(LA + ".prox").l21

            def nrm(ix):
                def h(q):
                    j = list(ix)
                    j[k] = q
                    return c.abs2(x[tuple(j)])

                return c.sqrt(c.sum(D[k], h))

            for ax2 in (k, k - nd):
                for ax1 in sorted({(k + 1) % nd, (k + 1) % nd - nd, -2 if nd > 1 else 0}):
                    y = f(x, step_size=g, axis1=ax1, axis2=ax2)
                    c.shape("shape (%d, %d)" % (ax1, ax2), y, tuple(D))
                    c.forall("x - p = g x / max(||x_group||, g) (%d, %d)" % (ax1, ax2), D, lambda *i: ((x[i] - y[i]) * c.maximum(nrm(i), g), g * x[i]))
            c.unchanged("input not modified", x)


# guards of every number of axes
for nd in (1, 3, 4):

    @contract("flooring, %d axes" % nd, "C21", "special.flooring.max_flooring special.flooring.add_flooring bss._flooring.max_flooring", samples=4)
    def fln(c, nd=nd):
        D = [c.dim("D%d" % j) for j in range(nd)]
        x = c.array("x", tuple(D), "f")
        eps = c.scalar("eps", "pos")
        for mod in ("ssspy.special.flooring", "ssspy.bss._flooring"):
            m = c.load(mod)
            y, z = m.max_flooring(x, eps=eps), m.add_flooring(x, eps=eps)
            c.forall(mod + " larger of value and floor", D, lambda *i: (y[i], c.maximum(x[i], eps)))
            c.forall(mod + " value plus floor", D, lambda *i: (z[i], x[i] + eps))
