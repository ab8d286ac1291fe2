"""Operators with assumed library contracts (inverse, log-determinant, eigen-decompositions ...).

Every entry states the contract of a numpy routine as rewrite rules over exact
arithmetic; these are assumptions of every proof and are listed in the evidence.
"""

from fractions import Fraction

from . import terms as T
from .terms import IX, P, Rule, lam_open, pconst, patom, pmul, padd, psub, subst, delta, mk_lam

ONE = Fraction(1)

ASSUMED = {
    "inv": "numpy.linalg.inv/solve: M inv(M) = inv(M) M = I for the (assumed nonsingular) argument",
    "lad": "numpy.linalg.slogdet: second component is log|det M|; det is multilinear in rows/columns",
    "eigv": "numpy.linalg.eigh: V^H V = V V^H = I, A V = V diag(w), w real (ascending)",
    "chol": "numpy.linalg.cholesky: L L^H = A for positive definite A",
    "svd": "numpy.linalg.svd: A = U diag(s) Vh, U and Vh unitary, s >= 0",
}
USED = set()


def _use(n):
    USED.add(n)
    T.CTX.assumptions.add(ASSUMED[n])


# ---------------------------------------------------------------- helpers
def split_scalings(lam, body):
    """body(r,c) = common * row(r) * col(c) * core(r,c); returns lists of (factors)"""
    (r, dr), (c, dc) = lam
    terms = body.terms
    com = None
    for cf, b, f in terms:
        bv = set(v for v, _ in b)
        fd = {a: e for a, e in f if not (a.fv & bv) and not isinstance(e, P) and not (r in a.fv and c in a.fv)}
        if com is None:
            com = dict(fd)
        else:
            for a in list(com):
                if a in fd and (fd[a] > 0) == (com[a] > 0):
                    e1, e2 = com[a], fd[a]
                    com[a] = min(e1, e2) if e1 > 0 else max(e1, e2)
                else:
                    del com[a]
    # drop data that would remove the only row/col dependence (rank one bodies)
    row = [(a, e) for a, e in com.items() if r in a.fv]
    col = [(a, e) for a, e in com.items() if c in a.fv]
    neither = [(a, e) for a, e in com.items() if r not in a.fv and c not in a.fv]
    core = body
    for a, e in row + col + neither:
        pass
    inv = tuple((a, -e) for a, e in com.items())
    if inv:
        core = T.normalize(P(tuple(T.raw_mul_mono(m, (ONE, (), inv)) for m in terms)))
    coef = ONE
    if len(terms) == 1:
        coef = terms[0][0]
    else:
        coef = core.terms[0][0]
        if T.psign(body) is not None:
            coef = abs(coef)
    core = T.pscale(core, 1 / coef)
    # the core must still depend on both r and c in a non rank-one fashion
    if not (r in core.fv and c in core.fv):
        # put row / col factors back (degenerate)
        return ONE, [], [], [], body
    return coef, neither, row, col, core


def is_delta_core(lam, core):
    (r, _), (c, _) = lam
    if len(core.terms) == 1:
        cf, b, f = core.terms[0]
        if cf == 1 and not b and len(f) == 1 and f[0][0].kind == "iv" and f[0][0].name == "eq0":
            ix = f[0][0].idx[0]
            if ix is IX.var(r) - IX.var(c) or ix is IX.var(c) - IX.var(r):
                return True
    return False


def diag_body(lam, body):
    """if body = delta(r,c) * d(r): return d as P over r"""
    (r, _), (c, _) = lam
    ok = True
    out = []
    for cf, b, f in body.terms:
        hit = False
        nf = []
        for a, e in f:
            if a.kind == "iv" and a.name == "eq0" and not hit:
                ix = a.idx[0]
                if ix is IX.var(r) - IX.var(c) or ix is IX.var(c) - IX.var(r):
                    hit = True
                    continue
            nf.append((a, e))
        if not hit:
            return None
        out.extend(T.mono_subst((cf, b, tuple(nf)), {c: IX.var(r)}))
    return T.normalize(P(tuple(out)))


def variants(lam, core):
    """(core, transposed, conjugated, hermitian) normal forms over (r,c)"""
    (r, dr), (c, dc) = lam
    sw = {r: IX.var(c), c: IX.var(r)}
    tr = subst(core, sw)
    return [(core, False, False), (tr, True, False), (T.pconj(core), False, True), (T.pconj(tr), True, True)]


def pmono(factors, sub=None, scale=1):
    p = T.normalize(P(((Fraction(scale), (), tuple(factors)),)))
    return subst(p, sub) if sub else p


def split_product(lam, body):
    """single-term body(r,c) = sum_a L(r,a) R(a,c) with square L: (a, L, R, dim) or None.

    A nonsingular square product has nonsingular square factors.
    """
    if len(body.terms) != 1:
        return None
    (r, dr), (c, dc) = lam
    cf, b, f = body.terms[0]
    bd = dict(b)
    for x, y, side in ((r, c, 0), (c, r, 1)):
        G = [ae for ae in f if x in ae[0].fv]
        O = [ae for ae in f if x not in ae[0].fv]
        if any(y in a.fv for a, _ in G) or not any(y in a.fv for a, _ in O):
            continue
        if any(isinstance(e, P) for _, e in G):
            continue
        gv = set()
        for a, _ in G:
            gv |= a.fv & bd.keys()
        ov = set()
        for a, _ in O:
            ov |= a.fv & bd.keys()
        con = gv & ov
        if len(con) != 1:
            continue
        (a,) = con
        if any(a in d.fv or x in d.fv or y in d.fv for d in bd.values()):
            continue
        if bd[a] is not dr and not T.int_query(("eq0", bd[a] - dr)):
            continue
        na = T.fresh("_q")
        ren = {a: IX.var(na)}
        inner = tuple((v, d) for v, d in b if v in gv and v != a)
        outer = tuple((v, d) for v, d in b if v not in gv)
        L = T.normalize(P(tuple(T.mono_subst((ONE, inner, tuple(G)), ren))))
        R = T.normalize(P(tuple(T.mono_subst((cf, outer, tuple(O)), ren))))
        if side == 0:
            return na, L, R, dr
        return na, R, L, dr
    return None


# ---------------------------------------------------------------- inverse
def inv_hook(lam, args, idx):
    body = args[0]
    (r, dr), (c, dc) = lam
    i, j = idx
    _use("inv")
    if dr is not dc:
        if not T.int_query(("eq0", dr - dc)):
            raise T.Unsupported("inverse of a non-square matrix %s x %s" % (dr, dc))
    if not body.terms:
        raise T.Unsupported("inverse of the zero matrix")
    d = diag_body(lam, body)
    if d is not None:
        return pmul(delta(i, j), T.ppow(subst(d, {r: i}), -1))
    if dr.is_const() and dr.value() == 1:
        return T.ppow(subst(body, {r: T.ZERO_IX, c: T.ZERO_IX}), -1)
    coef, neither, row, col, core = split_scalings(lam, body)
    if len(core.terms) == 1 and core.terms[0][1] == () and len(core.terms[0][2]) == 1:
        a, e = core.terms[0][2][0]
        if a.kind == "lam" and a.name == "inv" and e == 1:
            # inv(inv(M))
            (vr, vc), bodies = lam_open(a)
            if a.idx == (IX.var(r), IX.var(c)):
                base = subst(bodies[0], {vr[0]: i, vc[0]: j})
                inner = T.pconj(base) if a.cj else base
                return pmul(inner, inv_scal(coef, neither, row, col, lam, i, j))
            if a.idx == (IX.var(c), IX.var(r)):
                base = subst(bodies[0], {vr[0]: j, vc[0]: i})
                base = T.pconj(base) if a.cj else base
                return pmul(base, inv_scal(coef, neither, row, col, lam, i, j))
    sp = split_product(lam, core)
    if sp is not None:
        a, L, R, d = sp
        k = T.fresh()
        x = mk_lam("inv", [(a, d), (c, dc)], [R], (i, IX.var(k)))
        y = mk_lam("inv", [(r, dr), (a, d)], [L], (IX.var(k), j))
        return pmul(T.psum(pmul(x, y), k, d), inv_scal(coef, neither, row, col, lam, i, j))
    # canonical variant
    best = None
    for v, tr, cj in variants(lam, core):
        a = T.lam_atom("inv", lam, [v], (i, j))
        k = a.args[0].id
        if best is None or k < best[0]:
            best = (k, v, tr, cj)
    _, v, tr, cj = best
    ii, jj = (j, i) if tr else (i, j)
    real = T.is_real(v)
    if cj and not real:
        at = T.lam_atom("inv", lam, [v], (ii, jj), cj=True)
    else:
        at = T.lam_atom("inv", lam, [v], (ii, jj))
    p = patom(at)
    if coef == 1 and not neither and not row and not col:
        return p
    return pmul(p, inv_scal(coef, neither, row, col, lam, i, j))


def inv_scal(coef, neither, row, col, lam, i, j):
    (r, _), (c, _) = lam
    p = pmono([(a, -e) for a, e in neither], None, 1 / coef)
    if row:
        p = pmul(p, pmono([(a, -e) for a, e in row], {r: j}))
    if col:
        p = pmul(p, pmono([(a, -e) for a, e in col], {c: i}))
    return p


T.LAM_HOOK["inv"] = inv_hook
T.LAM_INFO["inv"] = {"real": lambda args, lam: T.is_real(args[0])}


def body_rules(a, key, build):
    """cache of dynamic rules per lam atom instance (name,args,lam,idx-independent)"""
    ck = ("dyn", key, a.name, tuple(p.id for p in a.args), a.lam, a.cj)
    r = T.CTX.cache.get(ck)
    if r is None:
        if ck in _building:
            return ()
        _building.add(ck)
        try:
            r = build()
        finally:
            _building.discard(ck)
        T.CTX.cache[ck] = r
    return r


_building = set()


def lead_term(p):
    best = None
    for k, (c, b, f) in enumerate(p.terms):
        key = (len(b), len(f), [T._fkey(x) for x in f])
        if best is None or key > best[0]:
            best = (key, k)
    return best[1]


def contract_rules(a, left):
    """rules for   sum_k M[x,k] inv(M)[k,j] = delta(x,j)   (left) or inv(M)[i,k] M[k,x] = delta(i,x)"""

    def build():
        vs, bodies = lam_open(a)
        (r, dr), (c, dc) = vs
        body = bodies[0]
        if a.cj:
            body = T.pconj(body)
        x, k, j = T.fresh("_m"), T.fresh("_p"), T.fresh("_m")
        if left:
            m = subst(body, {r: IX.var(x), c: IX.var(k)})
            ia = T._intern_atom("lam", a.name, (IX.var(k), IX.var(j)), a.args, a.lam, a.cj, a.real, a.sign)
        else:
            m = subst(body, {r: IX.var(k), c: IX.var(x)})
            ia = T._intern_atom("lam", a.name, (IX.var(j), IX.var(k)), a.args, a.lam, a.cj, a.real, a.sign)
        L = lead_term(m)
        cf, b, f = m.terms[L]
        ren = {v: IX.var(T.fresh("_p")) for v, _ in b}
        b2 = tuple((ren[v].as_var(), d.subst(ren)) for v, d in b)
        f2 = tuple((T.atom_subst1(t, ren), e) for t, e in f)
        rest = P(tuple(t for q, t in enumerate(m.terms) if q != L))
        rest = T.normalize(rest)
        dk = dr
        rhs = psub(delta(IX.var(x), IX.var(j)), T.psum(pmul(rest, patom(ia)), k, dk))
        rhs = T.pscale(rhs, 1 / cf)

        def mk(sol):
            return subst(rhs, sol)

        return Rule("inv-" + ("left" if left else "right"), [x, j], ((k, dk),) + b2, f2 + ((ia, ONE),), mk)

    return body_rules(a, "L" if left else "R", build)


def chol_rules(a):
    """inv(L) B = L^H and B inv(L)^H = L for L = chol(B)"""

    def build():
        vs, bodies = lam_open(a)
        (r, dr), (c, dc) = vs
        ch = T.single_atom(bodies[0])
        if ch is None or ch.kind != "lam" or ch.name != "chol":
            return ()
        Lf = lambda p, q: patom(T._intern_atom("lam", "chol", (p, q), ch.args, ch.lam, False, ch.real, ch.sign))
        cvs, cb = lam_open(ch)
        Bf = lambda p, q: subst(cb[0], {cvs[0][0]: p, cvs[1][0]: q})
        x, k, i = T.fresh("_m"), T.fresh("_p"), T.fresh("_m")
        X, K, I = IX.var(x), IX.var(k), IX.var(i)
        iL = mk_lam("inv", [(r, dr), (c, dc)], [Lf(IX.var(r), IX.var(c))], (I, K))
        out = []
        for cj in (False, True):
            ia = T.single_atom(T.pconj(iL) if cj else iL)
            if ia is None:
                return ()
            m = Bf(X, K) if cj else Bf(K, X)
            if not m.terms:
                return ()
            q = lead_term(m)
            cf, b, f = m.terms[q]
            ren = {v: IX.var(T.fresh("_p")) for v, _ in b}
            b2 = tuple((ren[v].as_var(), d.subst(ren)) for v, d in b)
            f2 = tuple((T.atom_subst1(t, ren), e) for t, e in f)
            rest = T.normalize(P(tuple(t for w, t in enumerate(m.terms) if w != q)))
            tgt = Lf(X, I) if cj else T.pconj(Lf(X, I))
            rhs = T.pscale(psub(tgt, T.psum(pmul(rest, patom(ia)), k, dr)), 1 / cf)
            out.append(Rule("chol", [x, i], ((k, dr),) + b2, f2 + ((ia, ONE),), lambda sol, rhs=rhs: subst(rhs, sol)))
        return tuple(out)

    return body_rules(a, "CH", build)


def dyn_inv(c, b, fs, i):
    a, e = fs[i]
    if isinstance(e, P) or e < 1:
        return None
    bd = dict(b)
    for rule in chol_rules(a):
        r = T.try_rule(rule, c, b, fs)
        if r is not None:
            _use("chol")
            return r
    for pos in (0, 1):
        v = a.idx[pos].as_var()
        if isinstance(v, str) and v in bd:
            rule = contract_rules(a, pos == 0)
            r = T.try_rule(rule, c, b, fs)
            if r is not None:
                _use("inv")
                return r
    return None


T.DYN_RULES["inv"] = dyn_inv


def inv_conj(a):
    return T._intern_atom("lam", "inv", a.idx, a.args, a.lam, not a.cj, a.real, a.sign)


# hermitian bodies: conj(inv)[i,j] = inv[j,i]
def inv_conj(a):  # noqa: F811
    vs, bodies = lam_open(a)
    (r, dr), (c, dc) = vs
    body = bodies[0]
    sw = subst(body, {r: IX.var(c), c: IX.var(r)})
    if T.pconj(sw) is body:
        return T._intern_atom("lam", "inv", (a.idx[1], a.idx[0]), a.args, a.lam, a.cj, a.real, a.sign)
    return T._intern_atom("lam", "inv", a.idx, a.args, a.lam, not a.cj, a.real, a.sign)


T.LAM_CONJ["inv"] = inv_conj


# ---------------------------------------------------------------- log|det|
def lad_hook(lam, args, idx):
    body = args[0]
    (r, dr), (c, dc) = lam
    _use("lad")
    d = diag_body(lam, body)
    if d is not None:
        return T.psum(T.mk_log(T.mk_abs(d)), r, dr)
    if dr.is_const() and dr.value() == 1:
        return T.mk_log(T.mk_abs(subst(body, {r: T.ZERO_IX, c: T.ZERO_IX})))
    coef, neither, row, col, core = split_scalings(lam, body)
    out = pconst(0)
    if coef != 1:
        out = padd(out, pmul(T.pint(dr), T.mk_log(pconst(abs(coef)))))
    for a, e in neither:
        out = padd(out, pmul(T.pint(dr), T.mk_log(T.mk_abs(patom(a, e)))))
    for a, e in row:
        out = padd(out, T.psum(T.mk_log(T.mk_abs(patom(a, e))), r, dr))
    for a, e in col:
        out = padd(out, T.psum(T.mk_log(T.mk_abs(patom(a, e))), c, dc))
    sp = split_product(lam, core)
    if sp is not None:
        a, L, R, d = sp
        return padd(out, mk_lam("lad", [(r, dr), (a, d)], [L], ()), mk_lam("lad", [(a, d), (c, dc)], [R], ()))
    best = None
    for v, tr, cj in variants(lam, core):
        at = T.lam_atom("lad", lam, [v], ())
        if best is None or at.args[0].id < best[0]:
            best = (at.args[0].id, at)
    at = best[1]
    return padd(out, patom(at))


T.LAM_HOOK["lad"] = lad_hook
T.LAM_INFO["lad"] = {"real": True}


# ---------------------------------------------------------------- eigh
# eigv[i,a], eigw[a] of Hermitian A
T.LAM_INFO["eigw"] = {"real": True}
T.LAM_INFO["eigv"] = {"real": lambda args, lam: T.is_real(args[0])}


def _eig_hermitian(lam, body):
    (r, _), (c, _) = lam
    sw = subst(body, {r: IX.var(c), c: IX.var(r)})
    return T.pconj(sw) is body


def eig_key(a):
    return (tuple(p.id for p in a.args), a.lam)


def eig_scale(name):
    """eigenvalues of kA are k times those of A and the eigenvectors are the same, for a scalar k > 0"""

    def hook(lam, args, idx):
        body = args[0]
        if not body.terms:
            return None
        coef, neither, row, col, core = split_scalings(lam, body)
        k = [(a, e) for a, e in neither if T.factor_sign(a, e) == "pos"]
        if not k and coef in (1, -1):
            return None
        k = pmono(k, None, abs(coef))
        core = pmul(body, T.ppow(k, -ONE))
        r = patom(T.lam_atom(name, lam, [core], idx))
        return pmul(k, r) if name == "eigw" else r

    return hook


def eig_reverse(c, b, fs, i):
    """substitute v -> d-1-v for a summed v that eigenvectors use only in the form d-1-v"""
    bd = dict(b)
    for ix in fs[i][0].idx:
        for v in ix.fv:
            if v not in bd or IX.of(bd[v]) - 1 - IX.var(v) is not ix:
                continue
            if any(v in d.fv for w, d in b if w != v):
                continue
            if any(v in j.fv and j is not ix for x, _ in fs if x.kind == "lam" and x.name in ("eigv", "eigw") for j in x.idx):
                continue
            out = T.mono_subst((c, tuple((w, d) for w, d in b if w != v), fs), {v: ix})
            return [(cc, bb + ((v, bd[v]),), ff) for cc, bb, ff in out]
    return None


def dyn_eigv(c, b, fs, i):
    """unitarity and  A V = V w"""
    a, e = fs[i]
    if isinstance(e, P) or e < 1:
        return None
    r = eig_reverse(c, b, fs, i)
    if r is not None:
        return r
    bd = dict(b)
    vi = a.idx[0].as_var()
    va = a.idx[1].as_var()
    # unitarity: real orthogonal, the partner is the atom itself
    if a.real and e == 2:
        for pos in (0, 1):
            v = a.idx[pos].as_var()
            if isinstance(v, str) and v in bd and v not in a.idx[1 - pos].fv and not any(v in x.fv for q, (x, _) in enumerate(fs) if q != i) and not any(v in d.fv for w, d in b if w != v):
                _use("eigv")
                return [(c, tuple((w, d) for w, d in b if w != v), tuple(x for q, x in enumerate(fs) if q != i))]
    # unitarity: partner conj
    for k, (a2, e2) in enumerate(fs):
        if k == i or a2.kind != "lam" or a2.name != "eigv" or isinstance(e2, P) or e2 < 1:
            continue
        if eig_key(a2) != eig_key(a):
            continue
        if not a.real and a2.cj == a.cj:
            continue
        for pos in (0, 1):
            v = a.idx[pos].as_var()
            if isinstance(v, str) and v in bd and a2.idx[pos] is a.idx[pos] and v not in a.idx[1 - pos].fv:
                # v must occur nowhere else
                if v in a2.idx[1 - pos].fv:
                    continue
                if any(v in x.fv for q, (x, _) in enumerate(fs) if q not in (i, k)):
                    continue
                if any(v in d.fv for w, d in b if w != v):
                    continue
                nf = []
                for q, (x, ee) in enumerate(fs):
                    if q in (i, k):
                        ee = ee - 1
                        if ee == 0:
                            continue
                    nf.append((x, ee))
                _use("eigv")
                d = delta(a.idx[1 - pos], a2.idx[1 - pos])
                m = (c, tuple((w, dd) for w, dd in b if w != v), tuple(nf))
                return [T.attach(m, t) for t in d.terms]
    # reconstruction: sum_m V[x,m] w[m] conj V[y,m] = A[x,y]
    if isinstance(va, str) and va in bd:
        r = eig_reconstruct(c, b, fs, i, va)
        if r is not None:
            return r
    if isinstance(vi, str) and vi in bd:
        rule = eig_rule(a)
        r = T.try_rule(rule, c, b, fs)
        if r is not None:
            _use("eigv")
            return r
    return None


def eig_reconstruct(c, b, fs, i, v):
    a, e = fs[i]
    k2 = kw = None
    for k, (x, ex) in enumerate(fs):
        if k == i or v not in x.fv:
            continue
        if x.kind == "lam" and x.name == "eigv" and ex == 1 and k2 is None and eig_key(x) == eig_key(a) and (a.real or x.cj != a.cj) and x.idx[1] is a.idx[1]:
            k2 = k
        elif x.kind == "lam" and x.name == "eigw" and ex in (1, -1) and kw is None and eig_key(x) == eig_key(a) and x.idx[0] is a.idx[1]:
            kw = k
        else:
            return None
    if k2 is None or kw is None or e != 1 or v in a.idx[0].fv or v in fs[k2][0].idx[0].fv:
        return None
    if any(v in d.fv for w, d in b if w != v):
        return None
    row, col = (a.idx[0], fs[k2][0].idx[0])
    if a.cj:
        row, col = col, row
    vs, bodies = lam_open(a)
    if fs[kw][1] == -1:
        A = mk_lam("inv", vs, bodies, (row, col))
    else:
        A = subst(bodies[0], {vs[0][0]: row, vs[1][0]: col})
    nf = tuple(x for k, x in enumerate(fs) if k not in (i, k2, kw))
    _use("eigv")
    m = (c, tuple((w, dd) for w, dd in b if w != v), nf)
    return [T.attach(m, t) for t in A.terms]


def eig_rule(a):
    """sum_j A[x,j] V[j,m] -> w[m] V[x,m];   for conj: sum_i conj V[i,m] A[i,x] -> w[m] conj V[x,m]"""

    def build():
        vs, bodies = lam_open(a)
        (r, dr), (c, dc) = vs
        body = bodies[0]
        x, k, j = T.fresh("_m"), T.fresh("_p"), T.fresh("_m")
        if a.cj:
            m = subst(body, {r: IX.var(k), c: IX.var(x)})
        else:
            m = subst(body, {r: IX.var(x), c: IX.var(k)})
        mk_v = lambda i_: patom(T._intern_atom("lam", "eigv", (i_, IX.var(j)), a.args, a.lam, a.cj, a.real, a.sign))
        va = T._intern_atom("lam", "eigv", (IX.var(k), IX.var(j)), a.args, a.lam, a.cj, a.real, a.sign)
        w = patom(T._intern_atom("lam", "eigw", (IX.var(j),), a.args, a.lam, False, True, eig_sign(a)))
        L = lead_term(m)
        cf, b, f = m.terms[L]
        ren = {v: IX.var(T.fresh("_p")) for v, _ in b}
        b2 = tuple((ren[v].as_var(), d.subst(ren)) for v, d in b)
        f2 = tuple((T.atom_subst1(t, ren), e) for t, e in f)
        rest = T.normalize(P(tuple(t for q, t in enumerate(m.terms) if q != L)))
        rhs = psub(pmul(w, mk_v(IX.var(x))), T.psum(pmul(rest, patom(va)), k, dr))
        rhs = T.pscale(rhs, 1 / cf)
        return Rule("eigh", [x, j], ((k, dr),) + b2, f2 + ((va, ONE),), lambda sol: subst(rhs, sol))

    return body_rules(a, "E", build)


def psd_body_sign(args, lam):
    """sign of the spectrum of the Hermitian matrix body: 'nonneg' if x^H body x >= 0 is established"""
    body = args[0]
    ck = ("psdbody", body.id, tuple(lam))
    r = T.CTX.cache.get(ck, 0)
    if r != 0:
        return r
    T.CTX.cache[ck] = None
    T.CTX.decl.setdefault("@x", dict(real=False, sign=None))
    (r_, dr), (c_, dc) = lam
    s2 = {r_: IX.var(T.fresh()), c_: IX.var(T.fresh())}
    b2 = subst(body, s2)
    rr, cc = s2[r_], s2[c_]
    q = pmul(patom(T.el("@x", (rr,), True)), b2, patom(T.el("@x", (cc,))))
    q = T.psum(T.psum(q, rr.as_var(), dr), cc.as_var(), dc)
    r = "nonneg" if T.psign(q) is not None else None
    T.CTX.cache[ck] = r
    return r


def eig_sign(a):
    return psd_body_sign(a.args, a.lam)


T.LAM_INFO["eigw"]["sign"] = psd_body_sign
T.DYN_RULES["eigv"] = dyn_eigv
T.LAM_HOOK["eigw"] = eig_scale("eigw")
T.LAM_HOOK["eigv"] = eig_scale("eigv")


def mk_eigw(lam, body, a_ix, sign=None):
    return T.mk_lam("eigw", lam, [body], (a_ix,))


# ---------------------------------------------------------------- cholesky
T.LAM_INFO["chol"] = {"real": lambda args, lam: T.is_real(args[0])}


def dyn_chol(c, b, fs, i):
    a, e = fs[i]
    if isinstance(e, P) or e < 1:
        return None
    bd = dict(b)
    v = a.idx[1].as_var()
    if not (isinstance(v, str) and v in bd):
        return None
    for k, (a2, e2) in enumerate(fs):
        if k == i or a2.kind != "lam" or a2.name != "chol" or isinstance(e2, P) or e2 < 1:
            continue
        if eig_key(a2) != eig_key(a) or (not a.real and a2.cj == a.cj):
            continue
        if a2.idx[1] is not a.idx[1] or v in a.idx[0].fv or v in a2.idx[0].fv:
            continue
        if any(v in x.fv for q, (x, _) in enumerate(fs) if q not in (i, k)):
            continue
        nf = []
        for q, (x, ee) in enumerate(fs):
            if q in (i, k):
                ee = ee - 1
                if ee == 0:
                    continue
            nf.append((x, ee))
        vs, bodies = lam_open(a)
        row, col = (a.idx[0], a2.idx[0]) if not a.cj else (a2.idx[0], a.idx[0])
        A = subst(bodies[0], {vs[0][0]: row, vs[1][0]: col})
        _use("chol")
        m = (c, tuple((w, dd) for w, dd in b if w != v), tuple(nf))
        return [T.attach(m, t) for t in A.terms]
    return None


T.DYN_RULES["chol"] = dyn_chol
