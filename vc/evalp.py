"""numeric evaluation of terms: used to cross-check the engine against the real numpy"""

import itertools
import math

import numpy as np

from . import terms as T


class CannotEval(Exception):
    pass


def eval_ix(ix, env):
    r = 0
    for m, c in ix.t:
        p = c
        for v in m:
            p = p * eval_iv(v, env)
        r += p
    return r


def eval_iv(v, env):
    if isinstance(v, str):
        if v not in env["dims"]:
            raise CannotEval("index %s" % v)
        return int(env["dims"][v])
    a = [eval_ix(x, env) for x in v.args]
    if v.name == "div":
        return a[0] // a[1]
    if v.name == "mod":
        return a[0] % a[1]
    if v.name in ("min", "max"):
        return min(a) if v.name == "min" else max(a)
    if v.name in env["arrays"]:
        return int(env["arrays"][v.name][tuple(a)])
    raise CannotEval("int %s" % v.name)


def eval_p(p, env):
    tot = 0.0
    for c, b, f in p.terms:
        tot = tot + float(c) * eval_sum(list(b), f, env)
    return tot


def eval_sum(b, f, env):
    if not b:
        # Iverson factors first (guards)
        r = 1.0
        for a, e in sorted(f, key=lambda ae: 0 if ae[0].kind in ("iv", "ivd") else 1):
            x = eval_atom(a, env)
            if a.kind in ("iv", "ivd"):
                if x == 0:
                    return 0.0
                continue
            ee = eval_p(e, env) if isinstance(e, T.P) else (int(e) if e.denominator == 1 else float(e))
            if isinstance(ee, complex):
                ee = ee.real
            r = r * (x**ee if ee != 1 else x)
        return r
    v, d = b[0]
    n = eval_ix(d, env)
    old = env["dims"].get(v)
    s = 0.0
    for k in range(n):
        env["dims"][v] = k
        s = s + eval_sum(b[1:], f, env)
    if old is None:
        env["dims"].pop(v, None)
    else:
        env["dims"][v] = old
    return s


def eval_atom(a, env):
    k = a.kind
    if k == "el":
        if a.name not in env["arrays"]:
            raise CannotEval("array " + a.name)
        x = env["arrays"][a.name]
        idx = tuple(eval_ix(i, env) for i in a.idx)
        if any(i < 0 or i >= n for i, n in zip(idx, np.shape(x))):
            raise CannotEval("index out of range %s%s" % (a.name, idx))
        r = x[idx] if idx else x
        return np.conj(r) if a.cj else r
    if k == "int":
        return float(eval_ix(a.idx[0], env))
    if k == "iv":
        v = eval_ix(a.idx[0], env)
        return 1.0 if (v == 0 if a.name == "eq0" else v >= 0) else 0.0
    if k == "ivd":
        v = eval_p(a.args[0], env)
        v = abs(v) if a.name == "eq0" else np.real(v)
        return 1.0 if (v == 0 if a.name == "eq0" else v >= 0) else 0.0
    if k == "unit":
        return 1j
    if k == "num":
        return float(a.name[1:])
    if k == "fn":
        x = [eval_p(q, env) for q in a.args]
        n = a.name
        if n == "base":
            r = x[0]
        elif n == "abs":
            r = abs(x[0])
        elif n == "log":
            r = np.log(np.real(x[0])) if abs(np.imag(x[0])) < 1e-9 else np.log(x[0])
        elif n == "exp":
            r = np.exp(x[0])
        elif n == "max":
            r = max(np.real(x[0]), np.real(x[1]))
        elif n == "min":
            r = min(np.real(x[0]), np.real(x[1]))
        elif n == "sign":
            r = np.sign(np.real(x[0]))
        elif n in env["ufns"]:
            r = env["ufns"][n](x[0])
        else:
            raise CannotEval("function " + n)
        return np.conj(r) if a.cj else r
    if k == "lam":
        if len(a.lam) == 2 and a.name in ("inv", "lad", "eigv", "eigw", "chol"):
            (r, dr), (c, dc) = a.lam
            n = eval_ix(dr, env)
            m = np.zeros((n, n), dtype=complex)
            key = (a.args[0].id, tuple(sorted((v, env["dims"].get(v)) for v in a.args[0].fv if v not in (r, c))), n)
            cache = env.setdefault("cache", {})
            if key in cache:
                m = cache[key]
            else:
                old = {v: env["dims"].get(v) for v in (r, c)}
                for i in range(n):
                    for j in range(n):
                        env["dims"][r], env["dims"][c] = i, j
                        m[i, j] = eval_p(a.args[0], env)
                for v in old:
                    if old[v] is None:
                        env["dims"].pop(v, None)
                    else:
                        env["dims"][v] = old[v]
                cache[key] = m
            idx = tuple(eval_ix(i, env) for i in a.idx)
            if a.name == "inv":
                x = np.linalg.inv(m)[idx]
            elif a.name == "lad":
                x = np.linalg.slogdet(m)[1]
            elif a.name == "eigw":
                x = np.linalg.eigh(m)[0][idx]
            elif a.name == "eigv":
                x = np.linalg.eigh(m)[1][idx]
            else:
                x = np.linalg.cholesky(m)[idx]
            return np.conj(x) if a.cj else x
        raise CannotEval("operator " + a.name)
    raise CannotEval(k)


def conform(symtrace, numcx, limit=40, tol=1e-6):
    """compare the symbolic values of forall sides with the values computed by the real code.

    symtrace: list of (label, index vars, lhs P, rhs P, facts). returns (compared, mismatches)
    """
    env = {"dims": dict(numcx.dims), "arrays": dict(numcx.inputs), "ufns": numcx.ufns}
    by = {}
    for lab, idx, l, r in numcx.trace:
        by.setdefault(lab, []).append((idx, l, r))
    n = 0
    mism = []
    for lab, vs, l, r, facts in symtrace:
        if n >= limit:
            break
        try:
            ok = True
            for kind, ix in facts:
                if kind == "data":
                    ok = False
                    break
                if any(isinstance(v, str) and v.startswith("_") for v in ix.fv):
                    continue
                x = eval_ix(ix, env)
                ok = ok and {"ge0": x >= 0, "eq0": x == 0, "ne0": x != 0}[kind]
            if not ok:
                continue
            for idx, ln, rn in by.get(lab, ())[:2]:
                if len(idx) != len(vs):
                    continue
                for v, k in zip(vs, idx):
                    if isinstance(v, str):
                        env["dims"][v] = k
                env["cache"] = {}
                for p, num in ((l, ln), (r, rn)):
                    x = eval_p(p, env)
                    num = complex(np.asarray(num).reshape(()))
                    n += 1
                    if not abs(x - num) <= tol * (1 + abs(num)):
                        mism.append((lab, idx, complex(x), num))
        except CannotEval:
            continue
        except (ZeroDivisionError, OverflowError, np.linalg.LinAlgError, TypeError, ValueError):
            continue
    return n, mism
