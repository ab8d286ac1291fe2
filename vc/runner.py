"""decide one property: run its contracts (symbolically and on the real code) and its bounded stand-ins"""

import importlib
import json
import multiprocessing as mp
import os
import pickle
import pkgutil
import re
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_path():
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")


setup_path()

from . import registry as R  # noqa: E402


def load_all():
    for pkg in ("contracts", "bounded"):
        d = os.path.join(ROOT, pkg)
        for f in sorted(os.listdir(d) if os.path.isdir(d) else ()):
            if f.endswith(".py") and f != "__init__.py":
                name = "%s.%s" % (pkg, f[:-3])
                if name in sys.modules:
                    continue
                spec = importlib.util.spec_from_file_location(name, os.path.join(d, f))
                m = importlib.util.module_from_spec(spec)
                sys.modules[name] = m
                spec.loader.exec_module(m)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_lean(file, theorems, tier):
    """the Lean kernel re-checks every lemma; each theorem is an obligation"""
    import subprocess
    import tempfile

    t0 = time.time()
    src = open(os.path.join(ROOT, "lean", file)).read()
    names = ["Descent." + t for t in theorems]
    out = dict(kind="lean", name="lean/" + file, theorems=list(theorems), proved=[], error=None, wall=0.0)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, file)
        open(p, "w").write(src + "\n" + "".join("#print axioms %s\n" % n for n in names))
        try:
            r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=600, cwd=d)
            txt = r.stdout + r.stderr
            if r.returncode:
                out["error"] = txt[-500:]
            else:
                for t, n in zip(theorems, names):
                    m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]" % re.escape(n), txt)
                    ax = set(re.split(r"[,\s]+", m.group(1).strip())) if m else None
                    if ax is not None and ax <= {"propext", "Classical.choice", "Quot.sound"}:
                        out["proved"].append(t)
        except (OSError, subprocess.TimeoutExpired) as e:
            out["error"] = "%s: %s" % (type(e).__name__, e)
    out["wall"] = time.time() - t0
    return out


def seen_dims(runs):
    return [d for _, d in runs if d]


def run_contract(con, prop, tier, seed, support=False):
    """in a child process"""
    from . import explore as E, numeric as N, evalp, loader, terms as T
    from .symnp import Unsupported  # noqa

    sys.setrecursionlimit(30000)
    out = dict(kind="contract", name=con.name, under=con.under, obligations=[], unsupported=[], paths=0, numeric=[], samples=0, skipped=0, evals=0, conform=0, conform_bad=[], assumptions=[], wall=0.0, z3_time=0.0, z3_calls=0)
    t0 = time.time()
    limit = con.timeout * (3 if tier == "thorough" else 1)
    sym = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit) + 20)
    try:
        sym = E.run_symbolic(con, timeout=limit)
        out["obligations"] = [dict(o.as_dict(), model=o.model, datapath=o.datapath) for o in sym["obligations"]]
        out["unsupported"] = sym["unsupported"]
        out["paths"] = sym["paths"]
        out["pathdims"] = sym["pathdims"]
        out["assumptions"] = sorted(sym["assumptions"])
    except Timeout:
        out["unsupported"].append("time limit")
    except MemoryError:
        out["unsupported"].append("memory limit")
    finally:
        signal.alarm(0)
    out["sym_wall"] = time.time() - t0
    out["z3_time"], out["z3_calls"] = T.STATS["z3_time"], T.STATS["z3_calls"]
    if support:
        out["wall"] = time.time() - t0
        out["support"] = True
        return out
    # ---- replay on the real code
    n = con.samples * (6 if tier == "thorough" else 1)
    seeds = [seed * 1000003 + k * 7919 for k in range(n)]
    runs = [(s, None) for s in seeds]
    failed = [o for o in out["obligations"] if o["status"] == "failed"]
    seen = set()
    for o in failed:
        m = o.get("model")
        if m:
            key = tuple(sorted(m.items()))
            if key not in seen and len(seen) < 12:
                seen.add(key)
                runs += [(seed * 31 + 5 + k, m) for k in range(4)]
    if failed:
        runs += [(seed * 77 + 13 + k, None) for k in range(20)]
    signal.alarm(int(min(300, 60 + limit)))
    lin = 0
    # sizes at which the code takes a path of its own (no path of the unchanged code needs sizes beyond the sampled ones)
    far = [d for d in out.get("pathdims", ()) if d not in seen_dims(runs) and max(d.values()) <= 2100][:6]
    runs += [(seed * 37 + 11 + k, d) for d in far for k in range(2)]
    try:
        for k, (s, dims) in enumerate(runs):
            st, viol, cx = N.run_numeric(con, s, dims, big=(k % 3 == 2))
            if st == "skip":
                out["skipped"] += 1
                lin += cx.linalg is not None
                continue
            out["samples"] += 1
            out["evals"] += cx.checked
            for lab, det in viol[:3]:
                out["numeric"].append(dict(label=lab, detail=det, seed=s, dims=dict(cx.dims), force=dims, big=(k % 3 == 2), err=cx.err.get(lab, 1.0)))
            if sym is not None and not viol and k < 3 and sym.get("symtrace"):
                a, mis = evalp.conform(sym["symtrace"], cx)
                out["conform"] += a
                out["conform_bad"] += [str(x) for x in mis[:3]]
            if len(out["numeric"]) >= 6:
                break
        # a singular instance is skipped; a routine that fails on every instance is not
        if out["samples"] == 0 and lin >= 2:
            tot = bad = 0
            for k in range(16):
                st, viol, cx = N.run_numeric(con, seed * 191 + 3 + 211 * k, None, big=(k % 3 == 2))
                if st != "skip":
                    tot += 1
                elif cx.linalg is not None:
                    bad += 1
                    last = (seed * 191 + 3 + 211 * k, dict(cx.dims), (k % 3 == 2), cx.linalg)
            if tot == 0 and bad >= 6:
                lab = "no exception on any feasible path"
                out["numeric"].append(dict(label=lab, detail="LinAlgError on every instance: %s" % last[3], seed=last[0], dims=last[1], force=None, big=last[2], err=1.0))
        # rounding in an ill-conditioned instance is not a violation: a small difference has to recur on fresh inputs
        if out["numeric"] and all(v["err"] < 1e-2 for v in out["numeric"]):
            labs = set(v["label"] for v in out["numeric"])
            hit = tot = 0
            for k in range(24):
                st, viol, cx = N.run_numeric(con, seed * 131 + 7 + 101 * k, out["numeric"][0]["force"], big=(k % 3 == 2))
                if st == "skip":
                    continue
                tot += 1
                hit += any(l in labs for l, _ in viol)
                if any(cx.err.get(l, 1.0) >= 1e-2 for l, _ in viol):
                    hit += 24
            if hit < 0.15 * tot or not tot:
                out["inconclusive"] = out["numeric"]
                out["numeric"] = []
    except Timeout:
        out["unsupported"].append("replay time limit")
    finally:
        signal.alarm(0)
    out["wall"] = time.time() - t0
    return out


def run_bounded(bd, prop, tier, seed, known):
    from . import numeric as N

    t0 = time.time()
    b = N.BoundedCx(bd.name, prop, tier, seed, known)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(1500 if tier == "thorough" else 600)
    import warnings

    import numpy as np

    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            bd.fn(b)
    except Timeout:
        err = "time limit"
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        b.viol.append(("no exception", "case %s: %s: %s at %s:%s" % (b.case_id, type(e).__name__, e, tb[-1].filename, tb[-1].lineno)))
    finally:
        signal.alarm(0)
    return dict(kind="bounded", name=bd.name, bound=bd.bound, reason=bd.reason, cases=b.cases, evals=b.n, viol=b.viol, known=b.known_hit, error=err, wall=time.time() - t0)


def _child(conn, kind, name, prop, tier, seed, known):
    try:
        if kind != "lean":
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.stdout = open(os.devnull, "w")
        if not os.environ.get("VERIF_DEBUG"):
            sys.stderr = open(os.devnull, "w")
        if kind == "lean":
            r = run_lean(name, known, tier)
        elif kind in ("contract", "support"):
            con = [c for c in R.CONTRACTS if c.name == name][0]
            r = run_contract(con, prop, tier, seed, kind == "support")
        else:
            bd = [c for c in R.BOUNDED if c.name == name][0]
            r = run_bounded(bd, prop, tier, seed, known)
    except BaseException as e:  # noqa
        r = dict(kind=kind, name=name, crash="%s: %s %s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:])))
    try:
        conn.send(r)
    except Exception as e:  # noqa
        conn.send(dict(kind=kind, name=name, crash="unpicklable result %s" % e))
    conn.close()


def run_jobs(jobs, njobs=8, hard=840):
    """jobs: list of arg tuples for _child (after conn)"""
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = {}
    res = []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < njobs:
            a = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w,) + a)
            p.start()
            w.close()
            live[r] = (p, a, time.time())
        ready = mp.connection.wait(list(live), timeout=1.0)
        for r in ready:
            p, a, t = live.pop(r)
            try:
                res.append(r.recv())
            except EOFError:
                res.append(dict(kind=a[0], name=a[1], crash="worker died"))
            p.join()
        if time.time() - t0 > hard:
            for r, (p, a, t) in live.items():
                p.kill()
                p.join()
                res.append(dict(kind=a[0], name=a[1], crash="hard time limit"))
            for a in todo:
                res.append(dict(kind=a[0], name=a[1], crash="hard time limit (not started)"))
            break
    return res


def load_known():
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def safe(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)[:80]


def write_replay(prop, name, label, body):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, safe(name), safe(label)))
    json.dump(body, open(p, "w"), indent=1, default=str)
    return os.path.relpath(p, ROOT)


def decide(prop, tier, seed, only=None):
    load_all()
    t0 = time.time()
    known = load_known()
    kn = [k for k in known if k.get("property") == prop and k.get("status", "known") == "known"]
    cons = [c for c in R.CONTRACTS if prop in c.props and (only is None or re.search(only, c.name))]
    bnds = [c for c in R.BOUNDED if prop in c.props and (only is None or re.search(only, c.name))]
    jobs = [("bounded", b.name, prop, tier, seed, kn) for b in bnds]
    jobs += [("contract", c.name, prop, tier, seed, kn) for c in sorted(cons, key=lambda c: -c.timeout)]
    sup = [c for c in R.CONTRACTS if prop not in c.props and any(p == prop and re.search(x, c.name) for p, x in R.SUPPORT) and (only is None or re.search(only, c.name))]
    jobs += [("support", c.name, prop, tier, seed, kn) for c in sup]
    if only is None or only == "lean":
        jobs = [("lean", f, prop, tier, seed, th) for p, f, th in R.LEAN if p == prop] + jobs
    leanrep = []
    res = run_jobs(jobs, hard=840 if tier == "quick" else 7200)
    lines, nviol = [], 0
    obl = dis = 0
    und, brk, conf, confbad = [], [], 0, []
    functions, assumptions = set(), set()
    by_backend = {}
    bounded_rep = []
    z3t = z3c = 0
    evals = 0
    cdetail = []
    known_lines = []
    inconclusive = []
    for r in sorted(res, key=lambda r: r["name"]):
        if r.get("crash"):
            und.append("%s: %s" % (r["name"], r["crash"]))
            if r["kind"] in ("contract", "support"):
                obl += 1
            continue
        if r["kind"] == "lean":
            leanrep.append(r)
            obl += len(r["theorems"])
            dis += len(r["proved"])
            if r["proved"]:
                by_backend["Lean 4 kernel (Mathlib)"] = by_backend.get("Lean 4 kernel (Mathlib)", 0) + len(r["proved"])
            for t in r["theorems"]:
                if t not in r["proved"]:
                    und.append("%s: theorem %s not accepted: %s" % (r["name"], t, (r["error"] or "axioms")[:300]))
            continue
        if r["kind"] == "contract":
            functions |= set(r["under"])
            assumptions |= set(r["assumptions"])
            conf += r["conform"]
            confbad += ["%s: %s" % (r["name"], x) for x in r["conform_bad"]]
            z3t += r["z3_time"]
            z3c += r["z3_calls"]
            evals += r["evals"]
            ok = [o for o in r["obligations"] if o["status"] == "proved"]
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            for o in ok:
                by_backend[o["backend"]] = by_backend.get(o["backend"], 0) + 1
            obl += len(r["obligations"]) + len(r["unsupported"])
            dis += len(ok)
            cdetail.append(dict(contract=r["name"], supporting=bool(r.get("support")), functions=list(r["under"]), obligations=len(r["obligations"]) + len(r["unsupported"]), discharged=len(ok), paths=r["paths"], wall_s=round(r["wall"], 2), replays_on_real_code=r["samples"]))
            if r["numeric"]:
                v = r["numeric"][0]
                names = sorted(set(x["label"] for x in r["numeric"]))
                path = write_replay(prop, r["name"], v["label"], dict(property=prop, contract=r["name"], obligation=v["label"], failing_input=v, all_failing=r["numeric"], verifier_failed=[o for o in bad], rerun="./check %s --contract '%s' --replay-seed %s" % (prop, r["name"], v["seed"])))
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                lines.append("  contract %s, obligation(s) %s: %s [dims %s]" % (r["name"], names, v["detail"][:400], v["dims"]))
                nviol += 1
            else:
                if r.get("inconclusive"):
                    inconclusive += ["%s: %s %s" % (r["name"], v["label"], v["detail"][:200]) for v in r["inconclusive"][:3]]
                hard = [o for o in bad if o["datapath"] and not r.get("support")]
                if hard:
                    o = hard[0]
                    path = write_replay(prop, r["name"], o["obligation"], dict(property=prop, contract=r["name"], obligation=o["obligation"], verifier_output=hard, note="no failing input found by %d replays" % r["samples"]))
                    lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
                    nviol += 1
                for o in bad:
                    und.append("%s: obligation '%s' not discharged (path: %s): %s" % (r["name"], o["obligation"], o["path"], o["detail"][:300]))
            for u in r["unsupported"]:
                und.append("%s: outside the verifier's reach: %s" % (r["name"], u[:300]))
            if not r["obligations"] and not r["numeric"] and r["samples"] == 0 and not r.get("support"):
                und.append("%s: no obligation generated and no replay possible" % r["name"])
        else:
            bounded_rep.append(dict(name=r["name"], bound=r["bound"], reason_not_deductive=r["reason"], cases=r["cases"], evaluations=r["evals"], wall_s=round(r["wall"], 2), error=r["error"]))
            evals += r["evals"]
            if r["error"]:
                und.append("%s (bounded): %s" % (r["name"], r["error"]))
            for k, det in r["known"]:
                known_lines.append("KNOWN-FINDING: property=%s %s [%s; %s]" % (prop, k["what"], k["case"], k["label"]))
            if r["viol"]:
                lab, det = r["viol"][0]
                path = write_replay(prop, r["name"], lab, dict(property=prop, bounded_check=r["name"], label=lab, failing_case=det, all=r["viol"][:20], seed=seed, tier=tier))
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                for lab, det in r["viol"][:4]:
                    lines.append("  bounded check %s, %s: %s" % (r["name"], lab, det[:400]))
                nviol += 1
    if confbad:
        und.append("engine conformance mismatches: %d" % len(confbad))
    from . import trusted

    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="proof" if obl else "other",
        coverage=dict(
            obligations=obl,
            discharged=dis,
            checker_cmd="./check %s %s" % (prop, tier),
            trusted_base=trusted.BASE + sorted(assumptions),
            functions_under_contract=sorted(functions),
            discharged_by_backend=by_backend,
            solver_time_s=round(z3t, 2),
            solver_calls=z3c,
            contracts=cdetail,
            undischarged=und,
            lemmas_checked_by_lean=[dict(file=r["name"], theorems=r["proved"], wall_s=round(r["wall"], 1)) for r in leanrep],
            engine_conformance_comparisons=conf,
            engine_conformance_mismatches=confbad[:20],
            bounded_stand_ins_not_counted_as_proved=bounded_rep,
            replay_evaluations_on_real_code=evals,
            replays_set_aside_as_rounding_in_ill_conditioned_instances=inconclusive,
            explanation="obligations are generated from /repo's current source by symbolic execution of the real functions for all dimensions and values and discharged by the normaliser / z3; bounded entries are concrete executions and are never counted as proved",
        ),
        assumptions=trusted.ASSUMPTIONS + sorted(assumptions),
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    return lines, known_lines, ev, nviol


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--contract", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    lines, known, ev, nviol = decide(a.prop, a.tier, seed, a.contract)
    c = ev["coverage"]
    print("%s: %d obligations, %d discharged, %d bounded cases, %d evaluations on the real code, %.1f s" % (a.prop, c["obligations"], c["discharged"], sum(b["cases"] for b in c["bounded_stand_ins_not_counted_as_proved"]), c["replay_evaluations_on_real_code"], ev["wall_s"]))
    if a.v:
        for d in c["contracts"]:
            print("   ", d["contract"], "%d/%d" % (d["discharged"], d["obligations"]), "paths", d["paths"], "replays", d["replays_on_real_code"], d["wall_s"], "s")
        for b in c["bounded_stand_ins_not_counted_as_proved"]:
            print("    [bounded]", b["name"], b["cases"], "cases", b["evaluations"], "evals", b["wall_s"], "s", b["error"] or "")
        print("    conformance", c["engine_conformance_comparisons"], c["engine_conformance_mismatches"][:5])
    for u in c["undischarged"][: 12 if a.v else 6]:
        print("  not discharged:", u[:500 if a.v else 160].replace("\n", " "))
    if len(c["undischarged"]) > (12 if a.v else 6):
        print("  ... %d not discharged in total" % len(c["undischarged"]))
    for k in known:
        print(k)
    for l in lines:
        print(l)
    return 1 if nviol else 0
