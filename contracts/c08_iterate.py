"""Iteration bookkeeping (C08): the shared iteration driver, and resumption of every determined method."""

import numpy as np

from vc.explore import LoopSpec
from vc.registry import contract, bounded
from contracts.c01_driver import CASES, FD, ICA, IL, IPS, run_driver

BASE = "ssspy.bss.base"


def tracer(base, log, losses):
    class Method(base.IterativeMethodBase):
        def update_once(self):
            log.append("update")

        def compute_loss(self):
            log.append("loss")
            losses.append(len(losses) + 0.5)
            return losses[-1]

    return Method


CALLBACKS = {"no callback": None, "single callable": 0, "empty list": [], "one callback": [0], "two callbacks": [0, 1], "three callbacks": [0, 1, 2]}

for cbn, cbs in CALLBACKS.items():
    for rec in (True, False):
        for ini in (True, False):

            @contract("IterativeMethodBase iteration, %s, record_loss=%s, initial_call=%s" % (cbn, rec, ini), "C08", "bss.base.IterativeMethodBase.__call__ bss.base.IterativeMethodBase.__init__", samples=4)
            def iterate(c, cbs=cbs, rec=rec, ini=ini):
                """every iteration: one update, then the loss of the state after it is appended, then every callback in order with
                the method object; before the loop the same without update exactly when requested"""
                base = c.load(BASE)
                log, losses = [], []
                mk = lambda k: lambda o: log.append(("callback", k, o))
                arg = None if cbs is None else mk(0) if cbs == 0 else [mk(k) for k in cbs]
                ks = [] if cbs is None else [0] if cbs == 0 else cbs
                m = tracer(base, log, losses)(callbacks=arg, record_loss=rec)
                n = c.dim("n_iter", 0)
                step = (["loss"] if rec else []) + [("callback", k, m) for k in ks]
                st0 = dict(vars(m))
                c.ensure("history starts empty exactly when losses are recorded", m.loss == [] if rec else m.loss is None)

                def check(cx, k, old, new):
                    done = log[pre[0] :]
                    cx.ensure("one iteration: update, loss of the new state, callbacks in order", done == ["update"] + step, repr(done))
                    if rec:
                        cx.ensure("history gains exactly the loss of this iteration", len(m.loss) == pre[1] + 1 and m.loss[-1] == losses[-1])
                    cx.ensure("nothing else of the method changes", {a: b for a, b in vars(m).items() if a != "loss"} == {a: b for a, b in st0.items() if a != "loss"})

                pre = []

                def init(cx, st):
                    pre[:] = [len(log), len(m.loss) if rec else 0]
                    cx.ensure("before the loop: initial evaluation exactly when requested", log == (step if ini else []), repr(log))
                    cx.ensure("initial loss recorded exactly when requested", not rec or m.loss == losses)

                sp = LoopSpec({}, check=check, init=init)
                c.loops(sp)
                r = m(n_iter=n, initial_call=ini)
                if c.symbolic:
                    if sp.entry is None:
                        raise NotImplementedError
                    c.ensure_int("exactly n_iter iterations", sp.n == n)
                    c.ensure("nothing after the loop", log[pre[0] :] == [], repr(log[pre[0] :]))
                else:
                    c.ensure("full trace", log == (step if ini else []) + (["update"] + step) * n, repr(log)[:200])
                    c.ensure("history", (m.loss == losses and len(losses) == n + (1 if ini else 0)) if rec else m.loss is None)
                    m(n_iter=2, initial_call=False)
                    c.ensure("resumed trace", log == (step if ini else []) + (["update"] + step) * (n + 2))
                    c.ensure("resumed history", (m.loss == losses and len(losses) == n + 2 + (1 if ini else 0)) if rec else m.loss is None)


@contract("IterativeMethodBase default arguments", "C08", "bss.base.IterativeMethodBase.__call__", samples=1)
def defaults(c):
    """100 iterations with an initial evaluation unless the caller says otherwise"""
    base = c.load(BASE)
    log, losses = [], []
    m = tracer(base, log, losses)()
    m()
    c.ensure("defaults: initial evaluation and 100 iterations, losses recorded", log == ["loss"] + ["update", "loss"] * 100 and m.loss == losses)
    c.raises("abstract update", NotImplementedError, lambda: base.IterativeMethodBase().update_once())
    c.raises("abstract loss", NotImplementedError, lambda: base.IterativeMethodBase().compute_loss())


# ---------------------------------------------------------------- resumption
SKIP = {"input", "output", "whitened_input", "variance"}


def arrays(m):
    return {k: v for k, v in vars(m).items() if hasattr(v, "shape") and hasattr(v, "ndim") and k not in SKIP}


def run_resume(c, mod, cls, kwf, mode, scale, extra):
    md = c.load(mod)
    N, J = c.dim("N", 2, nhi=3), c.dim("J", 2, nlo=8)
    I = None if mod == ICA else c.dim("I", 1, nlo=2)
    if not c.symbolic:
        c.require(J >= 2 * N and N <= 3)
    kd = "f" if mod == ICA else "c"
    X = c.array("X", (N, J) if I is None else (N, I, J), kd)
    kw = dict(kwf(c), record_loss=True)
    if scale:
        kw["scale_restoration"] = False
    if mod == FD:
        kw["permutation_alignment"] = False
    state, args = {}, []
    if extra is not None:
        K, state = extra(c, N, I, J)
        args = K if isinstance(K, list) else [K]
    if c.symbolic:
        m = getattr(md, cls)(*args, **kw)
        base = c.load("ssspy.bss.base").IterativeMethodBase
        if mode == "white":
            Z = c.array("Z", X.shape, kd)
            c.stub(md, "whiten", lambda x: Z.copy())
        left, calls = {}, []

        def iterate(self, *a, n_iter=100, initial_call=True, **k):
            calls.append((n_iter, initial_call))
            now = arrays(self)
            if len(calls) == 1:
                for name, v in now.items():
                    left[name] = c.fresh_array("left_" + name, v.shape, v.kind)
                    setattr(self, name, left[name].copy())
                self.loss.append(0.5)
            else:
                c.ensure("the second run has the same state variables", set(now) == set(left), "%s / %s" % (sorted(now), sorted(left)))
                for name, v in now.items():
                    if name in left:
                        c.shape("shape of %s" % name, v, left[name].shape)
                        c.forall("the second run starts from the %s the first one left" % name, list(v.shape), lambda *ix: (v[ix], left[name][ix]))
                c.ensure("history is kept", self.loss == [0.5])
                c.forall("the second run sees the mixture", list(X.shape), lambda *ix: (self.input[ix], X[ix]))

        c.stub(base, "__call__", iterate)
        m(X, n_iter=c.dim("n1", 0), initial_call=True, **state)
        m(X, n_iter=c.dim("n2", 0), initial_call=False)
        c.ensure("two iterations runs", len(calls) == 2)
        c.ensure("history is kept at the end", m.loss == [0.5])
        return
    n1, n2 = int(c.rng.integers(0, 3)), int(c.rng.integers(0, 3))
    c.require(n1 + n2 > 0)
    seen = []

    def cb(o):
        seen.append(("a", len(o.loss), o.compute_loss() == o.loss[-1] or abs(o.compute_loss() - o.loss[-1]) <= 1e-9 * (1 + abs(o.loss[-1]))))

    def cb2(o):
        seen.append(("b", len(o.loss), True))

    def make(**k):
        r = dict(rng=np.random.default_rng(1)) if mod in (IL, IPS) else {}
        return getattr(md, cls)(*args, **dict(kw, **r, **k))

    m, q = make(), make(callbacks=[cb, cb2])
    m(X, n_iter=n1 + n2, **state)
    q(X, n_iter=n1, **state)
    c.ensure("one history entry per iteration plus the initial one", len(m.loss) == 1 + n1 + n2, "%d" % len(m.loss))
    want = [(n, k, True) for k in range(1, 2 + n1) for n in "ab"]
    c.ensure("callbacks in order, each seeing the state its loss was computed from", seen == want, repr(seen))
    c.require(not any(np.isnan(v) for v in m.loss))
    q(X, n_iter=n2, initial_call=False)
    big = lambda v: np.clip(v, -1e12, 1e12)  # the first ADMM filter is zero from zero auxiliaries: infinite loss
    c.forall("resumed run records the same losses", [1 + n1 + n2], lambda k: (big(q.loss[k]), big(m.loss[k])))
    A, B = arrays(m), arrays(q)
    c.ensure("same state variables", set(A) == set(B))
    for name in A:
        if A[name].dtype.kind in "fc":
            c.forall("resumed run ends with the same %s" % name, list(A[name].shape), lambda *ix: (A[name][ix], B[name][ix]))
    c.forall("resumed run returns the same signals", list(X.shape), lambda *ix: (m.output[ix], q.output[ix]))


for mod, cls, kwf, mode, tag, scale, extra in CASES:
    if mode == "signal":
        continue

    @contract("%s%s resumption" % (cls, " " + tag if tag else ""), "C08", "bss.%s.%s.__call__ bss.%s.%s._reset" % ((mod.split(".")[-1], cls) * 2), samples=3)
    def resume(c, a=(mod, cls, kwf, mode, scale, extra)):
        run_resume(c, *a)


@bounded("iteration history in signal mode", "C08", "2 sources, 3 bins, 8 frames; 0 to 2 + 0 to 2 iterations; every signal-mode (ISS, IPA) class and algorithm", "signal mode keeps no filter: the second call has no symbolic state to start from")
def signal_history(b):
    for mod, cls, kwf, mode, tag, scale, extra in CASES:
        if mode != "signal":
            continue
        md = b.load(mod)
        with b.case("%s %s: two calls" % (cls, tag)):
            X = b.rng.standard_normal((2, 3, 8)) + 1j * b.rng.standard_normal((2, 3, 8))
            kw = dict(kwf(b), record_loss=True, scale_restoration=False)
            args = []
            if extra is not None:
                args = [2]
            n1, n2 = 1 + int(b.rng.integers(0, 2)), 1 + int(b.rng.integers(0, 2))
            seen = []
            cb = lambda o: seen.append(("a", len(o.loss), abs(o.compute_loss() - o.loss[-1]) <= 1e-9 * (1 + abs(o.loss[-1]))))
            cb2 = lambda o: seen.append(("b", len(o.loss), True))
            make = lambda **k: getattr(md, cls)(*args, **dict(kw, **(dict(rng=np.random.default_rng(1)) if mod == IL else {}), **k))
            m, q = make(), make(callbacks=[cb, cb2])
            m(X, n_iter=n1 + n2)
            q(X, n_iter=n1)
            b.check("one history entry per iteration plus the initial one", len(m.loss) == 1 + n1 + n2)
            b.check("callbacks in order, each seeing the state its loss was computed from", seen == [(n, k, True) for k in range(1, 2 + n1) for n in "ab"], repr(seen))
            ok, _ = b.attempt("a second call continues from the first", lambda: q(X, n_iter=n2, initial_call=False))
            if ok:
                b.close("resumed run records the same losses", q.loss, m.loss)
                b.close("resumed run returns the same signals", q.output, m.output)
