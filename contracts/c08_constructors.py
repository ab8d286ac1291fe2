"""Postconditions of every public constructor: the method object carries exactly the options it was given (through every level of
super().__init__), and the documented defaults otherwise. C08 for the iteration options (callbacks, loss recording), C02 for the scale
options, C18 for the alignment option and, for the numerical options, the property whose equations they enter."""

import inspect

from vc.registry import contract

B = "ssspy.bss."
fn = lambda *a: (lambda *x, **k: None)

#: option -> (non-default value maker, default)
STEP = ("step_size", lambda: 0.37, None)
FL = ("flooring_fn", lambda: (lambda x: x), None)

NUM = {  # numerical options: nondefault value, default
    "step_size": (0.37, 0.1),
    "is_holonomic": (None, None),  # set per class
    "mu1": (0.31, 1),
    "mu2": (0.71, 1),
    "rho": (0.63, 1),
    "relaxation": (1.3, 1),
    "attenuation": (0.41, None),
    "mask_iter": (3, 1),
    "domain": (1.5, 2),
    "normalization": ("power", True),
    "source_normalization": (False, True),
    "partitioning": (True, False),
    "n_basis": (5, None),
    "n_blocks": (3, None),
    "n_sources": (4, None),
    "dof": (7, None),
    "beta": (1.25, None),
}

MODS = {
    "ica": ["GradICA", "NaturalGradICA", "FastICA", "GradLaplaceICA", "NaturalGradLaplaceICA"],
    "fdica": ["GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "AuxLaplaceFDICA"],
    "iva": ["GradIVA", "NaturalGradIVA", "FastIVA", "FasterIVA", "AuxIVA", "PDSIVA", "ADMMIVA", "GradLaplaceIVA", "GradGaussIVA", "NaturalGradLaplaceIVA", "NaturalGradGaussIVA", "AuxLaplaceIVA", "AuxGaussIVA"],
    "ilrma": ["GaussILRMA", "TILRMA", "GGDILRMA"],
    "ipsdta": ["GaussIPSDTA", "TIPSDTA"],
    "mnmf": ["GaussMNMF", "FastGaussMNMF"],
    "cacgmm": ["CACGMM"],
    "pdsbss": ["PDSBSS", "MaskingPDSBSS"],
    "admmbss": ["ADMMBSS", "MaskingADMMBSS"],
    "hva": ["MaskingPDSHVA", "MaskingADMMHVA", "HVA"],
}
REQUIRED = ("contrast_fn", "score_fn", "d_contrast_fn", "dd_contrast_fn", "d_score_fn", "prox_penalty", "mask_fn", "n_basis", "n_blocks", "dof", "beta")
ITER = ("callbacks", "record_loss")
SCALE = ("scale_restoration", "reference_id")
PROP = {"fdica": "C14", "ica": "C14", "iva": "C06", "ilrma": "C04", "ipsdta": "C04", "mnmf": "C16", "cacgmm": "C17", "pdsbss": "C12", "admmbss": "C12", "hva": "C12"}


def build(cls, given):
    sig = inspect.signature(cls.__init__).parameters
    kw = {}
    for k in REQUIRED:
        if k in sig and k not in given:
            kw[k] = NUM[k][0] if k in NUM else fn()
    if "penalty_fn" in sig and "penalty_fn" not in given:
        given = dict(given, penalty_fn=fn())
    kw.update(given)
    return cls(**kw), kw


def same(a, b):
    return a is b or (type(a) in (int, float, bool, str) and type(b) in (int, float, bool, str) and a == b)


for mod, names in MODS.items():
    for cls in names:

        @contract("%s keeps its iteration options" % cls, "C08", "bss.%s.%s.__init__" % (mod, cls), samples=1)
        def iteration(c, mod=mod, cls=cls):
            K = getattr(c.load(B + mod), cls)
            sig = inspect.signature(K.__init__).parameters
            pen = dict(penalty_fn=fn()) if "penalty_fn" in sig else {}
            hva = mod == "hva"  # no closed-form penalty: losses cannot be recorded
            f, g = fn(), fn()
            for cbs in ([f, g], [f], f):
                for rec in (False,) if hva else (True, False):
                    m, _ = build(K, dict(pen, callbacks=cbs, record_loss=rec))
                    got = m.callbacks
                    want = cbs if isinstance(cbs, list) else [cbs]
                    c.ensure("callbacks, in order", got is not None and len(got) == len(want) and all(a is b for a, b in zip(got, want)))
                    c.ensure("loss recording as asked", bool(m.record_loss) is rec and (m.loss == [] if rec else m.loss is None))
            m, _ = build(K, dict(pen))
            c.ensure("no callback by default", not m.callbacks)
            c.ensure("losses recorded by default", not hva and m.record_loss is True and m.loss == [] or hva and not m.record_loss and m.loss is None)
            if mod in ("pdsbss", "admmbss") and cls.startswith("Masking"):
                m, _ = build(K, dict(penalty_fn=None))
                c.ensure("no loss recorded without a penalty", not m.record_loss and m.loss is None)

        if mod not in ("ica",):

            @contract("%s keeps its scale options" % cls, "C02", "bss.%s.%s.__init__" % (mod, cls), samples=1)
            def scale(c, mod=mod, cls=cls):
                K = getattr(c.load(B + mod), cls)
                sig = inspect.signature(K.__init__).parameters
                if "scale_restoration" in sig:
                    for v in (False, "projection_back", "minimal_distortion_principle", True):
                        m, _ = build(K, dict(scale_restoration=v))
                        c.ensure("scale restoration as asked", same(m.scale_restoration, v))
                    m, _ = build(K, {})
                    c.ensure("scale restored by default", m.scale_restoration is True)
                if "reference_id" in sig:
                    for v in (0, 1, 3):
                        m, _ = build(K, dict(reference_id=v))
                        c.ensure("reference channel as asked", same(m.reference_id, v))
                    m, _ = build(K, {})
                    c.ensure("first channel by default", same(m.reference_id, 0))

        @contract("%s keeps its numerical options" % cls, PROP[mod] + (" C18" if mod in ("fdica", "cacgmm") else ""), "bss.%s.%s.__init__" % (mod, cls), samples=1)
        def numerical(c, mod=mod, cls=cls):
            K = getattr(c.load(B + mod), cls)
            sig = inspect.signature(K.__init__).parameters
            for k, p in sig.items():
                vals = None
                if k in NUM and k != "is_holonomic":
                    vals = [NUM[k][0]]
                elif k == "is_holonomic":
                    vals = [True, False]
                elif k in ("flooring_fn", "pair_selector", "rng") or k in REQUIRED:
                    vals = [fn()]
                    if k == "rng":
                        import numpy as np

                        vals = [np.random.default_rng(3)]
                    if k == "pair_selector":
                        vals = None if mod == "mnmf" and False else [fn()]
                elif k == "spatial_algorithm":
                    vals = ["VCD"] if mod == "ipsdta" else ["IP1", "IP2"] if mod == "fdica" else ["IP1", "IP2", "ISS1", "ISS2"]
                elif k == "diagonalizer_algorithm":
                    vals = ["IP1", "IP2"]
                elif k == "source_algorithm":
                    vals = ["MM", "ME"] if mod == "ilrma" and cls != "GGDILRMA" else ["MM"]
                elif k == "permutation_alignment":
                    vals = [False, True, "amplitude_score"]
                for v in vals or []:
                    g = {k: v}
                    if k == "normalization" and mod != "ilrma":
                        v = g[k] = False
                    if k == "partitioning" and cls == "FastGaussMNMF":
                        continue
                    if k == "domain":
                        g["source_algorithm"] = "MM"
                    if k == "partitioning" and "n_sources" in sig:
                        g["n_sources"] = 3
                    if k == "pair_selector":
                        g["diagonalizer_algorithm" if mod == "mnmf" else "spatial_algorithm"] = "IP2"
                    m, _ = build(K, g)
                    if not hasattr(m, k):
                        c.ensure("option %s kept" % k, False, "no such attribute")
                        continue
                    got = getattr(m, k)
                    if isinstance(got, list) and not isinstance(v, list):
                        got = got[0] if len(got) == 1 else got
                    c.ensure("option %s kept" % k, same(got, v), "%r, given %r" % (got, v))
