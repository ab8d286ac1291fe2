"""assumptions shared by every proof"""
BASE = [
    "the verifier itself: path explorer, numpy facade, term normaliser (vc/*.py), cross-checked numerically against the real numpy on every run (engine_conformance)",
    "z3 for integer side conditions",
    "CPython semantics of the executed source (the real functions are executed by CPython on symbolic arrays)",
    "extraction: each `for` statement is wrapped so that a loop of symbolic length goes through its loop contract; numpy is replaced by the facade; nothing else is dropped",
]
ASSUMPTIONS = [
    "machine floating point is treated as exact real/complex arithmetic (no rounding, overflow or NaN)",
    "denominators, and matrices that are inverted, are nonzero/nonsingular (domain of the formulas)",
    "array dtypes are the documented ones (float64 / complex128); broadcasting and indexing follow numpy's documentation",
]
