"""helpers for the runtime (bounded) side of the properties"""
import numpy as np

from dv.prop import Skip, Violation


def must(key, f, *a, **k):
    try:
        return f(*a, **k)
    except (Violation, Skip):
        raise
    except Exception as exc:
        raise Violation(f"{key}/raises", f"{type(exc).__name__}: {str(exc)[:300]}")


def check(key, cond, detail=""):
    if not cond:
        raise Violation(key, str(detail)[:800])


def same_arr(key, a, b, exact=True, tol=1e-9):
    b = np.asarray(b)
    if a is None:
        raise Violation(key, "None returned")
    a = np.asarray(a)
    if a.shape != b.shape:
        raise Violation(key, f"shape {a.shape} expected {b.shape}: got {a.tolist()!r:.300} expected {b.tolist()!r:.300}")
    try:
        ok = np.array_equal(a, b, equal_nan=True) if exact else np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    except TypeError:
        ok = np.array_equal(a, b)
    if not ok:
        raise Violation(key, f"got {a.tolist()!r:.300} expected {b.tolist()!r:.300}")


def nprng(rng):
    return np.random.RandomState(rng.randrange(2**31))


def quiet():
    import warnings
    warnings.simplefilter("ignore")
