"""Comparison of two runs of the same processing

Two runs on equal input may differ in their last bits: which instructions numpy takes for complex numbers
depends on where in memory the arrays happen to be.
"""
import numpy as np


def number(x):
    if isinstance(x, str):
        try:
            x = float(x)
        except ValueError:
            return None
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else None


def largest(x):
    """The largest size of the numbers in lists in lists"""
    if isinstance(x, (list, tuple)):
        return max([largest(v) for v in x] or [0])
    x = number(x)
    return 0 if x is None or x != x or abs(x) == float("inf") else abs(x)


def differs(a, b, exact, rtol, scale=0):
    """Where two pictures differ by more than rounding

    The last bits of arithmetic depend on where in memory the arrays are (vector instructions)
    """
    if a == b:
        return None
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            # the parts of a complex array
            beside = largest([a.get("real"), a.get("imag")]) if k in ("real", "imag") else 0
            found = differs(a[k], b[k], exact, rtol, beside)
            if found:
                return f"{k}.{found}"
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 and isinstance(a[2], bytes):
        if a[:2] != b[:2]:
            return f"array {a[:2]} {b[:2]}"
        x, y = (np.frombuffer(v[2], dtype=v[0]).reshape(v[1]) if v[0] != "object" else None for v in (a, b))
        if x is None or x.dtype.kind not in "fc":
            return f"values of {a[:2]}"
        exact.append(a[:2])
        single = x.dtype in (np.dtype("float32"), np.dtype("complex64"))
        tol = max(rtol, 2e-5 if single else 1e-10)
        size = np.max(np.abs(x[np.isfinite(x)])) if np.isfinite(x).any() else 0
        return None if np.allclose(x, y, rtol=tol, atol=tol * size, equal_nan=True) else f"values of {a[:2]}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"length {len(a)} {len(b)}"
        size = max(scale, largest(a))
        for k, (v, w) in enumerate(zip(a, b)):
            found = differs(v, w, exact, rtol, size)
            if found:
                return f"{k}.{found}"
        return None
    x, y = number(a), number(b)
    if x is None or y is None:
        return f"{a!r} {b!r}"[:200]
    if x != x and y != y:
        return None
    exact.append((x, y))
    return None if abs(x - y) <= rtol * max(abs(x), abs(y), scale) else f"{x!r} {y!r}"


def run_differs(a, b, rtol=1e-10):
    """Where the pictures (build.snapshot) of two runs differ"""
    return differs(a, b, [], rtol)
