"""Float64 multilinear interpolation with edge clamping, used as the oracle by several checks."""
import numpy as np


def ref(v, coords):
    """Returns (value, smallest and largest grid value that contributes); coords are per axis of v."""
    v = np.asarray(v)
    lo, hi, w = [], [], []
    for c, n in zip(coords, v.shape):
        c = np.clip(np.asarray(c, np.float64), 0, n - 1)
        a = np.minimum(np.floor(c).astype(int), max(n - 2, 0))
        lo.append(a); hi.append(np.minimum(a + 1, n - 1)); w.append(c - a)
    out, mn, mx = 0.0, np.inf, -np.inf
    for bits in range(2 ** v.ndim):
        idx = tuple(hi[k] if bits >> k & 1 else lo[k] for k in range(v.ndim))
        f = np.ones(np.shape(coords[0]))
        for k in range(v.ndim):
            f = f * (w[k] if bits >> k & 1 else 1 - w[k])
        x = v[idx].astype(np.float64)
        out = out + f * x
        used = f > 0
        mn, mx = np.where(used, np.minimum(mn, x), mn), np.where(used, np.maximum(mx, x), mx)
    return out, mn, mx
