"""Synthetic sampler harness: stub schedulers, sampler construction, particle measurements."""
import math
import numpy as np


def names(k, n):
    """File names of flow batch k: distinct, in no sorted order."""
    return tuple(f"batch{k}/flow{(7 + 37 * i + 3 * k) % 101}" for i in range(n))


class Stub:
    """Scheduler that serves recorded flow batches and logs every request.

    make_batch(k, n) -> array (n, H, W, 2) for the k-th request since the last reset."""

    def __init__(self, make_batch, shape, mask=None, total=None):
        self.make_batch, self.shape, self.maskf, self.total = make_batch, tuple(shape), mask, total
        self.k, self.log, self.file_list, self.resets = 0, [], ["stub"], 0

    def get_batch(self, batch_size):
        from synthpix.types import SchedulerData
        if self.total is not None and self.k >= self.total:
            raise StopIteration
        a = np.asarray(self.make_batch(self.k, batch_size), np.float32)
        m = np.ones(batch_size, bool) if self.maskf is None else np.asarray(self.maskf(self.k, batch_size))
        self.log.append((self.k, batch_size))
        b = SchedulerData(flow_fields=a, mask=m, files=names(self.k, batch_size))
        self.k += 1
        return b

    def get_flow_fields_shape(self):
        return self.shape

    def reset(self):
        self.k = 0
        self.resets += 1

    def shutdown(self):
        pass


def spec(**kw):
    from synthpix.types import ImageGenerationSpecification
    d = dict(batch_size=1, image_shape=(48, 48), img_offset=(8.0, 8.0), seeding_density_range=(0.01, 0.01), p_hide_img1=0.0, p_hide_img2=0.0,
             diameter_ranges=[(2.0, 2.0)], diameter_var=0.0, intensity_ranges=[(100.0, 100.0)], intensity_var=0.0, rho_ranges=[(0.0, 0.0)], rho_var=0.0, dt=1.0,
             noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0)
    d.update(kw)
    return ImageGenerationSpecification(**d)


def sampler(sch, gs, *, size, resolution=1.0, vpp=1.0, seed=0, speeds=(1.0, 1.0, 0.0, 0.0), units="pixels", flows=1, reuse=1, devices=None, mask=None, histogram=None):
    """speeds = (max_x, max_y, min_x, min_y)."""
    from synthpix.sampler import SyntheticImageSampler
    return SyntheticImageSampler(sch, reuse, flows, tuple(size), resolution, vpp, seed, *speeds, units, devices, gs, mask, histogram)


def shifted(a, dy, dx):
    """a moved by (dy, dx) pixels; NaN where nothing is known."""
    out = np.full(a.shape, np.nan)
    H, W = a.shape
    ys, xs = slice(max(0, dy), min(H, H + dy)), slice(max(0, dx), min(W, W + dx))
    ys0, xs0 = slice(max(0, -dy), min(H, H - dy)), slice(max(0, -dx), min(W, W - dx))
    out[ys, xs] = a[ys0, xs0]
    return out


def moved_by(im1, im2, dy, dx, margin):
    """Largest deviation of im2 from im1 moved by whole pixels, away from the border."""
    d = np.abs(shifted(np.asarray(im1, float), dy, dx) - np.asarray(im2, float))
    m = margin
    d = d[m + max(0, dy):d.shape[0] - m + min(0, dy), m + max(0, dx):d.shape[1] - m + min(0, dx)]
    return float(np.max(d)) if d.size else 0.0


def motion(im1, im2, reach):
    """Whole-pixel displacement (dy, dx) that best explains im2, by exhaustive search, and its residual."""
    best = None
    for dy in range(-reach, reach + 1):
        for dx in range(-reach, reach + 1):
            d = (shifted(np.asarray(im1, float), dy, dx) - np.asarray(im2, float))
            r = float(np.nanmean(np.abs(d)))
            if best is None or r < best[0]:
                best = (r, dy, dx)
    return best[1], best[2], best[0]


def spots(img, sep, margin, level):
    """Isolated bright spots: list of (y, x, peak) with sub-pixel position and peak from a log-quadratic fit (exact for an isolated Gaussian)."""
    a = np.asarray(img, np.float64)
    H, W = a.shape
    ys, xs = np.where(a > level)
    cand = []
    for y, x in zip(ys, xs):
        if 1 <= y < H - 1 and 1 <= x < W - 1:
            w = a[y - 1:y + 2, x - 1:x + 2]
            if a[y, x] >= w.max() and np.sum(w == a[y, x]) <= 2:
                cand.append((y, x))
    keep = []
    for i, (y, x) in enumerate(cand):
        if not (margin <= y < H - margin and margin <= x < W - margin):
            continue
        if any(j != i and max(abs(y - v), abs(x - u)) <= sep for j, (v, u) in enumerate(cand)):
            continue
        f = fit(a, y, x)
        if f is not None:
            keep.append(f)
    return keep


_PINV = {}


def fit(a, y, x, r=1):
    """Log-quadratic least-squares fit of a Gaussian around pixel (y, x): dict(y, x, peak, sx, sy, rho) or None."""
    if r not in _PINV:
        Y, X = np.mgrid[-r:r + 1, -r:r + 1]
        A = np.stack([np.ones(Y.size), X.ravel(), Y.ravel(), X.ravel() ** 2, X.ravel() * Y.ravel(), Y.ravel() ** 2], 1)
        _PINV[r] = np.linalg.pinv(A)
    w = a[y - r:y + r + 1, x - r:x + r + 1]
    if w.shape != (2 * r + 1, 2 * r + 1) or np.any(w <= 0):
        return None
    c = _PINV[r] @ np.log(w.ravel())
    Q = -np.array([[2 * c[3], c[4]], [c[4], 2 * c[5]]])       # inverse covariance (x, y)
    if np.linalg.det(Q) <= 0 or Q[0, 0] <= 0:
        return None
    S = np.linalg.inv(Q)
    mu = S @ np.array([c[1], c[2]])
    if np.max(np.abs(mu)) > 1.2:
        return None
    peak = math.exp(c[0] + .5 * float(np.array([c[1], c[2]]) @ mu))
    sx, sy = math.sqrt(S[0, 0]), math.sqrt(S[1, 1])
    return dict(y=y + float(mu[1]), x=x + float(mu[0]), peak=peak, sx=sx, sy=sy, rho=float(S[0, 1] / (sx * sy)))
