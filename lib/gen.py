"""Direct use of generate_images_from_flow, and vectorised measurements on many single-particle images."""
import math
import numpy as np


def generate(seed, flow, gs, bounds, res=(1.0, 1.0), mask=None, histogram=None, calls=1):
    """calls batches for consecutive keys: (images1, images2, params), concatenated over the calls."""
    import jax, jax.numpy as jnp
    from synthpix.data_generate import generate_images_from_flow
    f = jax.jit(lambda key, fl: generate_images_from_flow(key=key, flow_field=fl, parameters=gs, position_bounds=tuple(bounds), flow_field_res_x=res[0], flow_field_res_y=res[1], mask=mask, histogram=histogram))
    fl = jnp.asarray(flow, jnp.float32)
    a, b, p = [], [], []
    for k in range(calls):
        i1, i2, pa = f(jax.random.PRNGKey(seed * 1000 + k), fl)
        a.append(np.asarray(i1, np.float64)); b.append(np.asarray(i2, np.float64))
        p.append({n: np.asarray(getattr(pa, n)) for n in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")})
    return np.concatenate(a), np.concatenate(b), {n: np.concatenate([q[n] for q in p]) for n in p[0]}


_Y, _X = np.mgrid[-1:2, -1:2]
_PINV = np.linalg.pinv(np.stack([np.ones(9), _X.ravel(), _Y.ravel(), _X.ravel() ** 2, _X.ravel() * _Y.ravel(), _Y.ravel() ** 2], 1))


def fit_many(imgs):
    """Gaussian fitted to the brightest spot of each image: dict of arrays y, x, peak, dx, dy, rho and ok (False: no usable spot)."""
    n, H, W = imgs.shape
    j = imgs.reshape(n, -1).argmax(1)
    y, x = j // W, j % W
    inner = (y > 0) & (y < H - 1) & (x > 0) & (x < W - 1)
    yc, xc = np.clip(y, 1, H - 2), np.clip(x, 1, W - 2)
    w = imgs[np.arange(n)[:, None], (yc[:, None] + _Y.ravel()), (xc[:, None] + _X.ravel())]
    ok = inner & (w > 1e-25).all(1)
    c = np.log(np.where(w > 1e-25, w, 1)) @ _PINV.T
    qxx, qxy, qyy = -2 * c[:, 3], -c[:, 4], -2 * c[:, 5]
    det = qxx * qyy - qxy ** 2
    ok &= (det > 0) & (qxx > 0)
    det = np.where(ok, det, 1)
    sxx, syy, sxy = qyy / det, qxx / det, -qxy / det
    mx, my = sxx * c[:, 1] + sxy * c[:, 2], sxy * c[:, 1] + syy * c[:, 2]
    ok &= (np.abs(mx) < 2) & (np.abs(my) < 2) & (sxx > 0) & (syy > 0)
    sxx, syy = np.where(ok, sxx, 1), np.where(ok, syy, 1)
    with np.errstate(over="ignore"):
        peak = np.exp(np.where(ok, c[:, 0] + .5 * (c[:, 1] * mx + c[:, 2] * my), 0))
    return dict(y=yc + my, x=xc + mx, peak=peak, dx=2 * np.sqrt(sxx), dy=2 * np.sqrt(syy), rho=sxy / np.sqrt(sxx * syy), ok=ok)


def spot_mass(d, lattice=9):
    """Mean lattice sum of a unit Gaussian of diameter d over random sub-pixel positions (patch radius int(3 d / 2))."""
    pr = int(3 * d / 2)
    k = np.arange(-pr, pr + 1)
    m = [np.exp(-(k - f) ** 2 / (2 * (d / 2) ** 2)).sum() for f in (np.arange(50) + .5) / 50]
    return float(np.mean(m)) ** 2


def binom_ok(k, n, p, level=1e-9):
    """True unless observing k successes in n trials of probability p is rarer than level (exact tails by log sums)."""
    if n == 0:
        return True
    if p <= 0:
        return k == 0
    if p >= 1:
        return k == n
    def logpmf(i):
        return math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p)
    rng = range(k, n + 1) if k > n * p else range(0, k + 1)
    return sum(math.exp(logpmf(i)) for i in rng) > level


def corr_ok(a, b, z=6.5):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    if a.size < 30 or a.std() == 0 or b.std() == 0:
        return True
    return abs(np.corrcoef(a, b)[0, 1]) <= z / math.sqrt(a.size)


def ks(u):
    """Kolmogorov-Smirnov statistic times sqrt(n) of values that should be uniform on (0, 1); 3.4 has probability 2e-10."""
    u = np.sort(np.asarray(u, float).ravel())
    n = len(u)
    return float(max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)) * math.sqrt(n))
