"""Whole-pixel motion pipelines: every flow field is a distinct constant integer displacement."""
import random
import numpy as np
from synth import Stub, spec, sampler, moved_by

MARGIN = 9


def setup(c, devices=None, mask=None):
    """c: dict(H, W, B, F, reuse, res, dt, seed, speed, dens, hide, grid, units, offset extras...).
    Returns (stub, sampler, disp) where disp[k][i] = (dy, dx) pixels of flow i in flow batch k."""
    r = random.Random(c["seed"])
    res, dt, H, W, F, m = c["res"], c["dt"], c["H"], c["W"], c["F"], c["speed"]
    pool = [(a, b) for a in range(-m, m + 1) for b in range(-m, m + 1)]
    disp = {}

    def d(k):
        if k not in disp:
            prev = set(disp.get(k - 1, []))
            q = [p for p in pool if p not in prev]
            q = q if len(q) >= F else pool
            disp[k] = [q[j % len(q)] for j in random.Random(c["seed"] * 1000 + k).sample(range(len(q)), min(F, len(q)))]
            while len(disp[k]) < F:
                disp[k].append(r.choice(pool))
        return disp[k]
    v = 1.0 / (res * dt)                       # velocity of one pixel per frame
    gy, gx = c["grid"]
    ext = c["extra"]
    off = (m / res + ext[0] / res, m / res + ext[1] / res)
    size = (off[0] + (H + m) / res + ext[2] / res, off[1] + (W + m) / res + ext[3] / res)

    def mk(k, n):
        a = np.zeros((n, gy, gx, 2), np.float32)
        for i in range(n):
            dy, dx = d(k)[i]
            a[i, ..., 0], a[i, ..., 1] = dx * v, dy * v
        return a
    st = Stub(mk, (gy, gx, 2), mask=lambda k, n: [(k + i) % 3 > 0 for i in range(n)], total=c.get("total"))
    gs = spec(batch_size=c["B"], image_shape=(H, W), img_offset=off, seeding_density_range=(c["dens"],) * 2, dt=dt, p_hide_img1=0.0, p_hide_img2=0.0,
              diameter_ranges=[(2.0, 2.0)], intensity_ranges=[(100.0, 100.0)])
    s = sampler(st, gs, size=size, resolution=res, vpp=c.get("vpp", 1.0), seed=c["seed"] % 97, speeds=(m * v, m * v, -m * v, -m * v), units=c["units"], flows=F, reuse=c["reuse"], devices=devices, mask=mask)
    return st, s, d


def flow_px(fl, c):
    """(dy, dx) in pixels per frame of a returned constant flow, or None if it is not constant."""
    f = fl.reshape(-1, 2).astype(float)
    if c["units"] != "pixels":
        f = f * c["res"] * c["dt"]
    if np.ptp(f, axis=0).max() > 1e-3:
        return None
    return float(f[0, 1]), float(f[0, 0])


def check_entry(ctx, c, im1, im2, fl, what):
    """The image pair shows the motion returned with it. Returns the displacement or None."""
    p = flow_px(fl, c)
    if not ctx.check(p is not None and all(abs(x - round(x)) < 1e-3 for x in p), "flow-altered", lambda: f"{what}: returned flow {fl.reshape(-1, 2)[:3].tolist()}"):
        return None
    dy, dx = round(p[0]), round(p[1])
    inner = im1[MARGIN:-MARGIN, MARGIN:-MARGIN]
    if inner.size and inner.max() > 20:
        r = moved_by(im1, im2, dy, dx, MARGIN)
        ctx.event("entries-measured")
        if not ctx.check(r < .5, "motion-differs-from-flow", lambda: f"{what}: returned flow moves ({dy}, {dx}), images differ from that by {r:.1f} grey levels"):
            return None
    return dy, dx


def random_case(rng, **kw):
    H, W = rng.choice([(36, 36), (34, 40), (44, 33)])
    B = rng.choice([1, 2, 3, 4, 5, 7, 8])
    res = rng.choice([1.0, 1.0, 2.0, 10.0, 155.0, .5, 3.0])
    m = rng.choice([1, 2, 3])
    c = dict(H=H, W=W, B=B, F=rng.choice([1, B, rng.randint(1, B)]), reuse=rng.choice([1, 1, 2, 3, 5]), res=res, dt=rng.choice([1.0, 1.0, .5, .026, 4.0]), seed=rng.randrange(10**6),
             speed=m, dens=rng.choice([.02, .04]), grid=[rng.choice([8, 21, 48, 60]), rng.choice([9, 20, 50, 64])], extra=[rng.choice([.01, .6, 3.0, 8.0]) for _ in range(4)],
             units=rng.choice(["pixels", "measure units per second"]), vpp=rng.choice([1.0, 1.0, .5, 2.0]))
    c.update(kw)
    return c
