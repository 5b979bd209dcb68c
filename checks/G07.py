"""G07: histogram matching is a monotone remap onto the requested histogram."""
import random
from fractions import Fraction
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 12 == 0:
            yield dict(kind="pair", H=rng.randint(16, 40), W=rng.randint(16, 40), hist=rng.choice(["flat", "peak", "dark", "random"]), noise=rng.choice([0.0, 30.0]), route=rng.choice(["constructor", "config", "direct"]), mask=rng.random() < .2, seed=rng.randrange(1000))
        elif k % 12 in (5, 8):
            yield dict(kind="bad", bad=rng.choice(["short", "sum", "sum-less", "2d", "zero", "255 bins", "missing"]), H=rng.randint(8, 30), W=rng.randint(8, 30), route=rng.choice(["constructor", "config"]), seed=rng.randrange(1000))
        else:
            yield dict(kind="match", H=rng.choice([1, 8, 16, 31, 64, 130, 256]), W=rng.choice([1, 8, 20, 64, 128]), src=rng.choice(["uniform", "dark", "two", "const", "fraction", "ends", "all-levels", "gauss"]), hist=rng.choice(["flat", "peak", "dark", "random", "own", "sparse", "spike0", "spike255", "other-image"]), dtype=rng.choice(["float32", "float32", "uint8"]), seed=rng.randrange(10 ** 9))


def levels(src):
    import numpy as np
    return np.clip(np.floor(np.asarray(src, np.float64)), 0, 255).astype(int)


def template(r, kind, n, own):
    """Whole-number template of 256 levels that sums to n."""
    import numpy as np
    w = {"flat": lambda: np.ones(256), "peak": lambda: np.exp(-(np.arange(256) - 120.) ** 2 / 200), "dark": lambda: np.exp(-np.arange(256) / 12.), "random": lambda: r.random(256), "sparse": lambda: (r.random(256) < .04) + 0.0,
         "spike0": lambda: (np.arange(256) == 0) * 1.0, "spike255": lambda: (np.arange(256) == 255) * 1.0, "other-image": lambda: r.random(256) ** 4}.get(kind, lambda: own * 1.0)()
    if kind == "own":
        return own
    if w.sum() == 0:
        w[77] = 1
    h = r.multinomial(n, w / w.sum())
    return h


def oracle(lev, hist):
    """For each source level present: the admissible output levels (a set; several only when shares tie within float rounding)."""
    import numpy as np
    n, t = lev.size, int(hist.sum())
    cs = np.cumsum(np.bincount(lev.ravel(), minlength=256))
    ct = np.cumsum(hist)
    out = {}
    for a in np.unique(lev):
        exact = next((j for j in range(256) if int(ct[j]) * n >= int(cs[a]) * t), 255)
        out[int(a)] = exact
    return out, cs, ct


def judge(ctx, src, got, hist, what):
    import numpy as np
    lev = levels(src)
    got = np.asarray(got, np.float64)
    if not ctx.check(got.shape == lev.shape, "shape", lambda: f"{what}: {got.shape}"):
        return
    want, cs, ct = oracle(lev, hist)
    prev, prev_a = -1.0, None
    n, t = lev.size, int(hist.sum())
    for a, w in want.items():
        vals = np.unique(got[lev == a])
        if not ctx.check(len(vals) == 1, "level-split", lambda: f"{what}: pixels of level {a} mapped to {vals[:5]}"):
            return
        ctx.check(vals[0] >= prev, "order", lambda: f"{what}: level {prev_a} goes to {prev} but level {a} to {vals[0]}")
        if vals[0] != w:
            # a tie up to float32 rounding of the shares is no error
            tie = vals[0] == int(vals[0]) and 0 <= vals[0] <= 255 and all(abs(Fraction(int(ct[j]), t) - Fraction(int(cs[a]), n)) <= Fraction(1, 4_000_000) for j in range(int(min(vals[0], w)), int(max(vals[0], w))))
            ctx.check(tie, "wrong-level", lambda: f"{what}: level {a} (share {cs[a]}/{n}) goes to {vals[0]}, the smallest template level reaching it is {w} (share {ct[w]}/{t})")
        prev, prev_a = vals[0], a
        ctx.event("levels")


def run(ctx, c):
    import numpy as np, jax.numpy as jnp, os
    from synthpix.utils import match_histogram
    from gen import generate
    from synth import spec, sampler, Stub
    r = np.random.default_rng(c["seed"])
    H, W = c["H"], c["W"]
    n = H * W
    if c["kind"] == "match":
        src = {"uniform": lambda: r.integers(0, 256, (H, W)), "dark": lambda: np.minimum(255, r.exponential(12, (H, W))), "two": lambda: r.choice([3, 200], (H, W)), "const": lambda: np.full((H, W), 17), "fraction": lambda: r.uniform(0, 255, (H, W)),
               "ends": lambda: r.choice([0, 255], (H, W)), "all-levels": lambda: np.resize(np.arange(256), (H, W)), "gauss": lambda: np.clip(r.normal(120, 40, (H, W)), 0, 255)}[c["src"]]().astype(c["dtype"])
        own = np.bincount(levels(src).ravel(), minlength=256)
        hist = template(r, c["hist"], n, own)
        got = np.asarray(match_histogram(jnp.asarray(src), jnp.asarray(hist, jnp.float32)))
        what = f"{H}x{W} {c['src']} {c['dtype']} image onto '{c['hist']}'"
        ctx.check(got.dtype == src.dtype, "type", lambda: f"{what}: {got.dtype}")
        judge(ctx, src, got, hist, what)
        g = levels(got)
        cg = np.cumsum(np.bincount(g.ravel(), minlength=256))
        ctx.check((cg <= np.cumsum(hist) + 1 + 1e-6 * n).all(), "cumulative", lambda: f"{what}: cumulative histogram exceeds the template's")
        if c["hist"] == "own":
            ctx.check(np.array_equal(g, levels(src)), "own-histogram", lambda: f"{what}: matching to the image's own histogram changed {(g != levels(src)).sum()} pixels")
            ctx.event("own")
        ctx.event("matched"); ctx.nontrivial(c["src"], c["hist"], c["dtype"], H, W)
        return
    stub = lambda: Stub(lambda k, m: np.full((m, 9, 9, 2), .4, np.float32), (9, 9, 2))
    kw = dict(batch_size=2, image_shape=(H, W), seeding_density_range=(.05, .08), diameter_ranges=[(1.0, 3.0)], intensity_ranges=[(100.0, 250.0)])

    def make(route, hist, mask=None, file=True):
        if route == "constructor":
            return sampler(stub(), spec(**kw, img_offset=(4.0, 4.0), noise_uniform=c.get("noise", 0.0)), size=(H + 9.0, W + 9.0), seed=c["seed"], histogram=None if hist is None else jnp.asarray(hist, jnp.float32), mask=mask, devices=[0])
        from synthpix.sampler import SyntheticImageSampler
        cfg = dict(kw, img_offset=[4.0, 4.0], image_shape=[H, W], seeding_density_range=[.05, .08], diameter_ranges=[[1.0, 3.0]], intensity_ranges=[[100.0, 250.0]], rho_ranges=[[0.0, 0.0]], rho_var=0.0, dt=1.0, p_hide_img1=0.0, p_hide_img2=0.0, diameter_var=0.0, intensity_var=0.0,
                   noise_uniform=c.get("noise", 0.0), noise_gaussian_mean=0.0, noise_gaussian_std=0.0, batches_per_flow_batch=1, flow_fields_per_batch=1, flow_field_size=[H + 9.0, W + 9.0], resolution=1.0, velocities_per_pixel=1.0, seed=c["seed"],
                   max_speed_x=1.0, max_speed_y=1.0, min_speed_x=0.0, min_speed_y=0.0, output_units="pixels", device_ids=[0])
        d = ctx.tmp()
        if hist is not None:
            cfg["histogram"] = os.path.join(d, "h.npy")
            if file:
                np.save(cfg["histogram"], hist)
        if mask is not None:
            cfg["mask"] = os.path.join(d, "m.npy")
            np.save(cfg["mask"], np.asarray(mask))
        return SyntheticImageSampler.from_config(stub(), cfg)

    if c["kind"] == "bad":
        h = template(r, "random", n, None).astype(float)
        b = {"short": lambda: h[:200] * n / h[:200].sum(), "sum": lambda: h + n * .01 / 256, "sum-less": lambda: h * .99, "2d": lambda: h.reshape(16, 16), "zero": lambda: h * 0, "255 bins": lambda: np.r_[h[:254], h[254:].sum()], "missing": lambda: h}[c["bad"]]()
        if c["bad"] == "missing":
            c["route"] = "config"
        try:
            make(c["route"], b, file=c["bad"] != "missing")
            ctx.fail("bad-template-accepted", f"template with defect '{c['bad']}' (shape {b.shape}, sum {b.sum()}) accepted for {n} pixels ({c['route']})")
        except (ValueError, FileNotFoundError):
            ctx.event("rejected")
        ctx.nontrivial("bad", c["bad"], c["route"])
        return
    hist = template(r, c["hist"], n, None)
    mask = (r.random((H, W)) < .7).astype(np.int32) if c["mask"] else None
    if c["route"] == "direct":
        fl = np.full((1, 9, 9, 2), .1)
        g = spec(**kw, img_offset=(2, 3), noise_uniform=c["noise"])
        jm = None if mask is None else jnp.asarray(mask)
        a = generate(c["seed"], fl, g, (H + 5, W + 6), mask=jm)[:2]
        b = generate(c["seed"], fl, g, (H + 5, W + 6), mask=jm, histogram=jnp.asarray(hist, jnp.float32))[:2]
    else:
        jm = None if mask is None else jnp.asarray(mask)
        s0, s1 = make(c["route"], None, jm), make(c["route"], hist, jm)
        x, y = next(s0), next(s1)
        a, b = [np.asarray(z, np.float64) for z in (x.images1, x.images2)], [np.asarray(z, np.float64) for z in (y.images1, y.images2)]
        ctx.check(np.array_equal(np.asarray(x.flow_fields), np.asarray(y.flow_fields)), "flow-changed", "matching changes the flow fields")
    for nm, p, q in (("first", a[0], b[0]), ("second", a[1], b[1])):
        for i in range(2):
            # levels that change with the last float bit of a pixel value cannot be judged: skip images that have any
            if ((np.abs(p[i] - np.round(p[i])) < 1e-4) & (p[i] > .5) & (p[i] < 254.9)).any():
                ctx.event("undecidable")
                continue
            judge(ctx, p[i], q[i], hist, f"{nm} image {i} of a generated pair ({c['route']}), template '{c['hist']}'")
            ctx.event("pair-images")
    ctx.event("pairs"); ctx.nontrivial("pair", c["hist"], c["route"], c["noise"], c["mask"])


main(Spec("G07", cases, run,
          "matching of random, degenerate, fractional and extreme images onto random, sparse, spiked and own templates against an exact rational CDF oracle; generated pairs against the unmatched pair of the same seed; malformed templates; "
          "non-trivial: distinct (source, template, type, shape)",
          quick=200, thorough=12000, workers=(6, 8), quick_s=60, thorough_s=500, floors={"matched": 120, "own": 8, "rejected": 20, "pairs": 10, "pair-images": 4, "levels": 3000}))
