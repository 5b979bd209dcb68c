"""G05: noise is added as configured and never leaves the valid range."""
import math, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        u = rng.choice([0.0, 0.0, 5.0, 30.0, 60, .5, 300.0])
        m, s = rng.choice([0.0, 0.0, 20.0, 60.0, 3, 200.0]), rng.choice([0.0, 0.0, 4.0, 8.0, 1, 100.0])
        kind = ("direct", "pair", "sampler")[k % 3]
        if kind != "direct" and rng.random() < .2:
            u = m = s = 0.0
        yield dict(dense=rng.random() < (.6 if u == m == s == 0 else .15), kind=kind, u=u, m=m, s=s, H=rng.choice([40, 64, 100]), W=rng.choice([40, 64, 81]), base=rng.choice(["zero", "mid", "random", "beyond"]), B=rng.choice([2, 4]), seed=rng.randrange(10000))


def noise_stats(ctx, res, u, m, s, what, where):
    """res: list of residual images (all unclipped), expected to be m + U(0, u) + N(0, s) per pixel, independent."""
    import numpy as np
    from gen import ks, corr_ok
    e = np.stack(res)
    n = e.size
    sd = math.sqrt(u * u / 12 + s * s)
    if sd == 0:
        ctx.check(np.abs(e - m).max() < 2e-3, f"{where}-mean", lambda: f"{what}: constant noise of {m} appears as {e.min()}..{e.max()}")
        return
    ctx.check(abs(e.mean() - m - u / 2) < 6.5 * sd / math.sqrt(n) + 1e-3, f"{where}-mean", lambda: f"{what}: mean noise {e.mean():.4f} over {n} pixels instead of {m + u / 2}")
    ctx.check(abs(e.var() / sd ** 2 - 1) < 9 * math.sqrt(2 / n) + 1e-3, f"{where}-variance", lambda: f"{what}: noise variance {e.var():.4f} over {n} pixels instead of {sd ** 2:.4f}")
    if s == 0:
        ctx.check(e.min() > m - 2e-3 and e.max() < m + u + 2e-3, f"{where}-range", lambda: f"{what}: uniform noise of amplitude {u} gives {e.min() - m}..{e.max() - m}")
        ctx.check(ks(np.clip((e - m) / u, 0, 1)) < 3.6, f"{where}-shape", lambda: f"{what}: noise not uniform over [0, {u})")
    elif u == 0:
        z = np.sort(((e - m) / s).ravel())
        cdf = .5 * (1 + np.vectorize(math.erf)(z / math.sqrt(2)))
        ctx.check(ks(cdf) < 3.6, f"{where}-shape", lambda: f"{what}: noise not normal")
    for k, a in enumerate(e):
        for nm, p, q in (("rows", a[1:], a[:-1]), ("columns", a[:, 1:], a[:, :-1])):
            ctx.check(corr_ok(p, q), f"{where}-not-per-pixel", lambda: f"{what}: noise of neighbouring {nm} correlates ({np.corrcoef(p.ravel(), q.ravel())[0, 1]:.3f})")
        if len(e) > 1:
            b = e[(k + 1) % len(e)]
            ctx.check(corr_ok(a, b), f"{where}-images-share-noise", lambda: f"{what}: noise of two images correlates ({np.corrcoef(a.ravel(), b.ravel())[0, 1]:.3f})")
    ctx.event("noise-pixels", n)


def run(ctx, c):
    import numpy as np, jax, jax.numpy as jnp
    from gen import generate
    from synth import spec, sampler, Stub
    u, m, s, H, W = c["u"], c["m"], c["s"], c["H"], c["W"]
    what = f"uniform {u}, mean {m}, deviation {s}, {c['kind']}"
    hidden = m + u + 6 * s
    if c["kind"] == "direct":
        from synthpix.generate import add_noise_to_image
        r = np.random.default_rng(c["seed"])
        img = {"zero": lambda: np.zeros((H, W)), "mid": lambda: np.full((H, W), 100.0), "random": lambda: r.uniform(0, 255, (H, W)), "beyond": lambda: r.uniform(-100, 600, (H, W))}[c["base"]]().astype(np.float32)
        outs = [np.asarray(add_noise_to_image(image=jnp.asarray(img), key=jax.random.PRNGKey(c["seed"] + 1000000 * k), noise_uniform=u, noise_gaussian_mean=m, noise_gaussian_std=s), np.float64) for k in range(3)]
        for o in outs:
            ctx.check(o.shape == (H, W) and np.isfinite(o).all() and o.min() >= 0 and o.max() <= 255, "range", lambda: f"{what}, {c['base']} image: values {o.min()}..{o.max()}")
            if u == m == s == 0:
                ctx.check(np.array_equal(o, np.clip(img.astype(np.float64), 0, 255)), "zero-noise-changes-image", lambda: f"{what}: image changed by up to {np.abs(o - np.clip(img, 0, 255)).max()}")
                ctx.event("zero-noise")
            if s == 0:
                lo, hi = np.clip(img + m, 0, 255) - .01, np.clip(img + m + u, 0, 255) + .01
                ctx.check((o >= lo).all() and (o <= hi).all(), "direct-range", lambda: f"{what}, {c['base']} image: result not within image + mean + [0, {u})")
        if c["base"] == "mid" and 100 + hidden < 255 and 100 + m - 6 * s > 0:
            noise_stats(ctx, [o - img for o in outs], u, m, s, what, "direct")
        if c["base"] == "zero" and hidden < 255 and m - 6 * s >= 0:
            noise_stats(ctx, [o - img for o in outs], u, m, s, what, "direct")
        ctx.event("direct"); ctx.nontrivial("direct", u, m, s, c["base"])
        return
    kw = dict(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(.01, .02), intensity_ranges=[(30.0, 60.0)], diameter_ranges=[(1.0, 2.0)], p_hide_img2=.1, diameter_var=.1, intensity_var=3.0, rho_ranges=[(-.3, .3)], rho_var=.01)
    nk = dict(noise_uniform=u, noise_gaussian_mean=m, noise_gaussian_std=s)
    calls = 2
    if c["dense"]:                                   # overlapping bright particles: saturated pixels
        kw.update(seeding_density_range=(.15, .25), intensity_ranges=[(180.0, 255.0)], diameter_ranges=[(2.0, 4.0)], rho_var=0.0)
    if c["kind"] == "pair":
        fl = np.zeros((1, 9, 9, 2)) + .2
        c1, c2, _ = generate(c["seed"], fl, spec(**kw), (H, W), calls=calls)
        n1, n2, _ = generate(c["seed"], fl, spec(**kw, **nk), (H, W), calls=calls)
    else:
        def go(**k):
            smp = sampler(Stub(lambda q, n: np.full((n, 9, 9, 2), .5), (9, 9, 2)), spec(**dict(kw, img_offset=(8.0, 8.0)), **k), size=(H + 20.0, W + 20.0), seed=c["seed"], devices=[0])
            bs = [next(smp) for _ in range(calls)]
            return tuple(np.concatenate([np.asarray(getattr(b, x), np.float64) for b in bs]) for x in ("images1", "images2", "flow_fields"))
        c1, c2, f0 = go()
        n1, n2, f1 = go(**nk)
        ctx.check(np.array_equal(f0, f1), "noise-changes-flow", lambda: f"{what}: flow fields differ between runs with and without noise")
        ctx.event("via-sampler")
    ctx.event("saturated", int((n1 >= 255).sum()))
    for o in (n1, n2, c1, c2):
        ctx.check(np.isfinite(o).all() and o.min() >= 0 and o.max() <= 255, "range", lambda: f"{what}: values {o.min()}..{o.max()}")
    if u == m == s == 0:
        ctx.check(np.array_equal(n1, c1) and np.array_equal(n2, c2), "zero-noise-changes-image", what)
        ctx.event("zero-noise")
    # one seed, with and without noise: the difference is noise wherever nothing was clipped
    top = max(c1.max(), c2.max())
    if s == 0:
        for x, y in ((c1, n1), (c2, n2)):
            ok = (y >= np.clip(x + m, 0, 255) - .02) & (y <= np.clip(x + m + u, 0, 255) + .02)
            ctx.check(ok.all(), "noise-moves-particles", lambda: f"{what}: noisy image is not the noise-free one of the same seed plus {m} plus [0, {u})")
        ctx.event("bounded-difference")
    else:
        e = np.concatenate([n1 - np.clip(c1 + m + u / 2, 0, 255), n2 - np.clip(c2 + m + u / 2, 0, 255)])
        sd = math.sqrt(s * s + u * u / 12)
        ctx.check(np.abs(e).max() < 7 * s + u + .1, "noise-moves-particles", lambda: f"{what}: noisy image deviates by {np.abs(e).max():.1f} from the noise-free one of the same seed")
    if top + hidden < 255 and m - 6 * s >= 0:
        res = [x for k in range(len(n1)) for x in (n1[k] - c1[k], n2[k] - c2[k])]
        noise_stats(ctx, res, u, m, s, what, "pair")
        bright = np.concatenate([c1, c2]) > 5
        if bright.sum() > 500 and (u or s):
            r = np.stack([n1 - c1, n2 - c2]).reshape(-1)[np.stack([c1, c2]).reshape(-1) > 5]
            sd = math.sqrt(s * s + u * u / 12)
            ctx.check(abs(r.mean() - m - u / 2) < 6.5 * sd / math.sqrt(r.size) + 1e-3, "noise-depends-on-signal", lambda: f"{what}: noise on particles has mean {r.mean()}")
            ctx.event("on-particles")
    ctx.event("pairs"); ctx.nontrivial(c["kind"], u, m, s, H, W)


main(Spec("G05", cases, run,
          "noise residuals (same key with and without noise) of direct calls, generated pairs and sampler batches: range, mean, variance, distribution shape, independence between pixels, images and batches; values within [0, 255]; "
          "non-trivial: distinct (route, amplitude, mean, deviation)",
          quick=90, thorough=2500, workers=(6, 8), quick_s=60, thorough_s=500, floors={"direct": 20, "pairs": 30, "via-sampler": 10, "noise-pixels": 100000, "zero-noise": 6, "bounded-difference": 10, "on-particles": 3, "saturated": 1000}))
