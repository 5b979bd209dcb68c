"""G02: particles are rendered as the prescribed Gaussian spots."""
import random
from vp import Spec, main

CONF = [(32, 32, 1, 3.0), (40, 27, 12, 3.0), (27, 40, 12, 2.0), (64, 48, 60, 4.0), (20, 20, 5, 1.0), (16, 50, 30, 1.5), (33, 33, 7, .5), (48, 48, 25, 6.3), (30, 30, 3, .7), (100, 90, 80, 5.0)]


def cases(rng, tier):
    while True:
        if rng.random() < .2:
            yield dict(kind="profile", seed=rng.randrange(10 ** 9))
            continue
        if rng.random() < .15:
            ds = rng.sample([.8, 1.5, 2.6, 4.0, 5.5], rng.choice([2, 3]))
            yield dict(kind="pair", ds=ds, rho=rng.choice([0.0, -.5, .7, .95]), inten=rng.choice([40.0, 120.0, 255.0]), shift=[rng.uniform(-3, 3), rng.uniform(-3, 3)], seed=rng.randrange(10 ** 6))
            continue
        H, W, n, md = rng.choice(CONF)
        yield dict(kind="image", H=H, W=W, n=n, md=md, where=rng.choice(["inside", "inside", "integer", "border", "outside", "clumped"]), clip=rng.random() < .5, inten=rng.choice([[50.0, 200.0], [1.0, 1.0], [255.0, 2000.0], [0.0, 20.0]]),
                   rho=rng.choice([0.0, .3, .9]), full=rng.random() < .3, seed=rng.randrange(10 ** 9))


def run(ctx, c):
    import numpy as np, jax.numpy as jnp
    from synthpix.generate import img_gen_from_data, gaussian_2d_correlated
    r = np.random.default_rng(c["seed"])
    if c["kind"] == "profile":
        Y, X = np.mgrid[-6:7, -7:6].astype(np.float64)
        x0, y0 = r.uniform(-3, 3, 2)
        sx, sy, rho, amp = r.uniform(.4, 3), r.uniform(.4, 3), r.uniform(-.95, .95), r.uniform(0, 300)
        got = np.asarray(gaussian_2d_correlated(jnp.asarray(X, jnp.float32), jnp.asarray(Y, jnp.float32), x0, y0, sx, sy, rho, amp), np.float64)
        a, b = (X - x0) / sx, (Y - y0) / sy
        want = amp * np.exp(-(a * a + b * b - 2 * rho * a * b) / (2 * (1 - rho * rho)))
        ctx.check(np.abs(got - want).max() <= 2e-4 * (1 + amp), "profile", lambda: f"Gaussian centre ({x0},{y0}) widths ({sx},{sy}) correlation {rho} amplitude {amp}: deviates by {np.abs(got - want).max()}")
        ctx.event("profile"); ctx.nontrivial("profile", c["seed"])
        return
    if c["kind"] == "pair":
        return pair(ctx, c)
    H, W, n, md = c["H"], c["W"], c["n"], c["md"]
    pr = int(3 * md / 2)
    pos = {"inside": lambda: np.stack([r.uniform(pr, H - pr - 1e-3, n), r.uniform(pr, W - pr - 1e-3, n)], 1),
           "integer": lambda: np.stack([r.integers(pr, H - pr, n), r.integers(pr, W - pr, n)], 1).astype(float),
           "border": lambda: np.stack([r.choice([0, .3, pr - .5, pr, H - 1, H - .01, H - pr - .5], n), r.uniform(0, W, n)], 1),
           "outside": lambda: np.stack([r.uniform(-2 * H, 3 * H, n), r.choice([-1e4, -3., W + 2., 1e5, W / 2], n)], 1),
           "clumped": lambda: np.array([H / 2, W / 2]) + r.uniform(-1, 1, (n, 2))}[c["where"]]().astype(np.float32)
    dx, dy = [(np.full(n, md) if c["full"] else r.uniform(.35 * md, md, n)).astype(np.float32) for _ in range(2)]
    amp = r.uniform(*c["inten"], n).astype(np.float32)
    amp[r.random(n) < .15] = 0
    rho = r.uniform(-c["rho"], c["rho"], n).astype(np.float32)

    def render(sel, clip):
        return np.asarray(img_gen_from_data(jnp.asarray(pos[sel]), (H, W), md, jnp.asarray(dx[sel]), jnp.asarray(dy[sel]), jnp.asarray(amp[sel]), jnp.asarray(rho[sel]), *([] if clip and c["seed"] % 2 else [clip])), np.float64)
    everything = np.arange(n)
    img = render(everything, c["clip"])
    what = f"{n} particles ({c['where']}) on {H}x{W}, max diameter {md}, intensities {c['inten']}, clip {c['clip']}"
    if not ctx.check(img.shape == (H, W) and np.isfinite(img).all(), "shape", lambda: f"{what}: {img.shape}"):
        return
    Y, X = np.mgrid[:H, :W].astype(np.float64)
    lo, hi, reached = np.zeros((H, W)), np.zeros((H, W)), np.zeros((H, W), bool)
    p64 = pos.astype(np.float64)
    cy, cx = np.clip(p64[:, 0], pr, H - pr), np.clip(p64[:, 1], pr, W - pr)
    for k in range(n):
        a, b = (X - cx[k]) / (dx[k] / 2), (Y - cy[k]) / (dy[k] / 2)
        g = amp[k] * np.exp(-(a * a + b * b - 2 * rho[k] * a * b) / (2 * (1 - float(rho[k]) ** 2)))
        far = np.maximum(np.abs(X - cx[k]), np.abs(Y - cy[k]))
        lo += np.where(far <= pr - 1, g, 0)
        hi += np.where(far <= pr + 2, g, 0)
        reached |= far <= pr + 2
    tol = 1e-3 * (1 + (np.max(amp) if n else 0)) * (1 + (c["where"] == "clumped") * .02 * n)
    if c["clip"]:
        lo, hi = np.clip(lo, 0, 255), np.clip(hi, 0, 255)
        ctx.check(img.min() >= 0 and img.max() <= 255, "clipping", lambda: f"{what}: {img.min()}..{img.max()}")
        ctx.event("clipped-pixels", int((hi >= 255).sum()))
    bad = (img < lo - tol) | (img > hi + tol)
    ctx.check(not bad.any(), "spot-shape" if c["where"] not in ("border", "outside") else "border-particles", lambda: (lambda i: f"{what}: pixel {i} is {img[i]}, the prescribed Gaussians give {lo[i]}..{hi[i]}")(tuple(int(z[0]) for z in np.where(bad))))
    ctx.check((img[~reached] == 0).all(), "beyond-patch", lambda: f"{what}: pixels beyond every particle's patch are not zero")
    ctx.event("untouched-pixels", int((~reached).sum()))
    if not c["clip"]:
        if img.max() > 256:
            ctx.event("above-255-unclipped")
        if n > 3:
            p = r.permutation(n)
            ctx.check(np.abs(render(p, False) - img).max() <= tol * .1 + 1e-6 * img.max(), "order-dependent", lambda: f"{what}: image depends on particle order")
            h = n // 2
            ctx.check(np.abs(render(everything[:h], False) + render(everything[h:], False) - img).max() <= tol * .1 + 1e-6 * img.max(), "not-additive", lambda: f"{what}: image of all is not the sum of the images of two halves")
            ctx.event("additivity")
        if c["where"] == "inside" and n <= 12 and min(H, W) > 4 * pr + 8:
            m = (cy < H - pr - 3.5) & (cx < W - pr - 4.5)
            if m.any():
                a = render(np.where(m)[0], False)
                keep = pos.copy()
                pos[:, 0] += 3; pos[:, 1] += 4
                b = render(np.where(m)[0], False)
                pos[:] = keep
                ctx.check(np.abs(b[3:, 4:] - a[:-3, :-4]).max() <= tol, "not-shift-equivariant", lambda: f"{what}: particles moved by (3, 4) do not give the image moved by (3, 4)")
                ctx.event("shift")
    ctx.event("images"); ctx.event(c["where"]); ctx.event("particles", n)
    ctx.nontrivial(H, W, n, c["where"], c["clip"], tuple(c["inten"]), c["rho"])


def pair(ctx, c):
    """Generated pairs of one particle each: both images are the whole spot of the reported range, whatever the order of the ranges."""
    import numpy as np
    from scipy.optimize import least_squares
    from synthpix.types import ImageGenerationSpecification
    import gen
    H, W = 44, 50
    gs = ImageGenerationSpecification(batch_size=10, image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(1.001 / (H * W), 1.001 / (H * W)), p_hide_img1=0.0, p_hide_img2=0.0,
                                      diameter_ranges=[(d, d) for d in c["ds"]], diameter_var=0.0, intensity_ranges=[(c["inten"], c["inten"])], intensity_var=0.0, rho_ranges=[(c["rho"], c["rho"])], rho_var=0.0, dt=1.0)
    fl = np.zeros((1, H, W, 2)) + np.array(c["shift"])
    a, b, p = gen.generate(c["seed"], fl, gs, (H, W))
    Y, X = np.mgrid[:H, :W].astype(np.float64)
    amp, rho = c["inten"], c["rho"]
    pr = int(3 * max(c["ds"]) / 2)
    for i in range(len(a)):
        d = float(p["diameter_ranges"][i, 0])
        for nm, im in (("first", a[i]), ("second", b[i])):
            what = f"{nm} image {i} of a pair with diameter ranges {c['ds']} (reported {d}), correlation {rho}, intensity {amp}"
            y0, x0 = np.unravel_index(im.argmax(), im.shape)

            def spot(q, reach):
                s, t = (X - q[1]) / (d / 2), (Y - q[0]) / (d / 2)
                g = amp * np.exp(-(s * s + t * t - 2 * rho * s * t) / (2 * (1 - rho * rho)))
                return np.where(np.maximum(np.abs(X - q[1]), np.abs(Y - q[0])) <= reach, g, 0)
            best = min((least_squares(lambda q: (spot(q, 1e9) - im)[max(0, y0 - 2):y0 + 3, max(0, x0 - 2):x0 + 3].ravel(), (y0 + u, x0 + v)) for u in (-.4, 0, .4) for v in (-.4, 0, .4)), key=lambda z: z.cost).x
            lo, hi = spot(best, pr - 1), spot(best, pr + 2)
            tol = .02 + 2e-3 * amp
            bad = (im < lo - tol) | (im > hi + tol)
            ctx.check(not bad.any(), "pair-spot-shape", lambda: (lambda k: f"{what}: pixel {k} is {im[k]}, the whole spot at {best} gives {lo[k]}..{hi[k]}")(tuple(int(z[0]) for z in np.where(bad))))
            ctx.event("pair-spots")
    ctx.nontrivial("pair", tuple(c["ds"]), rho, amp)


main(Spec("G02", cases, run,
          "rendering random particle sets (inside, whole-pixel, border, far outside, clumped) of ten geometries, per pixel between the float64 sums of Gaussians over a smaller and a larger patch than the rendered one, "
          "permutation, additivity and shift comparisons; Gaussian profile alone against float64; generated one-particle pairs with several diameter ranges in any order, each image against the whole reported spot; non-trivial: distinct (geometry, placement, clipping, intensities, correlation)",
          quick=240, thorough=9000, workers=(6, 8), quick_s=50, thorough_s=500, floors={"images": 100, "profile": 20, "border": 10, "outside": 10, "clumped": 10, "additivity": 30, "shift": 3, "clipped-pixels": 50, "above-255-unclipped": 3, "pair-spots": 100}))
