"""G06: masked pixels are black in both images, all others are untouched."""
import random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        c = dict(H=rng.randint(12, 40), W=rng.randint(12, 40), mask=rng.choice(["random", "half", "ones", "zeros", "hole", "corner", "line"]), dtype=rng.choice(["int32", "float32", "bool", "uint8", "int64", "float64"]), noise=rng.choice([[0.0, 0.0, 0.0], [20.0, 0.0, 0.0], [5.0, 30.0, 10.0], [0.0, 100.0, 0.0]]),
                 B=rng.choice([1, 2, 3]), hide=rng.choice([0.0, .2]), vel=rng.choice([[0.0, 0.0], [1.5, -.5], [.3, .8]]), route=rng.choice(["direct", "config", "config", "constructor"]), seed=rng.randrange(1000))
        if k % 3 == 0:
            c["bad"] = rng.choice(["two", "fraction", "negative", "transposed", "larger", "3d", "flat", "nan", "255", "missing", "half-one"])
            c["route"] = "constructor" if c["bad"] in ("transposed", "larger", "3d", "flat") and rng.random() < .4 else "config"
        yield c


def run(ctx, c):
    import numpy as np, jax.numpy as jnp, os
    from gen import generate
    from synth import spec, sampler, Stub
    H, W = c["H"], c["W"]
    if c.get("bad") == "transposed" and H == W:
        W = H + 1
    r = np.random.default_rng(c["seed"])
    m = {"random": lambda: r.random((H, W)) < .5, "half": lambda: np.arange(W)[None, :] < W // 2 + np.zeros((H, 1)), "ones": lambda: np.ones((H, W)), "zeros": lambda: np.zeros((H, W)),
         "hole": lambda: 1 - (np.hypot(*np.meshgrid(np.arange(H) - H / 3, np.arange(W) - W / 2, indexing="ij")) < 6), "corner": lambda: ~((np.arange(H)[:, None] < 3) & (np.arange(W) > W - 5)), "line": lambda: np.arange(H)[:, None] != 4 + np.zeros((1, W))}[c["mask"]]()
    m = np.asarray(m).astype(c["dtype"])
    nu, nm, ns = c["noise"]
    what = f"{H}x{W} mask '{c['mask']}' ({c['dtype']}), noise {c['noise']}, {c['route']}"
    u, v = c["vel"]
    off = (max(v, 0) + 3.0, max(u, 0) + 3.0)
    kw = dict(batch_size=c["B"], image_shape=(H, W), seeding_density_range=(.05, .08), diameter_ranges=[(1.0, 3.0)], intensity_ranges=[(100.0, 250.0)], p_hide_img1=c["hide"], p_hide_img2=c["hide"], diameter_var=.1, intensity_var=4.0,
              noise_uniform=nu, noise_gaussian_mean=nm, noise_gaussian_std=ns)
    sp = (max(u, 0.0), max(v, 0.0), min(u, 0.0), min(v, 0.0))
    size = (H + 14.0, W + 14.0)
    stub = lambda: Stub(lambda k, n: np.broadcast_to(np.array([u, v], np.float32), (n, 12, 12, 2)), (12, 12, 2))

    def from_config(path):
        from synthpix.sampler import SyntheticImageSampler
        cfg = dict(kw, img_offset=list(off), image_shape=[H, W], seeding_density_range=[.05, .08], diameter_ranges=[[1.0, 3.0]], intensity_ranges=[[100.0, 250.0]], rho_ranges=[[0.0, 0.0]], rho_var=0.0, dt=1.0, batches_per_flow_batch=1, flow_fields_per_batch=1,
                   flow_field_size=list(size), resolution=1.0, velocities_per_pixel=1.0, seed=c["seed"], max_speed_x=sp[0], max_speed_y=sp[1], min_speed_x=sp[2], min_speed_y=sp[3], output_units="pixels", device_ids=[0])
        if path:
            cfg["mask"] = path
        return SyntheticImageSampler.from_config(stub(), cfg)

    if "bad" in c:
        b = m.astype(np.float64)
        b = {"two": lambda: np.where(r.random((H, W)) < .3, 2, b), "fraction": lambda: b * .999, "negative": lambda: -b - (b == 0), "transposed": lambda: b.T, "larger": lambda: np.ones((H + 1, W)), "3d": lambda: np.ones((H, W, 1)),
             "flat": lambda: np.ones(H * W), "nan": lambda: np.where(np.arange(W) == 0, np.nan, b), "255": lambda: 255 * np.ones((H, W)), "missing": lambda: b, "half-one": lambda: np.where(np.arange(W) == W - 1, .5, b)}[c["bad"]]()
        if c["bad"] == "fraction" and not b.any():
            b = b + .001
        if c["bad"] == "two":
            b[H - 1, W - 1] = 2
        try:
            if c["route"] == "constructor":
                sampler(stub(), spec(**kw, img_offset=off), size=size, seed=c["seed"], speeds=sp, mask=jnp.asarray(b), devices=[0])
            else:
                p = os.path.join(ctx.tmp(), "mask.npy")
                if c["bad"] != "missing":
                    np.save(p, b)
                from_config(p)
            ctx.fail("bad-mask-accepted", f"mask with defect '{c['bad']}' accepted ({c['route']}, image {H}x{W}, mask shape {b.shape})")
        except (ValueError, FileNotFoundError):
            ctx.event("rejected")
        ctx.nontrivial("bad", c["bad"], c["route"])
        return

    def pull(s):
        bs = [next(s) for _ in range(2)]
        return [np.concatenate([np.asarray(getattr(b, k), np.float64) for b in bs]) for k in ("images1", "images2", "flow_fields")] + [np.concatenate([np.asarray(getattr(b.params, k), np.float64).ravel() for b in bs for k in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")])]
    if c["route"] == "direct":
        fl = np.broadcast_to(np.array([u, v], np.float32), (1, 12, 12, 2))
        g = spec(**kw, img_offset=(6, 5))
        a = generate(c["seed"], fl, g, (H + 10, W + 10), res=(12 / (W + 10), 12 / (H + 10)))
        b = generate(c["seed"], fl, g, (H + 10, W + 10), res=(12 / (W + 10), 12 / (H + 10)), mask=jnp.asarray(m))
        rest = [(k, a[2][k], b[2][k]) for k in a[2]]
    elif c["route"] == "config":
        p = os.path.join(ctx.tmp(), "mask.npy")
        np.save(p, m)
        a, b = pull(from_config(None)), pull(from_config(p))
        rest = [("flow_fields", a[2], b[2]), ("parameters", a[3], b[3])]
    else:
        mk = lambda mask: sampler(stub(), spec(**kw, img_offset=off), size=size, seed=c["seed"], speeds=sp, mask=mask, devices=[0])
        a, b = pull(mk(None)), pull(mk(jnp.asarray(m)))
        rest = [("flow_fields", a[2], b[2]), ("parameters", a[3], b[3])]
    mm = m.astype(bool)
    for k, nmn in ((0, "first"), (1, "second")):
        x, y = a[k], b[k]
        if not ctx.check(x.shape == y.shape and x.shape[1:] == (H, W), "shape", lambda: f"{what}: {y.shape}"):
            return
        ctx.check((y[:, ~mm] == 0).all(), "masked-not-black", lambda: f"{what}: {nmn} image has values up to {y[:, ~mm].max()} where the mask is zero")
        ctx.check(np.abs(y[:, mm] - x[:, mm]).max(initial=0) < 1e-3, "unmasked-changed", lambda: f"{what}: {nmn} image differs by {np.abs(y[:, mm] - x[:, mm]).max()} from the unmasked run where the mask is one")
        ctx.event("blacked-bright-pixels", int((x[:, ~mm] > 20).sum()))
        ctx.event("kept-bright-pixels", int((x[:, mm] > 20).sum()))
    for nmn, x, y in rest:
        ctx.check(np.array_equal(x, y), "mask-changes-rest", lambda: f"{what}: {nmn} differ from the unmasked run")
    ctx.event("pairs", len(a[0])); ctx.event(c["route"])
    ctx.nontrivial(c["mask"], c["dtype"], tuple(c["noise"]), c["route"], H, W)


main(Spec("G06", cases, run,
          "the same seeds with and without random, half, empty, full, hole and line masks of several number types, by direct call, constructor and .npy path; malformed masks offered by constructor and path; "
          "non-trivial: distinct (mask, type, noise, route)",
          quick=75, thorough=2500, workers=(6, 8), quick_s=60, thorough_s=500, floors={"pairs": 60, "rejected": 15, "config": 10, "direct": 5, "constructor": 5, "blacked-bright-pixels": 500, "kept-bright-pixels": 500}))
