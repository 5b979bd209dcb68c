"""S02: every accepted geometry yields images and flows of the requested shape."""
import math, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        H, W = rng.randint(4, 40), rng.randint(4, 40)
        res = rng.choice([1.0, 2.0, 10.0, 100.0, 155.0, 7.3, .5, 3.0, 33.3, .1, 1, 60.0, math.pi * 10, rng.uniform(.3, 200)])
        dt = rng.choice([1.0, 0.1, 0.05, 2.6e-2, 1e-3, 10.0, 3])
        px = lambda hi: rng.choice([0.0, rng.uniform(0, hi), round(rng.uniform(0, hi)), rng.uniform(0, hi)])
        mx, my = px(4) / res / dt, px(4) / res / dt
        nx, ny = [-(px(4) if rng.random() < .5 else 0.0) / res / dt for _ in range(2)]
        if rng.random() < .2:
            nx = mx * rng.random()                # min speed above zero: no effect
        tight = rng.random() < .3                 # exactly the smallest admissible offset or field
        off = [max(0, my) * dt + (0 if tight else px(6) / res), max(0, mx) * dt + (0 if tight else px(6) / res)]
        size = [off[0] + H / res - min(0, ny) * dt + px(9) / res, off[1] + W / res - min(0, nx) * dt + px(9) / res]
        spoil = None
        if k % 6 == 0:                            # does not fit: one side too small by a relevant amount
            ax = rng.randrange(2)
            sp, d = ((my, off), (mx, off))[ax][0] * dt, rng.choice([.001, .5, 2.0]) / res
            if rng.random() < .5 and sp > 1.5 * d:
                off[ax] = sp - d
                spoil = "offset"
            else:
                size[ax] = off[ax] + H / res - min(0, ny) * dt - d if ax == 0 else off[ax] + W / res - min(0, nx) * dt - d
                spoil = "size"
                if size[ax] <= 0:
                    spoil = "negative"
        dm = rng.choice([.5, 1.0, 1.5, 2.0, 3.0, 4.2])
        yield dict(H=H, W=W, res=res, dt=dt, speeds=[mx, my, nx, ny], off=off, size=[float(x) for x in size], spoil=spoil, tight=tight, grid=[rng.randint(1, 40), rng.randint(1, 40)],
                   vpp=rng.choice([1.0, 1.0, 1, .5, 2.0, .75, 3, .25]), B=rng.choice([1, 2, 3]), F=1, dmax=dm, hide=rng.choice([0.0, 0.0, .1]), dens=rng.choice([[.05, .05], [.01, .1]]),
                   units=rng.choice(["pixels", "measure units per second"]), noise=rng.choice([0.0, 300.0, 20.0]), inten=rng.choice([[50.0, 200.0], [255.0, 1000.0]]), seed=rng.randrange(1000), vel=rng.choice(["max", "rot", "noise"]))


def run(ctx, c):
    import numpy as np
    from synth import Stub, spec, sampler
    gy, gx = c["grid"]
    mx, my, nx, ny = c["speeds"]
    r = np.random.default_rng(c["seed"])

    def mk(k, n):
        lo, hi = np.array([min(nx, mx), min(ny, my)]), np.array([mx, my])
        if c["vel"] == "max":
            return np.broadcast_to(hi if k % 2 else lo, (n, gy, gx, 2))
        return lo + (hi - lo) * r.random((n, gy, gx, 2))
    what = f"{ {k: c[k] for k in ('H', 'W', 'res', 'dt', 'speeds', 'off', 'size', 'grid', 'vpp', 'dmax', 'hide', 'dens')} }"
    gs = spec(batch_size=c["B"], image_shape=(c["H"], c["W"]), img_offset=tuple(c["off"]), seeding_density_range=tuple(c["dens"]), dt=c["dt"], p_hide_img1=c["hide"],
              diameter_ranges=[(.4, c["dmax"])], diameter_var=.2, intensity_ranges=[tuple(c["inten"])], intensity_var=5.0, rho_ranges=[(-.5, .5)], rho_var=.1,
              noise_uniform=c["noise"], noise_gaussian_mean=c["noise"] / 3, noise_gaussian_std=c["noise"])
    try:
        s = sampler(Stub(mk, (gy, gx, 2)), gs, size=c["size"], resolution=c["res"], vpp=c["vpp"], seed=c["seed"], speeds=tuple(c["speeds"]), units=c["units"], flows=1, devices=[0])
    except ValueError as e:
        if c["spoil"]:
            ctx.event("rejected")
            ctx.nontrivial("reject", c["spoil"])
        elif c["tight"]:
            ctx.event("rejected-at-the-limit")     # equality up to rounding: either answer is right
        else:
            # with px() == 0 somewhere the geometry may also sit on the limit
            slack = min(c["off"][0] - max(0, my) * c["dt"], c["off"][1] - max(0, mx) * c["dt"], c["size"][0] - c["off"][0] - c["H"] / c["res"] + min(0, ny) * c["dt"],
                        c["size"][1] - c["off"][1] - c["W"] / c["res"] + min(0, nx) * c["dt"]) * c["res"]
            if slack > 1e-6 * (c["H"] + c["W"]):
                ctx.fail("fitting-geometry-rejected", f"{what}: {e}")
        return
    if c["spoil"]:
        ctx.fail("unfitting-geometry-accepted", f"{what}: {c['spoil']} too small")
        return
    for k in range(2):
        b = next(s)
        want = (c["B"], c["H"], c["W"])
        for nm in ("images1", "images2"):
            im = np.asarray(getattr(b, nm))
            if not ctx.check(im.shape == want, "image-shape", lambda: f"{what}: {nm} {im.shape} instead of {want}; bounds {s.position_bounds}, offset {s.img_offset}"):
                return
            ctx.check(im.dtype == np.float32, "precision", lambda: f"{what}: {im.dtype}")
            ctx.check(np.isfinite(im).all(), "not-finite", what)
            ctx.check(im.min() >= 0 and im.max() <= 255, "range", lambda: f"{what}: {im.min()}..{im.max()}")
        fl = np.asarray(b.flow_fields)
        fs = (c["B"], math.floor(c["H"] * c["vpp"]), math.floor(c["W"] * c["vpp"]), 2)
        ctx.check(fl.shape == fs, "flow-shape", lambda: f"{what}: {fl.shape} instead of {fs}")
        ctx.check(fl.dtype == np.float32 and np.isfinite(fl).all(), "flow-values", what)
        ctx.event("batches")
    pb, io = getattr(s, "position_bounds", None), getattr(s, "img_offset", None)
    if pb is not None:
        ctx.event("padded", any(s.zero_padding))
    ctx.event("accepted")
    ctx.nontrivial(c["H"], c["W"], c["res"], c["dt"])


main(Spec("S02", cases, run,
          "samplers over random geometries (shape, resolution, offset, time step, speed bounds, grid, diameters, hiding, noise), a third at the exact admissible limit and a sixth just beyond it; "
          "shape, type, finiteness and range of every array, and the accept/reject decision against the fitting condition; non-trivial: distinct geometries",
          quick=150, thorough=7000, workers=(8, 8), quick_s=75, thorough_s=700, floors={"accepted": 80, "batches": 160, "rejected": 10, "padded": 20}))
