"""G01: the second image shows the first moved by the returned flow."""
import math, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        H, W = rng.randint(40, 64), rng.randint(40, 64)
        res = rng.choice([1.0, 1.0, 2.0, 10.0, 100.0, 7.3, .5])
        dt = rng.choice([1.0, .1, .026, 2.0, 1])
        kind = rng.choice(["uniform", "uniform", "shear", "rotation", "stretch", "strain"])
        exact = k % 2 == 0                            # one grid point per pixel, whole-pixel offsets: agreement must be exact also for varying flow
        disp = rng.choice([.4, 1.5, 3.0, 4.0])
        c = dict(kind=kind, H=H, W=W, res=res, dt=dt, disp=disp, th=rng.uniform(0, 2 * math.pi), exact=exact, units=rng.choice(["pixels", "measure units per second"]), vpp=1.0 if exact else rng.choice([1.0, 1.0, .5, 2.0]),
                 F=rng.choice([1, 1, 2]), B=8, seed=rng.randrange(10000), B2=rng.random() < .3)
        if exact:
            c.update(off=[rng.randint(7, 16), rng.randint(7, 16)], extra=[rng.randint(8, 14), rng.randint(8, 14)], pad=False, tight=False)
        else:
            c.update(off=[rng.uniform(5, 15), rng.uniform(5, 15)], extra=[rng.uniform(6, 20), rng.uniform(6, 20)], grid=[rng.choice([8, 12, 20, 40, 75, 120]), rng.choice([8, 12, 20, 40, 75, 120])], pad=rng.random() < .35)
        yield c


def field(c, f, N, M, gy, gx):
    """Displacement in pixels per frame on the grid; N x M is the size of the whole area in pixels."""
    import numpy as np
    Y, X = np.meshgrid(np.arange(gy) * (N / gy), np.arange(gx) * (M / gx), indexing="ij")
    y, x = (Y - N / 2) / (N / 2), (X - M / 2) / (M / 2)
    d, th = c["disp"] * (1 - .35 * f), c["th"] + 1.9 * f
    co, si = math.cos(th), math.sin(th)
    u, v = {"uniform": (co + 0 * x, si + 0 * x), "shear": (y * co, x * si), "rotation": (-y * (1 if co > 0 else -1), x * (1 if co > 0 else -1)), "stretch": (x * co + .3, -y * si + .1), "strain": (.5 * x + .5 * y * co, .5 * y - .5 * x * si)}[c["kind"]]
    return np.stack([u, v], -1) * d


def run(ctx, c):
    import numpy as np
    from synth import Stub, spec, sampler, spots
    from interp import ref
    H, W, res, dt = c["H"], c["W"], c["res"], c["dt"]
    N, M = c["off"][0] + H + c["extra"][0], c["off"][1] + W + c["extra"][1]
    gy, gx = (int(N), int(M)) if c["exact"] else c["grid"]
    px = np.stack([field(c, f, N, M, gy, gx) for f in range(c["F"])])
    vel = px / (res * dt)
    b = 5.0 / (res * dt) if not c["exact"] else math.ceil(c["disp"] * 1.31 + .01) / (res * dt)
    size = (N / res, M / res)
    eps = 1e-9 * max(size)
    dens = 9.0 / ((H + 10) * (W + 10))
    gs = spec(batch_size=c["B"], image_shape=(H, W), img_offset=tuple((o + eps * res) / res for o in c["off"]), seeding_density_range=(dens * (.7 if c["pad"] else 1), dens), dt=dt, intensity_ranges=[(60.0, 250.0)], diameter_ranges=[(2.0, 3.2)], rho_ranges=[(-.3, .3)])
    s = sampler(Stub(lambda k, n: vel[np.arange(n) % len(vel)], (gy, gx, 2)), gs, size=tuple(x + 3 * eps for x in size), resolution=res, vpp=c["vpp"], seed=c["seed"], speeds=(b, b, -b, -b), units=c["units"], flows=c["F"], devices=[0])
    what = f"{c['kind']} flow, {H}x{W} px, resolution {res}, dt {dt}, grid {gy}x{gx}, offset {c['off']}, {c['units']}, vpp {c['vpp']}, padded {c['pad']}"
    # largest change of the displacement per pixel and per grid cell, over both axes
    g = max(float(np.abs(np.diff(px, axis=1)).max(initial=0)) * gy / N, float(np.abs(np.diff(px, axis=2)).max(initial=0)) * gx / M)
    cell = max(N / gy, M / gx)
    tol = .02 + (0 if c["exact"] else g * ((3 if c["pad"] else 2) * cell + 2.5 + (1 / c["vpp"])))
    errs, lost, found = [], 0, 0
    for _ in range(2):
        bt = next(s)
        I1, I2, F = (np.asarray(getattr(bt, k), np.float64) for k in ("images1", "images2", "flow_fields"))
        for e in range(c["B"]):
            p, q = spots(I1[e], 10, 6, 20), spots(I2[e], 7, 4, 20)
            fl = F[e] if c["units"] == "pixels" else F[e] * (res * dt)
            nh, nw = fl.shape[:2]
            for a in p:
                t = [z for z in q if abs(z["peak"] - a["peak"]) < .2 and abs(z["sx"] - a["sx"]) < .02 and abs(z["sy"] - a["sy"]) < .02 and abs(z["rho"] - a["rho"]) < .03]
                at = [np.array([a["y"] * (nh - 1) / (H - 1)]), np.array([a["x"] * (nw - 1) / (W - 1)])]
                u, v = float(ref(fl[..., 0], at)[0][0]), float(ref(fl[..., 1], at)[0][0])
                inside = 11 <= a["y"] + v < H - 11 and 11 <= a["x"] + u < W - 11
                if len(t) != 1:
                    lost += inside
                    continue
                z = t[0]
                found += inside
                errs.append((z["x"] - a["x"] - u, z["y"] - a["y"] - v, z["x"] - a["x"], z["y"] - a["y"], u, v, e))
    if len(errs) >= 3:
        w = max(errs, key=lambda r: max(abs(r[0]), abs(r[1])))
        kind = "uniform-displacement" if c["kind"] == "uniform" else "exact-displacement" if c["exact"] else "displacement"
        ctx.check(max(abs(w[0]), abs(w[1])) <= tol, kind, lambda: f"{what}: a particle of entry {w[6]} moved by (x {w[2]:.3f}, y {w[3]:.3f}) px, the returned flow says ({w[4]:.3f}, {w[5]:.3f}); tolerance {tol:.3f}")
    if found + lost >= 8:
        ctx.check(lost <= .6 * (found + lost), "particles-lost", lambda: f"{what}: of {found + lost} particles that should stay well inside, {lost} are not found again in the second image")
    ctx.event("tracked", len(errs)); ctx.event("tracked-exact", len(errs) * c["exact"]); ctx.event("tracked-varying", len(errs) * (c["kind"] != "uniform")); ctx.event("padded", any(s.zero_padding) if hasattr(s, "zero_padding") else 0)
    if len(errs) >= 3:
        ctx.event("moved-at-least-half-pixel", sum(math.hypot(r[2], r[3]) > .5 for r in errs))
        ctx.nontrivial(c["kind"], c["exact"], res, dt, c["units"], gy, gx)


main(Spec("G01", cases, run,
          "particles tracked by their fitted intensity and shape (not by position) between both images of sampler batches, sub-pixel displacement against the returned flow at their position; uniform flows and one-grid-point-per-pixel geometries to 0.02 px, "
          "others within two grid cells times the gradient; non-trivial: distinct (flow, resolution, time step, unit, grid)",
          quick=80, thorough=2500, workers=(8, 8), quick_s=75, thorough_s=600, floors={"tracked": 300, "tracked-exact": 80, "tracked-varying": 100, "moved-at-least-half-pixel": 150, "padded": 3}))
