"""G03: particle populations follow the requested density and parameter ranges."""
import math, random
from vp import Spec, main

D = [(2.0, 2.4), (2.5, 2.5), (2.6, 3.4), (3.5, 5.0), (2.0, 5.0), (1.2, 1.8), (2, 4)]
I = [(50.0, 60.0), (70.0, 70.0), (80.0, 140.0), (150.0, 250.0), (20, 40)]
R = [(-.5, -.3), (0.0, 0.0), (.1, .4), (-.9, .9), (.45, .6)]


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 6 == 2:
            yield dict(kind="edges", H=rng.randint(9, 14), W=rng.randint(9, 14), B=4000, calls=1 if tier == "quick" else 3, seed=rng.randrange(1000))
        elif k % 3 == 1:
            a, b = sorted(rng.choice([0.0, .001, .004, .01, .013, rng.uniform(0, .02)]) for _ in range(2))
            H, W = rng.randint(30, 60), rng.randint(30, 60)
            if rng.random() < .3:
                a = b = rng.randint(1, 40) / (H * W)          # the product is (nearly) a whole number
            yield dict(kind="count", H=H, W=W, dens=[a, min(b, 40.9 / (H * W))] if a <= 40.9 / (H * W) else [b * 0, min(b, 40.9 / (H * W))], B=rng.choice([8, 16, 40]), d=rng.choice([2.0, 3.0]), seed=rng.randrange(1000))
        else:
            pick = lambda pool: [list(x) for x in rng.sample(pool, rng.choice([1, 2, 2, 3]))]
            d = pick(D)
            if max(x[1] for x in d) < 2:
                d.append([2.5, 2.5])
            yield dict(kind="single", d=d, i=pick(I), r=pick(R), H=rng.randint(36, 60), W=rng.randint(36, 60), B=400, calls=2 if tier == "quick" else 4, via=rng.choice(["direct", "direct", "sampler"]), seed=rng.randrange(1000))


def run(ctx, c):
    import numpy as np
    from gen import generate, fit_many, spot_mass, ks, corr_ok, binom_ok
    from synth import spec, sampler, Stub
    H, W = c["H"], c["W"]
    if c["kind"] == "count":
        lo, hi = c["dens"]
        I0 = 5.0
        gs = spec(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(lo, hi), diameter_ranges=[(c["d"], c["d"])], intensity_ranges=[(I0, I0)])
        i1, i2, p = generate(c["seed"], np.zeros((1, 7, 9, 2)), gs, (H, W))
        dens = p["seeding_densities"].astype(float)
        what = f"{H}x{W}, density range {c['dens']}, batch of {c['B']}"
        ctx.check(dens.shape == (c["B"],) and (dens >= lo * (1 - 1e-6) - 1e-12).all() and (dens <= hi * (1 + 1e-6)).all(), "density-out-of-range", lambda: f"{what}: reported densities {dens.min()}..{dens.max()}")
        if hi > lo and c["B"] > 4:
            ctx.check(len(set(dens.tolist())) > 1, "density-not-sampled", lambda: f"{what}: all images report density {dens[0]}")
            ctx.row("dens", ((dens - lo) / (hi - lo)).tolist())
        m = spot_mass(c["d"]) * I0
        for nm, im in (("first", i1), ("second", i2)):
            for b in range(c["B"]):
                n = im[b].sum() / m
                want = H * W * dens[b]
                ok = {math.floor(want), math.floor(want + 1e-4), math.floor(want - 1e-4)}
                if not ctx.check(any(abs(n - max(0, w)) <= .45 for w in ok), "particle-count", lambda: f"{what}: {nm} image {b} holds about {n:.2f} particles, density {dens[b]} over {H * W} pixels asks for {sorted(ok)}"):
                    break
                ctx.event("counted-images"); ctx.event("particles", round(n))
        ctx.nontrivial("count", H, W, tuple(c["dens"]))
        return
    if c["kind"] == "edges":
        # small images, one small particle each: the outermost rows and columns get their share too. Particles nearer to
        # the border than the patch radius may be drawn at that distance instead: they count there
        pr = 3
        dn = 1.3 / (H * W)
        i1, _, _ = generate(c["seed"], np.zeros((1, 6, 6, 2)), spec(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(dn, dn), diameter_ranges=[(2.0, 2.0)], intensity_ranges=[(60.0, 60.0)], rho_ranges=[(0.0, 0.0)]), (H, W), calls=c["calls"])
        f = fit_many(i1)
        ok = f["ok"]
        n = int(ok.sum())
        if not ctx.check(n > .8 * len(ok), "no-particle", lambda: f"only {n} of {len(ok)} single-particle images of {H}x{W} show a measurable particle"):
            return
        for v, L in ((f["y"][ok], H), (f["x"][ok], W)):
            for nm, k, p in (("first", (v < pr + .02).sum(), (pr + .02) / L), ("last", (v > L - pr - .02).sum(), (pr + .02) / L), ("middle", ((v > pr + .02) & (v < L - pr - .02)).sum(), 1 - 2 * (pr + .02) / L)):
                # .003: measurement error around the two limits
                ctx.check(abs(k - n * p) < 6.3 * math.sqrt(n * p * (1 - p)) + .003 * n + 3, "uneven-to-the-border", lambda: f"{k} of {n} particles in the {nm} part of an axis of {L} pixels, expected about {n * p:.0f}")
        ctx.event("border-particles", n)
        ctx.nontrivial("edges", H, W)
        return
    T = lambda v: [tuple(x) for x in v]
    d, i, r = T(c["d"]), T(c["i"]), T(c["r"])
    dn = 1.3 / (H * W)
    kw = dict(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(dn, dn), diameter_ranges=d, intensity_ranges=i, rho_ranges=r)
    if c["via"] == "direct":
        i1, i2, p = generate(c["seed"], np.zeros((1, 6, 6, 2)), spec(**kw), (H, W), calls=c["calls"])
    else:
        s = sampler(Stub(lambda k, n: np.zeros((n, 10, 10, 2)), (10, 10, 2)), spec(**kw), size=(float(H), float(W)), speeds=(0.0, 0.0, 0.0, 0.0), seed=c["seed"], devices=[0])
        bs = [next(s) for _ in range(c["calls"])]
        i1 = np.concatenate([np.asarray(b.images1, float) for b in bs])
        p = {k: np.concatenate([np.asarray(getattr(b.params, k)) for b in bs]) for k in ("diameter_ranges", "intensity_ranges", "rho_ranges", "seeding_densities")}
        ctx.event("via-sampler")
    f = fit_many(i1)
    pr = int(3 * max(x[1] for x in d) / 2)
    what = f"diameters {d}, intensities {i}, correlations {r}, {c['via']}"
    # a fit needs the 3x3 neighbourhood inside the rendered patch; strongly correlated thin spots may underflow
    ok = f["ok"] & (f["dx"] > 1.0) & (f["dy"] > 1.0)
    if not ctx.check(ok.mean() > .8, "no-particle", lambda: f"{what}: only {ok.sum()} of {len(ok)} single-particle images show a measurable particle (brightest pixels {i1.reshape(len(i1), -1).max(1)[:5]})"):
        return
    n = int(ok.sum())
    for nm, rep, req, vals, tol in (("diameter", p["diameter_ranges"], d, (f["dx"], f["dy"]), .02), ("intensity", p["intensity_ranges"], i, (f["peak"],), 1.0), ("correlation", p["rho_ranges"], r, (f["rho"],), .02)):
        rep = rep.astype(float)
        idx = np.array([next((k for k, q in enumerate(req) if abs(a - q[0]) < 1e-4 and abs(b - q[1]) < 1e-4), -1) for a, b in rep])
        ctx.check(rep.shape == (len(i1), 2) and (idx >= 0).all(), f"{nm}-report", lambda: f"{what}: reported ranges {rep[idx < 0][:3]} were not requested")
        for k in range(len(req)):
            share = (idx == k).sum()
            ctx.check(binom_ok(int(share), len(idx), 1 / len(req)), f"{nm}-range-use", lambda: f"{what}: range {req[k]} used in {share} of {len(idx)} images")
        for v in vals:
            out = ok & ((v < rep[:, 0] - tol * (1 + .002 * rep[:, 0])) | (v > rep[:, 1] + tol * (1 + .002 * rep[:, 1])))
            ctx.check(not out.any(), f"{nm}-out-of-range", lambda: f"{what}: particle with {nm} {v[out][0]:.4f} in an image reporting {rep[out][0]}")
            for k, q in enumerate(req):
                m = ok & (idx == k)
                if q[1] - q[0] > 4 * tol and m.sum() > 100:
                    u = (v[m] - q[0]) / (q[1] - q[0])
                    if nm == "diameter" and v is f["dy"]:
                        ctx.check(u.min() < .25 and u.max() > .75, f"{nm}-span", lambda: f"{what}: range {q} used only from {v[m].min()} to {v[m].max()}")
                    elif nm != "correlation" or max(abs(q[0]), abs(q[1])) < .7:
                        st = ks(np.clip(u, 0, 1))
                        ctx.check(st < 3.4 + .2, f"{nm}-span", lambda: f"{what}: values in range {q} are not spread over it (KS {st:.1f}, {v[m].min():.3f}..{v[m].max():.3f}, {m.sum()} particles)")
                    ctx.event(f"{nm}-span")
    # positions: uniform away from the border band in which patches are kept inside
    for v, L in ((f["y"], H), (f["x"], W)):
        m = ok & (v > pr + .01) & (v < L - pr - .01)
        if m.sum() > 60:
            st = ks((v[m] - pr - .01) / (L - 2 * pr - .02))
            ctx.check(st < 3.6, "positions-not-uniform", lambda: f"{what}: positions along an axis of {L} pixels are not uniform (KS {st:.1f})")
        ctx.check(binom_ok(int((ok & (v > L / 2)).sum()), n, .5, 1e-10), "positions-not-uniform", lambda: f"{what}: {int((ok & (v > L / 2)).sum())} of {n} particles in the second half")
    ctx.check(corr_ok(f["x"][ok], f["y"][ok]), "positions-correlated", lambda: f"{what}: x and y correlate")
    ctx.check(len({(round(a, 4), round(b, 4)) for a, b in zip(f["y"][ok], f["x"][ok])}) >= .97 * n * (1 - (2 * pr / min(H, W)) ** 2) , "positions-repeat", lambda: f"{what}: the same positions appear in several images")
    for a, b in (("x", "dx"), ("x", "peak"), ("y", "peak"), ("dx", "peak"), ("y", "rho")):
        if len(d) == len(i) == len(r) == 1 or a in "xy":
            ctx.check(corr_ok(f[a][ok], f[b][ok]), "parameters-correlated", lambda: f"{what}: {a} and {b} correlate")
    ctx.event("fitted-particles", n)
    ctx.nontrivial("single", T(c["d"]), T(c["i"]), T(c["r"]))


def final(rows, events, fail):
    from gen import ks
    u = [x for r in rows.get("dens", []) for x in r]
    if len(u) > 200 and ks([min(1, max(0, x)) for x in u]) > 3.6:
        fail("density-span", f"reported densities of {len(u)} images are not spread over the requested ranges")


main(Spec("G03", cases, run,
          "particle counts from total brightness against reported densities; position, size, correlation and intensity fitted on hundreds of single-particle images per case against the reported and requested ranges, "
          "with coverage and uniformity statistics (levels below 1e-9); non-trivial: distinct settings",
          quick=48, thorough=900, workers=(6, 8), quick_s=60, thorough_s=600, final=final, floors={"counted-images": 100, "fitted-particles": 5000, "border-particles": 8000, "diameter-span": 8, "intensity-span": 5, "via-sampler": 4}))
