"""G04: hidden particles and frame-to-frame changes follow their settings."""
import math, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    calls = 2 if tier == "quick" else 4
    while True:
        k += 1
        pr = lambda: rng.choice([0.0, 1.0, .5, .1, .9, rng.random()])
        if k % 3 == 0:
            yield dict(kind="hide-single", p=[pr(), pr()], H=rng.randint(30, 50), W=rng.randint(30, 50), B=400, calls=calls, seed=rng.randrange(1000), via=rng.choice(["direct", "sampler"]))
        elif k % 3 == 1:
            yield dict(kind="hide-many", p=[pr(), pr()], H=rng.randint(40, 60), W=rng.randint(40, 60), n=rng.choice([10, 30, 40]), B=30, flow=rng.choice([[0, 0], [2, 1]]), seed=rng.randrange(1000))
        else:
            which = rng.choice([["d"], ["i"], ["r"], ["d", "i", "r"], []])
            big = rng.random() < .25
            yield dict(kind="vary", dv=("d" in which) * rng.choice([.0004, .0025, .01, 1.0 if big else .01]), iv=("i" in which) * rng.choice([1.0, 9.0, 25.0, 400.0 if big else 4.0]),
                       rv=("r" in which) * rng.choice([.0001, .0009, .04 if big else .0004]), H=rng.randint(30, 50), W=rng.randint(30, 50), B=400, calls=calls, wide=rng.random() < .8, seed=rng.randrange(1000), via=rng.choice(["direct", "sampler"]))


def run(ctx, c):
    import numpy as np
    from gen import generate, fit_many, spot_mass, corr_ok, binom_ok
    from synth import spec, sampler, Stub
    H, W = c["H"], c["W"]

    def produce(**kw):
        gs = spec(**kw)
        if c.get("via") == "sampler":
            # the sampler may enlarge the seeded area; the image then holds 0, 1 or several particles, so only the direct route seeds exactly one
            s = sampler(Stub(lambda k, n: np.zeros((n, 8, 8, 2)), (8, 8, 2)), gs, size=(float(H) + 12, float(W) + 12), speeds=(0.0, 0.0, 0.0, 0.0), seed=c["seed"], devices=[0])
            bs = [next(s) for _ in range(c["calls"])]
            return tuple(np.concatenate([np.asarray(getattr(b, k), float) for b in bs]) for k in ("images1", "images2"))
        return generate(c["seed"], np.zeros((1, 6, 6, 2)), gs, (H, W), calls=c["calls"])[:2]

    if c["kind"] == "hide-single":
        p1, p2 = c["p"]
        dn = 1.3 / (H * W)
        kw = dict(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(dn, dn), intensity_ranges=[(50.0, 150.0)], diameter_ranges=[(2.0, 3.0)])
        a1, a2 = produce(p_hide_img1=p1, p_hide_img2=p2, **kw)
        what = f"hiding probabilities {c['p']}, {c['via']}"
        if c["via"] == "direct":
            o1, o2 = produce(**kw)
            v1, v2 = a1.reshape(len(a1), -1).max(1) > 10, a2.reshape(len(a2), -1).max(1) > 10
            n = len(v1)
            ctx.check((o1.reshape(n, -1).max(1) > 10).all() and (o2.reshape(n, -1).max(1) > 10).all(), "never-hidden", lambda: f"{what}: with probabilities zero a particle is missing")
            for nm, v, p in (("first", v1, p1), ("second", v2, p2)):
                ctx.check(binom_ok(int((~v).sum()), n, p), "hiding-rate", lambda: f"{what}: {int((~v).sum())} of {n} particles hidden in the {nm} image")
            ctx.check(binom_ok(int((~v1 & ~v2).sum()), n, p1 * p2), "hiding-not-independent", lambda: f"{what}: hidden in both images {int((~v1 & ~v2).sum())} of {n} times, expected {p1 * p2 * n:.0f}")
            ctx.check(np.abs(a1 - o1)[v1].max(initial=0) < 1e-3 and np.abs(a2 - o2)[v2].max(initial=0) < 1e-3, "hiding-changes-visible", lambda: f"{what}: visible particles differ from those of a run without hiding")
            ctx.check(a1[~v1].max(initial=0) == 0 and a2[~v2].max(initial=0) == 0, "hidden-but-drawn", lambda: f"{what}: a hidden particle left traces")
            ctx.event("single-particles", n)
        else:
            if p1 == 1 or p2 == 1:
                ctx.check((p1 < 1 or a1.max() == 0) and (p2 < 1 or a2.max() == 0), "hidden-but-drawn", lambda: f"{what}: particles drawn although hidden with probability one")
            if p1 == 0 == p2:
                ctx.check(np.abs(a1 - a2).max() < 1e-3, "never-hidden", lambda: f"{what}: images of still particles differ")
            if 0 < p1 < 1:
                m = a1.reshape(len(a1), -1).max(1) > 10
                ctx.check(m.any() and not m.all(), "hiding-rate", lambda: f"{what}: particles in {m.sum()} of {len(m)} first images")
            ctx.event("via-sampler")
        ctx.event("p-extreme", (p1 in (0, 1)) + (p2 in (0, 1)))
        ctx.nontrivial("single", tuple(c["p"]), c["via"])
        return

    if c["kind"] == "hide-many":
        p1, p2 = c["p"]
        n, d, I0 = c["n"], 2.0, 5.0
        dn = (n + .5) / (H * W)
        kw = dict(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(dn, dn), intensity_ranges=[(I0, I0)], diameter_ranges=[(d, d)])
        fl = np.zeros((1, H, W, 2)) + np.array(c["flow"])
        a1, a2, _ = generate(c["seed"], fl, spec(p_hide_img1=p1, p_hide_img2=p2, **kw), (H, W))
        o1, o2, _ = generate(c["seed"], fl, spec(**kw), (H, W))
        m = spot_mass(d) * I0
        what = f"{n} particles per image, hiding probabilities {c['p']}"
        for nm, a, o, p in (("first", a1, o1, p1), ("second", a2, o2, p2)):
            ctx.check((a <= o + 1e-3).all(), "hiding-changes-visible", lambda: f"{what}: {nm} images show brightness that the run without hiding does not")
            k = a.reshape(c["B"], -1).sum(1) / m
            ctx.check((np.abs(k - np.round(k)) < .45).all(), "partly-hidden", lambda: f"{what}: visible brightness corresponds to {k[:5]} particles")
            tot = int(round(np.round(k).sum()))
            ctx.check(binom_ok(n * c["B"] - tot, n * c["B"], p), "hiding-rate", lambda: f"{what}: {n * c['B'] - tot} of {n * c['B']} particles hidden in the {nm} images")
            if p == 0:
                ctx.check(np.abs(a - o).max() < 1e-3, "never-hidden", lambda: f"{what}: {nm} images differ from the run without hiding")
            if 0 < p < 1:                          # particles are hidden one by one, not all of an image together
                var = np.var(np.round(k), ddof=1) / (n * p * (1 - p))
                dof = c["B"] - 1
                ctx.check(.15 < var < 1 + 8 * math.sqrt(2 / dof) or n * p * (1 - p) < 1, "hiding-not-independent", lambda: f"{what}: the number hidden per {nm} image varies {var:.2f} times as much as for independent particles")
            ctx.event("many-images", c["B"])
        if 0 < p1 < 1 and 0 < p2 < 1 and c["flow"] == [0, 0] and p1 == p2:
            ctx.check(np.abs(a1 - a2).max() > 1, "hiding-not-independent", lambda: f"{what}: the same particles are hidden in both images")
        ctx.nontrivial("many", tuple(c["p"]), n)
        return

    dr, ir, rr = ((2.0, 5.0), (60.0, 240.0), (-.6, .6)) if c["wide"] else ((2.5, 3.0), (100.0, 120.0), (-.1, .2))
    dn = 1.3 / (H * W)
    a1, a2 = produce(batch_size=c["B"], image_shape=(H, W), img_offset=(0, 0), seeding_density_range=(dn, dn), diameter_ranges=[dr], intensity_ranges=[ir], rho_ranges=[rr], diameter_var=c["dv"], intensity_var=c["iv"], rho_var=c["rv"])
    f1, f2 = fit_many(a1), fit_many(a2)
    ok = f1["ok"] & f2["ok"]
    what = f"variances {c['dv']}, {c['iv']}, {c['rv']}, ranges {dr}, {ir}, {rr}, {c['via']}"
    if not ctx.check(ok.mean() > .7, "no-particle", lambda: f"{what}: only {ok.sum()} of {len(ok)} pairs show a measurable particle in both images"):
        return
    ctx.check(np.abs(f1["x"] - f2["x"])[ok].max() < 5e-3 and np.abs(f1["y"] - f2["y"])[ok].max() < 5e-3, "moved-without-flow", lambda: f"{what}: particles moved by up to {np.abs(f1['x'] - f2['x'])[ok].max()} px in still flow")
    z = {}
    for nm, q, var, tol in (("dx", dr, c["dv"], .01), ("dy", dr, c["dv"], .01), ("peak", ir, c["iv"], .3), ("rho", rr, c["rv"], .01)):
        a, b = f1[nm][ok], f2[nm][ok]
        ctx.check(b.min() > q[0] - tol and b.max() < q[1] + tol, f"{nm}-leaves-range", lambda: f"{what}: second-image {nm} from {b.min():.4f} to {b.max():.4f}, range {q}")
        if var == 0:
            ctx.check(np.abs(a - b).max() < tol, f"{nm}-changes-without-variance", lambda: f"{what}: {nm} changes by up to {np.abs(a - b).max()} between the images")
            ctx.event("zero-variance")
            continue
        sd = math.sqrt(var)
        mid = (a > q[0] + 5.5 * sd) & (a < q[1] - 5.5 * sd)
        if nm == "dy":                              # its first value may sit on the limit, which is excluded here as well
            mid &= True
        n = int(mid.sum())
        if n < 60:
            if sd > (q[1] - q[0]):                   # much larger than the range: both ends must be reached
                ctx.check((b < q[0] + tol).any() and (b > q[1] - tol).any(), f"{nm}-variance", lambda: f"{what}: {nm} not clipped to both ends")
            ctx.event("clipped-variance")
            continue
        e = (b - a)[mid] / sd
        z[nm] = (mid, (b - a) / sd)
        ctx.check(abs(e.mean()) < 6.5 / math.sqrt(n) + .02, f"{nm}-drift", lambda: f"{what}: mean change of {nm} is {e.mean() * sd:.4g} over {n} particles (standard deviation {sd:.3g})")
        ctx.check(abs(e.var() - 1) < 9 * math.sqrt(2 / n) + .03, f"{nm}-variance", lambda: f"{what}: variance of the change of {nm} is {e.var() * var:.4g} over {n} particles instead of {var:.4g}")
        ctx.event("variance-samples", n)
    names = sorted(z)
    for i, a in enumerate(names):
        for b in names[:i]:
            m = z[a][0] & z[b][0]
            if m.sum() > 100:
                ctx.check(corr_ok(z[a][1][m], z[b][1][m]), "changes-correlated", lambda: f"{what}: changes of {a} and {b} correlate ({np.corrcoef(z[a][1][m], z[b][1][m])[0, 1]:.2f})")
                ctx.event("independence-tests")
    ctx.nontrivial("vary", c["dv"], c["iv"], c["rv"], c["wide"])


main(Spec("G04", cases, run,
          "visibility counted on single-particle and many-particle images in both frames against the configured probabilities (exact binomial tails below 1e-9) and against runs without hiding for the same key; "
          "second-frame sizes, intensities and correlations fitted on hundreds of particles per case against the configured variances; non-trivial: distinct settings",
          quick=48, thorough=900, workers=(6, 8), quick_s=60, thorough_s=600, floors={"single-particles": 1500, "many-images": 300, "zero-variance": 8, "variance-samples": 2000, "via-sampler": 2, "p-extreme": 4}))
