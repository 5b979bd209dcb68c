"""G08: the visible area is evenly seeded in both frames, up to its borders."""
import math, random
from vp import Spec, main


def cases(rng, tier):
    while True:
        res, dt = rng.choice([.5, 1.0, 2.0, 4.0]), rng.choice([.25, .5, 1.0, 2.0])
        hi = [rng.randint(4, 14) for _ in range(2)]       # speed bounds as pixels per frame pair (y, x)
        lo = [-rng.randint(4, 14) for _ in range(2)]
        side = [rng.choice(["hi", "hi", "lo", "lo", "any"]) for _ in range(2)]
        v = [(hi[k] - 2 if side[k] == "hi" else lo[k] + 2 if side[k] == "lo" else rng.uniform(lo[k] + 2, hi[k] - 2)) for k in range(2)]
        thick = rng.random() < .3
        tail, extra = [rng.choice([0, 0, 5]) for _ in range(2)], [rng.choice([0, 0, 3, 7]) for _ in range(2)]
        if thick:
            # hardly any motion towards an axis' end, thick particles: the sampler makes the room for their size itself
            # (with hidden particles or densities that vary), as long as there is flow there
            k = rng.randrange(2)
            hi[k], lo = rng.choice([0, 0, 1]), [-rng.randint(10, 14) for _ in range(2)]
            v = [min(v[0], hi[0]), min(v[1], hi[1])]
            v = [max(v[j], lo[j] + 2) for j in range(2)]
            extra = [11, 11]
        yield dict(thick=thick, res=res, dt=dt, hi=hi, lo=lo, v=v, im=[rng.randint(20, 30), rng.randint(20, 30)], extra=extra, tail=tail,
                   grid=rng.choice([1.0, 2.0]), density=rng.choice([[.04, .04], [.03, .05]]), hide=rng.choice([.1, .2]) if thick else rng.choice([0.0, 0.0, .2]), reuse=rng.choice([1, 4]), seed=rng.randrange(10 ** 6))


def run(ctx, c):
    import numpy as np
    from synth import Stub, spec, sampler
    res, dt, im = c["res"], c["dt"], c["im"]
    unit = lambda px: px / (res * dt)                    # pixels per pair -> measure units per second
    need = [c["hi"][k] / res for k in range(2)]
    off = [need[k] + c["extra"][k] / res for k in range(2)]
    size = [off[k] + (im[k] - c["lo"][k] + c["tail"][k]) / res for k in range(2)]
    shape = tuple(max(4, int(round(size[k] * res * c["grid"]))) for k in range(2))
    flow = np.zeros(shape + (2,), np.float32)
    flow[..., 0], flow[..., 1] = unit(c["v"][1]), unit(c["v"][0])
    B, N = 80, 5
    s = sampler(Stub(lambda k, n: np.repeat(flow[None], n, 0), shape + (2,)),
                spec(batch_size=B, image_shape=tuple(im), img_offset=tuple(off), dt=dt, seeding_density_range=tuple(c["density"]), diameter_ranges=[(2.8, 2.8) if c["thick"] else (1.0, 1.0)], intensity_ranges=[(60.0, 60.0)], p_hide_img1=c["hide"], p_hide_img2=c["hide"]),
                size=size, resolution=res, speeds=(unit(c["hi"][1]), unit(c["hi"][0]), unit(c["lo"][1]), unit(c["lo"][0])), reuse=c["reuse"], seed=c["seed"])
    acc = [[], []]
    for _ in range(N):
        b = next(s)
        for k, x in enumerate((b.images1, b.images2)):
            acc[k].append(np.asarray(x, np.float64))
    H, W = im
    w = 3
    strips = {"top": np.s_[:, :w, w:-w], "bottom": np.s_[:, -w:, w:-w], "left": np.s_[:, w:-w, :w], "right": np.s_[:, w:-w, -w:]}
    for k in range(2):
        a = np.concatenate(acc[k])
        inner = a[:, w:-w, w:-w].mean((1, 2))
        ctx.event("images", len(a))
        for name, sl in strips.items():
            m = a[sl].mean((1, 2))
            sig = math.sqrt(m.var(ddof=1) / len(m) + inner.var(ddof=1) / len(m)) + 1e-9
            z = (m.mean() - inner.mean()) / sig
            ctx.event("strips")
            ctx.row("z", float(z))
            ctx.check(abs(z) < 6 or abs(m.mean() / inner.mean() - 1) < .1, f"uneven-frame-{k + 1}",
                      lambda: f"frame {k + 1}, {name} strip: brightness {m.mean():.3f} against {inner.mean():.3f} inside ({z:+.1f} sigma); image {im}, moved by {c['v']} px (y, x), bounds {c['lo']}..{c['hi']} px, resolution {res}, dt {dt}")
    ctx.event("thick" if c["thick"] else "thin")
    ctx.nontrivial(c["hi"], c["lo"], [round(x) for x in c["v"]], res, dt, im)


def final(rows, events, fail):
    z = rows["z"]
    n = len(z)
    if n > 100:
        m = sum(z) / n
        if abs(m) * math.sqrt(n) > 8 and abs(m) > .5:
            fail("uneven-overall", f"mean deviation of {n} strips: {m:+.2f} sigma")


main(Spec("G08", cases, run,
          "image pairs of uniformly moving particles, every direction and magnitude within the speed bounds, brightness of border strips against the interior over hundreds of images; non-trivial: distinct (bounds, motion, geometry)",
          quick=72, thorough=2500, workers=(8, 8), quick_s=100, thorough_s=500, final=final,
          floors={"images": 40000, "strips": 500, "thick": 10}))
