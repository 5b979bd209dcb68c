"""D05: resizing MATLAB data keeps the flow consistent with the resized image."""
import os, random
from vp import Spec, main


def cases(rng, tier):
    sizes = [4, 6, 8, 10, 12, 15, 16, 20, 24, 32, 40, 48, 64]
    while True:
        src = [rng.choice(sizes), rng.choice(sizes)]
        dst = [rng.choice(sizes), rng.choice(sizes)]
        r = rng.random()
        if r < .12:
            dst = list(src)
        elif r < .3:
            dst[rng.randrange(2)] = src[0]
        elif r < .4:
            dst = [src[1], src[0]]
        # images may be stored on another grid than the flow
        im = src if rng.random() < .7 else rng.choice([dst, [rng.choice(sizes), rng.choice(sizes)], [dst[0], src[1]]])
        yield dict(src=src, dst=dst, im=list(im), field=rng.choice(["const", "linear", "linear", "random"]), images=rng.random() < .6, v73=rng.random() < .5,
                   chfirst=rng.random() < .3, sampler=rng.random() < .2, seed=rng.randrange(10**6))


def run(ctx, c):
    import numpy as np
    from data import write_mat, sched_class
    g = np.random.default_rng(c["seed"])
    (H, W), (h, w) = c["src"], c["dst"]
    ry, rx = h / H, w / W
    yy, xx = np.mgrid[0:H, 0:W].astype(np.float64)
    a = g.uniform(-3, 3, (2, 3))
    if c["field"] == "const":
        a[:, 1:] = 0
    if c["field"] == "random":
        V = g.uniform(-5, 5, (H, W, 2))
    else:
        V = np.stack([a[k, 0] + a[k, 1] * yy + a[k, 2] * xx for k in (0, 1)], -1)
    V = V.astype(np.float32)
    # images with distinguishable content: I0 grows along rows, I1 along columns
    HI, WI = c["im"]
    yi, xi = np.mgrid[0:HI, 0:WI].astype(np.float64)
    I0 = np.clip(20 + 200 * yi / HI, 0, 255).astype(np.uint8)
    I1 = np.clip(230 - 200 * xi / WI, 0, 255).astype(np.uint8)
    p = os.path.join(ctx.tmp(), "a.mat")
    write_mat(p, c["v73"], V=np.ascontiguousarray(V.transpose(2, 0, 1)) if c["chfirst"] else V, I0=I0, I1=I1)
    s = sched_class("mat")([p], loop=True, include_images=c["images"], output_shape=(h, w))
    ctx.check(tuple(s.get_flow_fields_shape()) == (h, w, 2), "announced-shape", s.get_flow_fields_shape())
    if c["sampler"] and c["images"]:
        from synthpix.sampler import RealImageSampler
        b = next(RealImageSampler(s, batch_size=2))
        ctx.event("through-sampler")
    else:
        b = s.get_batch(2)
    what = f"{(H, W)} -> {(h, w)}, images {tuple(c['im'])}, {c['field']}, chfirst={c['chfirst']}"
    fl = np.asarray(b.flow_fields, np.float64)
    if not ctx.check(fl.shape == (2, h, w, 2), "flow-shape", f"{what}: {fl.shape}"):
        return
    ctx.check(np.array_equal(fl[0], fl[1]), "not-repeatable", what)
    f = fl[0]
    if (H, W) == (h, w):
        ctx.check(np.array_equal(f, V.astype(np.float64)), "native-size-altered", what)
        ctx.event("native")
    else:
        ctx.event("resized")
        if H != h and W != w and abs(ry - rx) > .05:
            ctx.event("anisotropic")
        for k, ratio, nm in ((0, rx, "horizontal"), (1, ry, "vertical")):
            lo, hi = V[..., k].min() * ratio, V[..., k].max() * ratio
            eps = 1e-4 * (1 + max(abs(lo), abs(hi)))
            ctx.check(f[..., k].min() >= lo - eps and f[..., k].max() <= hi + eps, "out-of-range", lambda: f"{what}: {nm} component in [{f[..., k].min()}, {f[..., k].max()}], scaled input in [{lo}, {hi}]")
        if c["field"] != "random":
            # same physical position: pixel centres map by (i + .5) / ratio - .5
            Y, X = np.mgrid[0:h, 0:w].astype(np.float64)
            ys, xs = (Y + .5) / ry - .5, (X + .5) / rx - .5
            my, mx = max(1, 1 / ry) + .5, max(1, 1 / rx) + .5          # resampling at borders
            inside = (ys >= my) & (ys <= H - 1 - my) & (xs >= mx) & (xs <= W - 1 - mx)
            if c["field"] == "const":
                inside[:] = True
            if inside.any():
                ctx.event("compared-pixels", inside.sum())
                for k, ratio, nm in ((0, rx, "horizontal"), (1, ry, "vertical")):
                    ref = ratio * (a[k, 0] + a[k, 1] * ys + a[k, 2] * xs)
                    # a normalised triangle filter is off by a small part of a source pixel only
                    tol = 1e-3 + ratio * (abs(a[k, 1]) + abs(a[k, 2])) * .3 + 1e-5 * np.abs(ref).max()
                    err = np.abs(f[..., k] - ref)[inside].max()
                    ctx.check(err <= tol, "wrong-scaling-or-position", lambda: f"{what}: {nm} component off by {err:.4g} (tolerance {tol:.3g}), ratio {ratio:.3g}")
                ctx.nontrivial(c["src"], c["dst"], c["field"])
        else:
            ctx.nontrivial(c["src"], c["dst"], "range")
    if c["images"]:
        i1, i2 = np.asarray(b.images1, np.float64), np.asarray(b.images2, np.float64)
        if not ctx.check(i1.shape == (2, h, w) and i2.shape == (2, h, w), "image-shape", f"{what}: images {i1.shape} {i2.shape}"):
            return
        ctx.event("images", 2)
        ctx.event("images-on-another-grid", (HI, WI) != (H, W))
        if (HI, WI) == (h, w):
            ctx.check(np.array_equal(i1[0], I0) and np.array_equal(i2[0], I1), "native-size-altered", f"{what}: images")
        else:
            Y, X = np.mgrid[0:h, 0:w].astype(np.float64)
            r1 = 20 + 200 * ((Y + .5) * HI / h - .5) / HI
            r2 = 230 - 200 * ((X + .5) * WI / w - .5) / WI
            t1, t2 = 6 + 200 / HI * 1.2, 6 + 200 / WI * 1.2
            e1, e2 = np.abs(i1[0] - r1).max(), np.abs(i2[0] - r2).max()
            ctx.check(e1 <= t1 and e2 <= t2, "image-content", lambda: f"{what}: first image off by {e1:.1f} (tol {t1:.1f}), second by {e2:.1f} (tol {t2:.1f})")


main(Spec("D05", cases, run,
          "random source and target shapes (non-square, transposed, anisotropic, up and down, one axis only, native) with constant, linear and random fields; "
          "linear fields compared at physically equal positions; non-trivial: distinct (source, target, field)",
          quick=2000, thorough=10000, floors={"resized": 200, "anisotropic": 80, "native": 20, "compared-pixels": 10000, "images": 200, "through-sampler": 20, "images-on-another-grid": 100}))
