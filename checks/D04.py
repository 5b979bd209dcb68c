"""D04: stored flow fields and images reach the batch bit for bit, without aliasing."""
import os, random
from vp import Spec, main


def cases(rng, tier):
    while True:
        fmt = rng.choice(["h5", "npy", "mat", "mat"])
        h, w = rng.choice([2, 3, 4, 5, 7, 9, 16, 31]), rng.choice([2, 3, 4, 5, 6, 8, 17, 30])
        yield dict(fmt=fmt, hw=[h, w], slices=rng.choice([1, 2, 3, 6]), dtype=rng.choice(["float32", "float32", "float64", "float16" if fmt != "mat" else "float32"]),
                   values=rng.choice(["normal", "special", "huge", "tiny"]), v73=rng.random() < .5, chfirst=rng.random() < .4 and w > 2,
                   images=fmt != "h5" and rng.random() < .7, loop=rng.random() < .5, nf=rng.choice([1, 2, 3, 4]), dup=rng.random() < .35,
                   plan=rng.choice([[1] * 4, [rng.choice([1, 1, 2, 3, 5]) for _ in range(4)]]), scribble=rng.random() < .7,
                   imdtype=rng.choice(["uint8", "uint8", "float32", "uint16"]), seed=rng.randrange(10**6))


def run(ctx, c):
    import numpy as np
    from data import write_h5, write_npy, write_jpg, write_mat, read_jpg, gray
    from world import World, name, same
    g = np.random.default_rng(c["seed"])
    H, W = c["hw"]
    w = World(ctx.tmp(), c["fmt"], (H, W), images=c["images"])

    def vals(shape):
        dt = np.dtype(c["dtype"])
        a = g.standard_normal(shape)
        a *= dict(normal=1, special=10, huge=1e4 if dt.itemsize == 2 else 1e30, tiny=1e-4 if dt.itemsize == 2 else 1e-37)[c["values"]]
        a = a.astype(dt)
        if c["values"] == "special":
            f = a.reshape(-1)
            f[g.integers(0, f.size, 4)] = [-0.0, np.inf, -np.inf, np.nan]
        return a

    exp, files = [], []
    for k in range(c["nf"]):
        p = os.path.join(w.root, "s", name(c["fmt"], 2 * k + 1))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if c["fmt"] == "h5":
            vol = vals((H, c["slices"], W, 2))
            write_h5(p, vol)
            exp += [(p, vol[:, y].copy(), None, None) for y in range(c["slices"])]
        elif c["fmt"] == "npy":
            a = vals((H, W, 2))
            write_npy(p, np.asfortranarray(a) if g.random() < .3 else a)
            ims = []
            for t in (2 * k, 2 * k + 1):
                q = os.path.join(w.root, "s", f"img_{t}.jpg")
                write_jpg(q, gray((H, W, 3), int(g.integers(1 << 30))))
                ims.append(read_jpg(q))
            exp.append((p, a, *ims))
        else:
            a = vals((H, W, 2))
            ims = [g.integers(0, 255, (H, W)).astype(c["imdtype"]) for _ in range(2)]
            arrs = dict(V=np.ascontiguousarray(a.transpose(2, 0, 1)) if c["chfirst"] else a)
            if c["images"] or g.random() < .5:
                arrs.update(I0=ims[0], I1=ims[1])
            if g.random() < .4:                     # further variables, also inside groups or structures, are no business of the scheduler
                ctx.event("further-variables")
                junk = dict(V=a * 0 - 5, I0=ims[1], I1=ims[0], t=np.arange(3.0))
                for n in g.choice(["A", "v", "U", "z", "V0", "VV", "I2", "IV"], 3, replace=False):
                    if g.random() < .5:
                        arrs[str(n)] = junk[str(g.choice(["V", "I0", "t"]))]
                    elif c["v73"]:
                        arrs.update({f"{n}/{q}": x for q, x in junk.items()})
                    else:
                        arrs[str(n)] = dict(junk)
            write_mat(p, c["v73"], **dict(sorted(arrs.items(), key=lambda _: g.random())))
            exp.append((p, a, *ims))
        files.append(p)
    if c["dup"]:                                    # a file may be listed several times, also in a row
        seq = [k for k in range(c["nf"]) for _ in range(random.Random(c["seed"]).choice([1, 2, 2, 3]))]
        per = len(exp) // c["nf"]
        exp = [e for k in seq for e in exp[k * per:(k + 1) * per]]
        files = [files[k] for k in seq]
        ctx.event("repeated-files")
    s = w.scheduler(files, loop=c["loop"])
    shp = s.get_flow_fields_shape()
    ctx.check(tuple(shp) == (H, W, 2), "announced-shape", f"get_flow_fields_shape() {shp} for samples {(H, W, 2)}")
    kept = []
    pos, j, total = 0, 0, len(exp)
    while pos < (2 * total if c["loop"] else total):
        n = c["plan"][j % 4]
        j += 1
        b = s.get_batch(n)
        real = int(sum(bool(m) for m in b.mask))
        if not ctx.check(real > 0, "empty-batch", ""):
            return
        fl = np.asarray(b.flow_fields)
        for i in range(real):
            p, a, i1, i2 = exp[(pos + i) % total]
            ctx.event("samples")
            if not ctx.check(fl[i].shape == a.shape, "flow-shape", lambda: f"{fl[i].shape} stored {a.shape} ({c['fmt']}, chfirst={c['chfirst']}, v73={c['v73']})"):
                return
            if not ctx.check(same(fl[i], a), "flow-differs", lambda: f"sample {pos + i} of {os.path.basename(p)} dtype {fl[i].dtype} vs {a.dtype}, "
                             f"{int((fl[i] != a).sum())} of {a.size} values differ ({c['values']}, batch {j})"):
                return
            if c["images"]:
                if not ctx.check(b.images1 is not None and b.images2 is not None, "images-missing", ""):
                    return
                for nm, got, want, other in (("first", b.images1[i], i1, i2), ("second", b.images2[i], i2, i1)):
                    if not same(got, want):
                        ctx.fail("images-swapped" if same(got, other) else "image-differs", f"{nm} image of {os.path.basename(p)}: shape {np.shape(got)} dtype {got.dtype} stored {want.shape} {want.dtype}")
                        return
                    ctx.event("images")
            else:
                ctx.check(b.images1 is None and b.images2 is None, "unrequested-images", "")
        for arrs, snap in kept:
            ctx.check(all(x.tobytes() == y for x, y in zip(arrs, snap)), "delivered-batch-changed", f"a batch delivered earlier changed while reading batch {j}")
        arrs = [x for x in (b.flow_fields, b.images1, b.images2) if x is not None]
        if c["scribble"]:
            for x in arrs:
                try:
                    x[...] = 99
                    ctx.event("scribbles")
                except ValueError:
                    pass                       # a read-only array exposes nothing
        kept.append((arrs, [x.tobytes() for x in arrs]))
        pos += real
    ctx.nontrivial(c["fmt"], c["hw"], c["dtype"], c["values"], c["v73"], c["chfirst"], c["images"], c["imdtype"])


main(Spec("D04", cases, run,
          "random arrays (specials, extremes, float16/32/64, non-square, channel-first, Fortran order, both MATLAB generations) written by independent writers; earlier batches are "
          "watched for change and overwritten by the consumer; non-trivial: distinct (format, shape, dtype, value class, generation, layout, images)",
          quick=2000, thorough=10000, floors={"samples": 1500, "images": 700, "scribbles": 500, "repeated-files": 100, "further-variables": 200},
          assumptions=["HDF5 volumes with two components", "MATLAB arrays with at least two rows and columns, three columns if channel-first (smaller ones are ambiguous)"]))
