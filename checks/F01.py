"""F01: the returned flow is the imaged region of the stored field, in its units."""
import math, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        H, W = rng.randint(6, 40), rng.randint(6, 40)
        res = rng.choice([1.0, 1.0, 2.0, 10.0, 100.0, 7.3, .5, rng.uniform(.3, 50)])
        c = dict(H=H, W=W, res=res, dt=rng.choice([1.0, .1, .026, 2.0, 1]), exact=k % 2 == 0, units=rng.choice(["pixels", "measure units per second"]), route=rng.choice(["sampler", "adapter"]), F=rng.choice([1, 1, 2, 3]), B=rng.choice([3, 4, 5]), seed=rng.randrange(10 ** 6),
                 step=rng.choice([1, 1, 1, 2]))
        if c["exact"]:                               # a whole number of grid points per pixel and whole offsets: must be exact for any field
            c.update(off=[rng.randint(0, 12), rng.randint(0, 12)], extra=[rng.randint(1, 9), rng.randint(1, 9)], field=rng.choice(["linear", "random", "random"]), vpp=1.0, pad=False, gpp=rng.choice([1, 1, 2]))
        else:
            c.update(off=[rng.uniform(0, 12), rng.uniform(0, 12)], extra=[rng.uniform(.5, 12), rng.uniform(.5, 12)], field="linear", vpp=rng.choice([1.0, .5, 2.0, .75, 1.3]), grid=[rng.choice([6, 10, 25, 60, 110]), rng.choice([6, 10, 25, 60, 110])], pad=rng.random() < .4)
        c["mx"] = [rng.choice([0.0, rng.uniform(0, 1)]) for _ in range(2)]       # speed bounds as a share of the admissible
        c["mn"] = [rng.choice([0.0, rng.uniform(0, 1)]) for _ in range(2)]
        yield c


def run(ctx, c):
    import numpy as np, jax.numpy as jnp
    from synth import Stub, spec, sampler
    from interp import ref
    H, W, res, dt = c["H"], c["W"], c["res"], c["dt"]
    N, M = c["off"][0] + H + c["extra"][0], c["off"][1] + W + c["extra"][1]
    gy, gx = (N * c["gpp"], M * c["gpp"]) if c["exact"] else c["grid"]
    r = np.random.default_rng(c["seed"])
    co = r.uniform(-1, 1, (c["F"], 2, 3))
    Y, X = np.meshgrid(np.arange(gy) * (N / gy), np.arange(gx) * (M / gx), indexing="ij")       # position of the grid points in pixels
    if c["field"] == "random":
        st = r.normal(size=(c["F"], gy, gx, 2))
    else:
        st = np.stack([np.stack([a[0] + a[1] * X + a[2] * Y for a in q], -1) for q in co])
    st = st.astype(np.float32)
    size = (N / res, M / res)
    eps = 1e-9 * max(size)
    off = tuple(o / res + eps for o in c["off"])
    what = f"{c['field']} field {gy}x{gx} over {N:.2f}x{M:.2f} px, image {H}x{W} at {c['off']}, resolution {res}, dt {dt}, {c['units']}, vpp {c['vpp']}, speeds {c['mx']} {c['mn']}, padded {c['pad']}, {c['route']}"
    nh, nw = int(H * c["vpp"]), int(W * c["vpp"])
    if c["route"] == "adapter":
        from synthpix.utils import flow_field_adapter
        io = [int(c["off"][0] * c["mx"][0]), int(c["off"][1] * c["mx"][1])] if c["exact"] else [c["off"][0] * c["mx"][0], c["off"][1] * c["mx"][1]]
        po = [(o - i) / res for o, i in zip(c["off"], io)]
        pb = (int(io[0] + H), int(io[1] + W))
        got, bounds = flow_field_adapter(jnp.asarray(st), new_flow_field_shape=(nh, nw), image_shape=(H, W), img_offset=tuple(io), resolution=res, res_x=gx / size[1], res_y=gy / size[0], position_bounds=pb, position_bounds_offset=tuple(po), batch_size=c["B"], output_units=c["units"], dt=dt, zero_padding=(0, 0))
        got = np.asarray(got, np.float64)
        pad = False
        ctx.event("adapter")
    else:
        lim = lambda o: o / res / dt * (1 - 1e-6)
        mx = [lim(c["off"][k]) * c["mx"][k] for k in range(2)]
        mn = [-lim(c["extra"][k]) * c["mn"][k] for k in range(2)]
        if c["exact"]:                               # whole-pixel seeding margins
            mx = [math.floor(m * res * dt) / res / dt for m in mx]
        gs = spec(batch_size=c["B"], image_shape=(H, W), img_offset=off, seeding_density_range=(.002, .004) if c["pad"] else (.003, .003), dt=dt, diameter_ranges=[(1.0, 2.0)])
        s = sampler(Stub(lambda k, n: st[(np.arange(n) + k * c["step"]) % len(st)], (gy, gx, 2)), gs, size=tuple(x + 3 * eps for x in size), resolution=res, vpp=c["vpp"], seed=0, speeds=(mx[1], mx[0], mn[1], mn[0]), units=c["units"], flows=min(c["F"], c["B"]), devices=[0])
        got = np.asarray(next(s).flow_fields, np.float64)
        pad = any(getattr(s, "zero_padding", (0, 0)))
        ctx.event("sampler"); ctx.event("padded", pad)
    if not ctx.check(got.shape == (c["B"], nh, nw, 2), "shape", lambda: f"{what}: {got.shape} instead of {(c['B'], nh, nw, 2)}"):
        return
    scale = res * dt if c["units"] == "pixels" else 1.0
    for e in range(c["B"]):
        f = e % min(c["F"], c["B"])
        if c["exact"]:
            cut = st[f].astype(np.float64)
            # sampled between the first grid point of the image and its last one
            ys = c["off"][0] * c["gpp"] + np.linspace(0, H * c["gpp"] - 1, nh)
            xs = c["off"][1] * c["gpp"] + np.linspace(0, W * c["gpp"] - 1, nw)
            q = np.meshgrid(ys, xs, indexing="ij")
            want = np.stack([ref(cut[..., k], q)[0] for k in range(2)], -1) * scale
            step = max(np.abs(np.diff(cut, axis=0)).max(initial=0), np.abs(np.diff(cut, axis=1)).max(initial=0)) * scale
            err = np.abs(got[e] - want)
            if c["gpp"] > 1:                         # between grid points any sampling within one grid cell will do; whole-pixel grids leave no freedom
                ok = c["field"] == "random" or err.max() <= step * 2 + 1e-3 * scale
                i = np.unravel_index(np.argmax(err), err.shape)
                ctx.check(ok, "region-dense", lambda: f"{what}: entry {e}, position {i[:2]}, component {i[2]}: {got[e][i]} instead of {want[i]}")
                continue
            i = np.unravel_index(np.argmax(err), err.shape)
            tol = 2e-3 * step + 2e-5 * scale * (1 + np.abs(cut).max())
            ctx.check(err[i] <= tol, "region-exact", lambda: f"{what}: entry {e}, row {i[0]}, column {i[1]}, component {i[2]}: {got[e][i]} instead of the stored {want[i]}")
            ctx.event("exact-entries"); ctx.event("exact-" + c["field"])
        else:
            a = co[f]
            cell = (N / gy, M / gx)
            y, x = np.meshgrid(c["off"][0] + (np.arange(nh) + .5) / nh * H, c["off"][1] + (np.arange(nw) + .5) / nw * W, indexing="ij")
            for k in range(2):
                # positions outside the grid points keep the edge value, so compare with the field at the clamped position
                yc, xc = np.clip(y, 0, N - cell[0]), np.clip(x, 0, M - cell[1])
                want = (a[k][0] + a[k][1] * xc + a[k][2] * yc) * scale
                slack = 1 + 1 * pad
                tol = scale * (abs(a[k][1]) * (slack * cell[1] + 1.6 + .5 / c["vpp"]) + abs(a[k][2]) * (slack * cell[0] + 1.6 + .5 / c["vpp"])) + 1e-4 * scale * (1 + np.abs(want / scale).max())
                err = np.abs(got[e][..., k] - want)
                i = np.unravel_index(np.argmax(err), err.shape)
                if not ctx.check(err[i] <= tol, "region-padded" if pad else "region", lambda: f"{what}: entry {e}, position {i}, component {k}: {got[e][i][k]} instead of {want[i]} +- {tol}"):
                    return
            ctx.event("coarse-entries"); ctx.event("padded-entries", pad)
    ctx.event(c["units"])
    ctx.nontrivial(c["exact"], c["route"], c["field"], res, dt, c["units"], gy, gx, H, W)


main(Spec("F01", cases, run,
          "returned flow fields of sampler batches and direct adapter calls for random and coordinate-encoding stored fields: exact crops where grid points and pixels coincide, within one grid cell and one pixel otherwise (two cells when padded); both units; "
          "non-trivial: distinct (route, field, resolution, time step, unit, grid, shape)",
          quick=120, thorough=4000, workers=(8, 8), quick_s=60, thorough_s=500, floors={"sampler": 20, "adapter": 20, "exact-entries": 40, "exact-random": 20, "coarse-entries": 40, "padded-entries": 8, "pixels": 20, "measure units per second": 20}))
