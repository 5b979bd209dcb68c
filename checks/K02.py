"""K02: computed speed bounds enclose every stored velocity, tightly."""
import itertools, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = "bounds" if k % 3 else rng.choice(["panel", "panel", "panel", "script"])
        files = []
        for _ in range(rng.randint(1, 5)):
            files.append(dict(shape=rng.choice([[3, 2, 4, 2], [4, 1, 5, 2], [1, 1, 1, 2], [2, 6, 3, 2], [5, 4, 2], [1, 7, 2]]) if kind == "bounds" else [12, rng.randint(1, 3), 14, 2],
                              kind=rng.choice(["normal", "positive", "negative", "zero", "huge", "tiny", "spike"]), dtype=rng.choice(["float32", "float32", "float64", "int16"])))
        if kind == "bounds" and rng.random() < .25:     # one large file: many slices, long or wide
            files[rng.randrange(len(files))]["shape"] = rng.choice([[3, rng.randint(20, 150), 4, 2], [rng.randint(40, 300), 2, 5, 2], [2, 3, rng.randint(60, 700), 2], [rng.randint(100, 900), 9, 2], [64, 48, 80, 2]])
        c = dict(kind=kind, files=files, seed=rng.randrange(10 ** 9))
        if kind != "bounds":
            c["present"] = rng.sample(["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"], rng.choice([0, 0, 1, 2, 3, 4]))
            c["invalid"] = rng.random() < .25
            c["answers"] = rng.choice([["1", "y"], ["1", "y"], ["1", "y"], ["1", "Y"], ["1", "n"], ["2"], ["x"]])
            c["spoil"] = rng.choice([None] * 8 + ["missing file", "empty list", "no list", "extension", "not a string"])
        if kind == "script":
            c["present"], c["answers"], c["invalid"], c["spoil"] = rng.choice([[], ["max_speed_x"]]), ["1", "y"], False, None
        yield c


def run(ctx, c):
    import os, numpy as np, h5py, builtins
    from ruamel.yaml import YAML
    from synthpix import sanity
    from synthpix.utils import load_configuration
    r = np.random.default_rng(c["seed"])
    d = ctx.tmp()
    paths, data = [], []
    for i, f in enumerate(c["files"]):
        sh = tuple(f["shape"])
        sc = 1.0 if c["kind"] == "bounds" else .02
        a = {"normal": lambda: r.normal(size=sh) * 3 * sc, "positive": lambda: r.uniform(1, 5, sh) * sc, "negative": lambda: -r.uniform(1, 5, sh) * sc, "zero": lambda: np.zeros(sh), "huge": lambda: r.normal(size=sh) * (1e12 if c["kind"] == "bounds" else .05),
             "tiny": lambda: r.normal(size=sh) * 1e-12, "spike": lambda: np.where(np.arange(np.prod(sh)).reshape(sh) == r.integers(np.prod(sh)), 9.5 * sc * r.choice([-1, 1]), .01 * sc)}[f["kind"]]()
        if f["dtype"] == "int16":
            a = np.clip(np.round(a * 100 * (c["kind"] == "bounds")), -30000, 30000)
        a = a.astype(f["dtype"])
        p = os.path.join(d, f"f{i}.h5")
        with h5py.File(p, "w") as h:
            kw = [dict(), dict(chunks=True), dict(chunks=True, compression="gzip")][int(r.integers(3))]
            h.create_dataset(["flow", "V", "data", "0"][int(r.integers(4))], data=a, **kw)
        paths.append(p); data.append(a)
    ext = {f"{m}_speed_{'xy'[k]}": float(getattr(np, m)([getattr(np, m)(a[..., k]) for a in data])) for m in ("min", "max") for k in range(2)}
    what = f"{len(paths)} files of {[f['kind'] + ' ' + f['dtype'] + str(f['shape']) for f in c['files']]}"
    if c["kind"] == "bounds":
        orders = [list(range(len(paths)))] + [list(r.permutation(len(paths))) for _ in range(2)]
        for o in orders:
            got = sanity.calculate_min_and_max_speeds([paths[i] for i in o])
            bad = [k for k in ext if k not in got or float(got[k]) != ext[k]]
            ctx.check(set(got) == set(ext) and not bad, "bounds", lambda: f"{what} in order {o}: {bad} computed as {[got.get(k) for k in bad]}, the data say {[ext[k] for k in bad]}")
            ctx.check(all(type(v) is float for v in got.values()), "type", lambda: f"{what}: {[type(v) for v in got.values()]}")
        ctx.event("large-files", sum(np.prod(f["shape"]) > 400 for f in c["files"]))
        ctx.event("bounds", len(orders)); ctx.event("files", len(paths))
        ctx.nontrivial("bounds", c["seed"])
        return

    cfg = dict(batch_size=2, image_shape=[6, 5], img_offset=[2.0, 2.5], flow_field_size=[12.0, 14.0], seeding_density_range=[.1, .1], p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[[.5, 1]], diameter_var=0, intensity_ranges=[[80, 100]], intensity_var=0,
               rho_ranges=[[-.1, .1]], rho_var=0, dt=1.0, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0, batches_per_flow_batch=1, flow_fields_per_batch=1, resolution=1.0, velocities_per_pixel=1.0, seed=0, output_units="pixels", device_ids=[0], file_list=list(paths))
    have = {k: [float(r.uniform(1, 2) * (1 if k[:3] == "max" else -1)), 0.0, 0, (2 if k[:3] == "max" else -3)][int(r.choice([0, 0, 1, 2, 3]))] for k in c["present"]}
    cfg.update(have)
    missing = [k for k in ext if k not in have]
    if c["invalid"] and have:
        k = sorted(have)[0]
        cfg[k] = "fast"
        missing.append(k)
    bad_list = {"missing file": paths + [os.path.join(d, "none.h5")], "empty list": [], "extension": paths + [os.path.join(d, "x.npy")], "not a string": paths + [3]}
    if c["spoil"] == "extension":
        open(os.path.join(d, "x.npy"), "w").write("x")
    if c["spoil"] == "no list":
        del cfg["file_list"]
    elif c["spoil"]:
        cfg["file_list"] = bad_list[c["spoil"]]
    p = os.path.join(d, "config.yaml")
    y = YAML(typ="safe", pure=True)
    with open(p, "w") as f:
        y.dump(cfg, f)
    text = open(p).read()
    asked = []

    def answer(prompt=""):
        asked.append(str(prompt))
        if len(asked) > len(c["answers"]):
            raise EOFError("no more answers")
        return c["answers"][len(asked) - 1]
    keep, argv = builtins.input, None
    builtins.input = answer
    what += f", present {sorted(have)}, invalid {c['invalid']}, answers {c['answers']}, spoilt {c['spoil']}"
    try:
        if c["kind"] == "script":
            import sys
            argv, sys.argv = sys.argv, ["sanity", "--config", p]
            try:
                sanity.main()
                code = 0
            except SystemExit as e:
                code = e.code
            ctx.check(code in (0, None), "completed-configuration-rejected", lambda: f"{what}: the script ends with status {code} after computing the bounds and being told to continue")
            ctx.event("scripts")
            after = load_configuration(p)
            ctx.check(all(after.get(k) == ext[k] for k in ext), "written-bounds", lambda: f"{what}: file holds { {k: after.get(k) for k in ext} }, the data say {ext}")
            ctx.nontrivial("script", c["seed"])
            return
        try:
            got, err = sanity.missing_speeds_panel(p), None
        except (ValueError, RuntimeError, EOFError) as e:
            got, err = None, e
    finally:
        builtins.input = keep
        if argv is not None:
            sys.argv = argv
    after = dict(load_configuration(p))
    if c["spoil"]:
        ctx.check(isinstance(err, ValueError) and open(p).read() == text, "bad-list", lambda: f"{what}: {got} {err!r}")
        ctx.event("spoilt"); ctx.nontrivial("spoil", c["spoil"])
        return
    order = ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y")
    if not missing:
        ctx.check(got is not None and tuple(got) == tuple(have[k] for k in order), "existing-bounds", lambda: f"{what}: returned {got} {err!r} instead of {[have[k] for k in order]}")
        ctx.check(open(p).read() == text and not asked, "existing-bounds", lambda: f"{what}: file changed or user asked {asked}")
        ctx.event("existing"); ctx.nontrivial("existing", c["seed"])
        return
    ctx.check(len(asked) >= 1, "not-asked", lambda: f"{what}: user was not asked")
    if c["answers"][0] != "1":
        ctx.check(isinstance(err, RuntimeError) and open(p).read() == text, "declined", lambda: f"{what}: {got} {err!r}")
        ctx.event("declined"); ctx.nontrivial("declined", tuple(c["answers"]))
        return
    ctx.check(all(type(after.get(k)) is float and after.get(k) == ext[k] for k in ext), "written-bounds", lambda: f"{what}: file holds { {k: after.get(k) for k in ext} }, the data say {ext}")
    rest = {k: v for k, v in cfg.items() if k not in ext}
    ctx.check({k: v for k, v in after.items() if k not in ext} == rest, "other-settings", lambda: f"{what}: settings changed: { {k: (after.get(k), rest[k]) for k in rest if after.get(k) != rest[k]} }")
    if c["answers"][1].lower() == "y":
        ctx.check(got is not None and tuple(got) == tuple(ext[k] for k in order), "returned-bounds", lambda: f"{what}: returned {got} {err!r}, expected (max x, max y, min x, min y) = {[ext[k] for k in order]}")
        from synthpix.scheduler import HDF5FlowFieldScheduler
        from synthpix.sampler import SyntheticImageSampler
        s = SyntheticImageSampler.from_config(HDF5FlowFieldScheduler(after["file_list"], loop=False), after)
        ctx.check(s is not None, "sampler", what)
        ctx.event("completed")
    else:
        ctx.check(isinstance(err, RuntimeError), "declined", lambda: f"{what}: {got}")
        ctx.event("declined")
    ctx.nontrivial("panel", c["seed"])


main(Spec("K02", cases, run,
          "extrema of random HDF5 files (all-positive, all-negative, zero, single spike, integer types, three file orders) against NumPy over all data; the interactive completion driven with scripted answers, files compared before and after, sampler built with the result; "
          "non-trivial: distinct data sets and dialogues",
          quick=900, thorough=9000, workers=(6, 8), quick_s=120, thorough_s=400, floors={"bounds": 200, "existing": 2, "completed": 8, "declined": 6, "spoilt": 8, "scripts": 5}))
