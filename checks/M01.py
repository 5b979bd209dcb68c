"""M01: every valid configuration yields a pipeline that honours all its options."""
import copy, os, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 5 == 0:
            yield dict(kind="reject", fmt=rng.choice(["h5", "npy", "mat"]), images=rng.random() < .3, wrap=rng.choice(["", "buffer", "episode"]), seed=rng.randrange(10**6))
            continue
        fmt = rng.choice(["h5", "npy", "mat"])
        images = fmt == "mat" and rng.random() < .5
        L = rng.choice([1, 2, 3]) if fmt == "mat" and rng.random() < .4 else 0
        B = rng.choice([1, 2, 3, 4, 5])
        F = rng.choice([1, B, rng.randint(1, B)])
        nd = rng.randint(2, 4) if L else rng.choice([1, 2])
        c = dict(kind="run", fmt=fmt, images=images, layout=[(f"s{j}", rng.randint(L or 1, (L or 1) + 2), rng.choice([1, 2, 3])) for j in range(nd)], L=L, B=B, F=F,
                 buffer=rng.choice([0, 0, 1, 3]), reuse=rng.choice([1, 1, 2, 3]), loop=rng.random() < .5, shuffle=rng.random() < .4, default_loop=rng.random() < .1, seed=rng.randrange(1000),
                 yaml=rng.random() < .3, dirs=rng.random() < .2 and not L, H=rng.randint(6, 14), W=rng.randint(6, 14), vpp=rng.choice([1.0, 1.0, 2.0, .5, 1]),
                 units=rng.choice(["pixels", "measure units per second"]), dt=rng.choice([1.0, 1.0, .5, 2.0]), special=rng.choice(["", "", "", "mean", "uniform", "hide1", "hide2", "mask", "histogram", "ranges", "density0", "intensity", "devices"]),
                 options_omitted=rng.random() < .15)
        if c["shuffle"] and not L and rng.random() < .6:     # enough files to tell a shuffled order from the listed one
            c["layout"] = [("s0", 13, rng.choice([1, 1, 2]) if fmt == "h5" else 1)]
        yield c


def run(ctx, c):
    if c["kind"] == "reject":
        return reject(ctx, c)
    import numpy as np
    import pipes
    from synthpix.sampler import RealImageSampler, SyntheticImageSampler
    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    root = ctx.tmp()
    H, W, B, F, L = c["H"], c["W"], c["B"], c["F"], c["L"]
    ds = pipes.Dataset(root, c["fmt"], [tuple(x) for x in c["layout"]], hw=(H, W) if c["images"] else (32, 30), images=c["images"])
    kw = dict(batch_size=B, flow_fields_per_batch=F, loop=c["loop"], randomize=c["shuffle"], seed=c["seed"])
    if L:
        kw["episode_length"] = L
    if c["buffer"]:
        kw["buffer_size"] = c["buffer"]
    sp = c["special"] if not c["images"] else ""
    if not c["images"]:
        kw.update(batches_per_flow_batch=c["reuse"], image_shape=[H, W], velocities_per_pixel=c["vpp"], output_units=c["units"], dt=c["dt"], img_offset=[8.0, 7.5])
        if sp == "mean":
            kw.update(noise_gaussian_mean=80.0, noise_gaussian_std=2.0)
        elif sp == "uniform":
            kw.update(noise_uniform=30.0, seeding_density_range=[1e-6, 1e-6])
        elif sp == "hide1":
            kw.update(p_hide_img1=1.0)
        elif sp == "hide2":
            kw.update(p_hide_img2=1.0)
        elif sp == "density0":
            kw.update(seeding_density_range=[1e-6, 1e-6])
        elif sp == "intensity":
            kw.update(intensity_ranges=[[1.0, 1.0]], seeding_density_range=[.002, .002])
        elif sp == "ranges":
            kw.update(diameter_ranges=[[0.8, 1.0], [1.5, 1.8]], intensity_ranges=[[50, 60], [100, 200], [1, 2]], rho_ranges=[[-0.5, -0.2], [0.1, 0.4]], seeding_density_range=[0.01, 0.05])
        elif sp == "mask":
            m = (np.arange(H * W).reshape(H, W) % 3 > 0).astype(np.int64)
            np.save(root + "/mask.npy", m)
            kw.update(mask=root + "/mask.npy", noise_gaussian_mean=50.0)
        elif sp == "histogram":
            h = np.zeros(256)
            h[10], h[200] = H * W - 5, 5
            np.save(root + "/hist.npy", h)
            kw.update(histogram=root + "/hist.npy")
        elif sp == "devices":
            kw.update(device_ids=[0])
    cfg = pipes.config(ds, **kw)
    if c["dirs"]:
        cfg["file_list"] = sorted({os.path.dirname(f) for f in ds.files})
    omitted = []
    if c["options_omitted"]:                     # documented defaults: randomize False, loop True, no wrappers, seed 0 (real images)
        for k in ("randomize", "loop"):
            cfg.pop(k)
        c["shuffle"], c["loop"] = False, True
        if c["images"]:
            cfg.pop("seed")
    what = f"{ {k: v for k, v in cfg.items() if k != 'file_list'} } layout {c['layout']}"
    before = copy.deepcopy(cfg)
    s = pipes.make(cfg)
    try:
        ctx.check(cfg == before and list(cfg) == list(before), "configuration-modified", what)
        if not ctx.check(isinstance(s, RealImageSampler if c["images"] else SyntheticImageSampler), "wrong-sampler", lambda: f"{type(s)} for {what}"):
            return
        # documented wrappers
        sch, chain = s.scheduler, []
        while hasattr(sch, "scheduler"):
            chain.append(type(sch))
            sch = sch.scheduler
        want = ([PrefetchingFlowFieldScheduler] if c["buffer"] else []) + ([EpisodicFlowFieldScheduler] if L else [])
        ctx.check(chain == want, "wrapper-missing", lambda: f"{[x.__name__ for x in chain]} for {what}")
        if c["buffer"]:
            ctx.check(s.scheduler.buffer_size == c["buffer"], "buffer-size", what)
        observe(ctx, c, s, ds, cfg, sp, what)
        ctx.check(cfg == before, "configuration-modified", what)
    finally:
        s.shutdown()
    if c["yaml"]:
        from ruamel.yaml import YAML
        p = root + "/conf.yaml"
        with open(p, "w") as f:
            YAML().dump(cfg, f)
        a, b = pipes.make(cfg), pipes.make(p)
        try:
            x, y = pipes.stream(a, root, 3), pipes.stream(b, root, 3)
            ctx.event("yaml-twins")
            ctx.check(x == y, "yaml-differs", lambda: f"{what}: {x} from the dictionary, {y} from the YAML file")
        finally:
            a.shutdown()
            b.shutdown()


def observe(ctx, c, s, ds, cfg, sp, what):
    import numpy as np
    import pipes
    from synthpix.scheduler.protocol import EpisodeEnd
    H, W, B, F, L = c["H"], c["W"], c["B"], c["F"], c["L"]
    n = B if c["images"] else F                   # flow fields per scheduler batch
    reuse = 1 if c["images"] or L else c["reuse"]
    total = ds.total
    scale = cfg["dt"] if not c["images"] and cfg["output_units"] == "pixels" else 1.0
    passes = -(-total // n)                       # scheduler batches of one pass
    limit = min(2 * passes + 2, 14) * reuse if c["loop"] else 10**6
    seen, cur, k, ep = [], None, 0, 0
    ended = False
    if L:
        limit = 2 * L * reuse + L
    while k < limit:
        try:
            b = next(s)
        except EpisodeEnd:
            if not ctx.check(L and k == (ep + 1) * L, "episode-length", lambda: f"{what}: episode over after {k - ep * L} batches"):
                return
            ep += 1
            if ep == 2:
                break
            s.next_episode()
            continue
        except StopIteration:
            ended = True
            break
        if L and not ctx.check(k < (ep + 1) * L, "episode-length", lambda: f"{what}: more than {L} batches"):
            return
        im1, im2, fl = np.asarray(b.images1), np.asarray(b.images2), np.asarray(b.flow_fields)
        fs = (int(H * c["vpp"]), int(W * c["vpp"])) if not c["images"] else (H, W)
        ok = ctx.check(im1.shape == (B, H, W) and im2.shape == (B, H, W), "image-shape", lambda: f"{what}: images {im1.shape}")
        ok &= ctx.check(fl.shape == (B,) + fs + (2,), "flow-shape", lambda: f"{what}: flow fields {fl.shape}")
        ok &= ctx.check(b.files is not None and len(b.files) == n and b.mask is not None and np.asarray(b.mask).shape == (n,), "metadata-length", lambda: f"{what}: {b.files} {b.mask}")
        ok &= ctx.check((b.params is None) == c["images"], "params", what)
        if not ok:
            return
        ctx.event("batches")
        if L:
            ctx.check(b.done is not None and np.asarray(b.done).shape == (B,) and bool(np.all(np.asarray(b.done) == (k + 1 == (ep + 1) * L))), "done-flag", lambda: f"{what}: {b.done} at batch {k} of the run")
        ident = tuple(b.files)
        new = k % reuse == 0
        if new:
            seen.append((ident, np.asarray(b.mask).astype(bool).tolist()))
            cur = ident
        elif not ctx.check(ident == cur, "reuse-count", lambda: f"{what}: files change at image batch {k}, reuse {reuse}"):
            return
        # the flow field values are those of the named files
        for i in range(B):
            f = ident[i % n]
            us = ds.samples.get(os.path.normpath(f)) if f else None
            v = fl[i].reshape(-1, 2)
            got = v.mean(0) / scale
            if f:
                fit = [u for u in us or [] if np.allclose(v / scale, pipes.velocity(u), atol=2e-6 + 2e-5 * abs(got).max())]
                if not ctx.check(len(fit) == 1, "flow-not-of-file", lambda: f"{what}: entry {i} names {f} (samples {us}), flow {got} instead of {[pipes.velocity(u) for u in us or []]}"):
                    return
            else:
                ctx.check(not np.any(v), "padding", lambda: f"{what}: entry {i}")
            if c["images"] and f:
                from data import gray
                ctx.check(np.array_equal(im1[i], gray((H, W), 2 * us[0])) and np.array_equal(im2[i], gray((H, W), 2 * us[0] + 1)), "image-not-of-file", lambda: f"{what}: entry {i}")
        if not c["images"]:
            special(ctx, c, cfg, sp, im1, im2, b, what)
        k += 1
    # ---- the order of the data ----
    names = [f for ident, m in seen for f in ident]
    masks = [x for _, m in seen for x in m]
    exp = [f for f in (ds.files if not c["dirs"] else sorted(ds.files)) for _ in ds.samples[f]]
    if L:
        ctx.event("episodic")
    else:
        if c["loop"]:
            if not ctx.check(not ended and all(masks), "loop-ended", lambda: f"{what}: ended={ended}"):
                return
            epochs = [names[i:i + total] for i in range(0, len(names), total)]
        else:
            if not ctx.check(ended and len(seen) == passes, "pass-length", lambda: f"{what}: {len(seen)} flow batches, {passes} expected, ended={ended}"):
                return
            epochs = [[f for f, m in zip(names, masks) if m]]
            ctx.check(sum(masks) == total, "pass-length", lambda: f"{what}: {sum(masks)} samples of {total}")
        norm = [[os.path.normpath(f) for f in e] for e in epochs]
        for e in norm:
            if not c["shuffle"]:
                ctx.check(e == exp[:len(e)], "order", lambda: f"{what}: {e}")
            elif len(e) == total:
                ctx.check(sorted(e) == sorted(exp), "epoch-content", lambda: f"{what}: {e}")
        if c["shuffle"] and len(ds.files) >= 3:
            ctx.row("shuffled", norm[0][:total] != exp[:len(norm[0][:total])])
        if c["shuffle"] and len(set(norm[0])) >= 11:         # in the listed order by chance: less than 1e-9
            ctx.event("long-shuffles")
            ctx.check(norm[0] != exp[:len(norm[0])], "randomize-ignored", lambda: f"{what}: delivered in the listed order {[os.path.basename(f) for f in norm[0]]}")
        ctx.event("endless" if c["loop"] else "finite")
    ctx.event("real" if c["images"] else "synthetic")
    ctx.event("buffered", bool(c["buffer"]))
    ctx.event("unequal-counts", n != B)
    if sp:
        ctx.event("special-options")
    ctx.nontrivial(what)


def special(ctx, c, cfg, sp, im1, im2, b, what):
    import numpy as np
    if sp == "mean":
        ctx.check(min(im1.mean(), im2.mean()) > 75, "option-ignored-noise-mean", lambda: f"{what}: mean {im1.mean()}")
    elif sp == "uniform":
        ctx.check(im1.std() > 4 and im2.std() > 4 and max(im1.max(), im2.max()) <= 30, "option-ignored-noise-uniform", lambda: f"{what}: {im1.std()} {im1.max()}")
    elif sp in ("hide1", "hide2"):
        a, o = (im1, im2) if sp == "hide1" else (im2, im1)
        ctx.check(not a.any(), "option-ignored-" + sp, what)
    elif sp == "density0":
        ctx.check(not im1.any() and not im2.any(), "option-ignored-density", what)
    elif sp == "intensity":
        ctx.check(im1.max() <= 4, "option-ignored-intensity", lambda: f"{what}: {im1.max()}")
    elif sp == "ranges":
        for nm, key in (("diameter_ranges", "diameter_ranges"), ("intensity_ranges", "intensity_ranges"), ("rho_ranges", "rho_ranges")):
            got = np.asarray(getattr(b.params, nm))
            ok = got.shape == (c["B"], 2) and all(any(np.allclose(g, r, atol=1e-5) for r in cfg[key]) for g in got)
            ctx.check(ok, "reported-ranges", lambda: f"{what}: {nm} {got.tolist()}")
        d = np.asarray(b.params.seeding_densities)
        lo, hi = cfg["seeding_density_range"]
        ctx.check(d.shape == (c["B"],) and d.min() >= lo - 1e-7 and d.max() <= hi + 1e-7, "reported-density", lambda: f"{what}: {d}")
    elif sp == "mask":
        m = np.load(cfg["mask"])
        ctx.check(not im1[:, m == 0].any() and not im2[:, m == 0].any() and im1[:, m == 1].min() > 40, "option-ignored-mask", what)
    elif sp == "histogram":
        # two levels only; ties may merge them, never invent others
        ctx.check(set(np.unique(im1)) | set(np.unique(im2)) <= {10.0, 200.0}, "option-ignored-histogram", lambda: f"{what}: levels {np.unique(im1)[:8]}")
    elif sp == "" and cfg["p_hide_img1"] == 0 and cfg["noise_gaussian_mean"] == 0:
        pass


MISSING = ["scheduler_class", "batch_size", "flow_fields_per_batch"]
SYNTH = ["batches_per_flow_batch", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1", "p_hide_img2", "diameter_ranges", "diameter_var", "intensity_ranges", "intensity_var",
         "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std", "flow_field_size", "resolution", "velocities_per_pixel", "max_speed_x", "max_speed_y",
         "min_speed_x", "min_speed_y", "output_units", "seed"]
BAD = {"batch_size": ["4", 0, -1, 2.5, None], "flow_fields_per_batch": [0, -2, "x", 1.5, None], "batches_per_flow_batch": [0, -1, "x", 1.5], "include_images": ["yes", 1, None],
       "buffer_size": [-1, "2", 1.5], "episode_length": [-1, "2", 1.5], "resolution": [0, -1.0, "x"], "velocities_per_pixel": [0, "x"], "max_speed_x": ["x"], "max_speed_y": ["x"], "min_speed_x": ["x"],
       "min_speed_y": ["x"], "output_units": ["furlongs", 3], "seed_": [], "mask": [3, "/nonexistent/mask.npy"], "histogram": [3, "/nonexistent/h.npy"], "p_hide_img1": [2.0, -.1], "p_hide_img2": [1.5],
       "dt": [0, -1.0], "noise_uniform": [-1.0], "noise_gaussian_std": [-1.0]}
SPEC_ONLY = {"mask", "histogram"}


def reject(ctx, c):
    """Each missing or ill-typed setting is refused, with an error that names it."""
    import pipes
    ds = pipes.Dataset(ctx.tmp(), "mat" if c["images"] or c["wrap"] == "episode" else c["fmt"], [("a", 3, 1), ("b", 3, 1)], images=c["images"])
    good = pipes.config(ds, loop=True, **(dict(buffer_size=2) if c["wrap"] == "buffer" else dict(episode_length=2) if c["wrap"] == "episode" else {}))
    pipes.make(good).shutdown()
    r = random.Random(c["seed"])
    todo = [(k, "missing", None) for k in MISSING + ([] if c["images"] else SYNTH)]
    for k, vs in BAD.items():
        if c["images"] and k not in ("batch_size", "include_images", "buffer_size", "episode_length"):
            continue
        todo += [(k, "bad", v) for v in vs]
    todo += [("scheduler_class", "bad", v) for v in (".foo", 3, None)]
    todo += [("randomize", "bad", v) for v in (1, None, "no")] + [("loop", "bad", v) for v in (0, None, "yes")] + [("file_list", "bad", v) for v in ([], None, 3)] + [("file_list", "missing", None)]
    if not c["images"]:
        todo += [("image_shape", "bad", v) for v in ([0, 9], [9], [9, 9, 9], [9.5, 9])] + [("img_offset", "bad", v) for v in ([-1, 0], [1])] + [("diameter_ranges", "bad", v) for v in ([], [[2, 1]], [[1, 2, 3]])]
        todo += [("rho_ranges", "bad", v) for v in ([], [[-2, 2]])] + [("seeding_density_range", "bad", v) for v in ([.2, .1], [-1, 1], [1])] + [(k, "bad", -1) for k in ("diameter_var", "intensity_var", "rho_var", "seed")]
        todo += [("device_ids", "bad", v) for v in ([], [97])]
    for k, how, v in todo:
        cfg = dict(good)
        if how == "missing":
            cfg.pop(k)
        else:
            cfg[k] = v
        before = copy.deepcopy(cfg)
        s = None
        try:
            s = pipes.make(cfg)
        except Exception as e:
            msg = str(e).lower().replace("_", " ")
            names = [k.replace("_", " ")] + (["scheduler class"] if k == "scheduler_class" else [])
            if k.startswith("noise") or k in ("p_hide_img1", "p_hide_img2"):
                names += [k.replace("_", " ").replace("img", "image ")]
            names += [x[:-1] for x in names if x.endswith("ranges")]
            ctx.event("rejections")
            ctx.check(any(x in msg for x in names), "error-does-not-name-it", lambda: f"{k} {how} {v!r} ({c['fmt']} images={c['images']} {c['wrap']}): {type(e).__name__}: {e}")
        if s is not None:
            s.shutdown()
            ctx.fail("accepted", f"{k} {how} {v!r} ({ds.fmt} images={c['images']} {c['wrap']})")
        ctx.check(cfg == before, "configuration-modified", f"{k} {how}")
    ctx.nontrivial("reject", ds.fmt, c["images"], c["wrap"])
    source_rejects(ctx, c, ds, good)


def source_rejects(ctx, c, ds, good):
    """What is not a configuration at all is refused: wrong types, files that are missing, no files, of another kind, or hold no mapping."""
    import pipes
    from ruamel.yaml import YAML
    d = ctx.tmp()
    p = lambda n: os.path.join(d, n)
    with open(p("conf.yaml"), "w") as f:
        YAML().dump(good, f)
    import shutil
    for n in ("conf.txt", "conf", "conf.yaml.bak", "conf.json"):
        shutil.copy(p("conf.yaml"), p(n))
    open(p("list.yaml"), "w").write("- 1\n- 2\n")
    open(p("empty.yaml"), "w").write("")
    open(p("word.yaml"), "w").write("hello\n")
    os.makedirs(p("dir.yaml"))
    bad = [(None, TypeError), (3, TypeError), ([good], TypeError), (("a", 1), TypeError), (p("conf.txt"), ValueError), (p("conf"), ValueError), (p("conf.yaml.bak"), ValueError), (p("conf.json"), ValueError),
           (p("gone.yaml"), FileNotFoundError), (p("dir.yaml"), ValueError), (p("list.yaml"), (TypeError, ValueError)), (p("empty.yaml"), (TypeError, ValueError)), (p("word.yaml"), (TypeError, ValueError)), ({}, ValueError)]
    if ds.fmt != "mat":
        bad.append((dict(good, include_images=True), ValueError))
    for x, kind in bad:
        what = lambda: f"make({x if not isinstance(x, dict) else 'without settings' if not x else ds.fmt + ' with images'!r})"
        try:
            s = pipes.make(x)
        except kind:
            ctx.event("rejections")
            continue
        except Exception as e:
            ctx.fail("wrong-refusal", f"{what()}: {type(e).__name__}: {e}, documented: {kind}")
            continue
        s.shutdown()
        ctx.fail("accepted", what())
    s = pipes.make(p("conf.yaml"))
    s.shutdown()
    ctx.event("from-file")


def final(rows, events, fail):
    sh = rows.get("shuffled", [])
    if len(sh) >= 4 and not any(sh):             # each is unshuffled by chance with probability at most 1/6
        fail("randomize-ignored", f"none of {len(sh)} shuffled pipelines delivered another order") if len(sh) >= 8 else None


main(Spec("M01", cases, run,
          "pipelines built by synthpix.make for random products of format, wrappers, counts, reuse, looping, shuffling, image options, mask, histogram, YAML or dictionary, run for whole passes "
          "or episodes over constant flow fields that identify their file; plus removal and corruption of every setting; non-trivial: distinct configurations",
          quick=110, thorough=3000, workers=(8, 8), final=final, quick_s=120, thorough_s=700,
          floors={"batches": 400, "rejections": 400, "yaml-twins": 10, "episodic": 4, "endless": 15, "finite": 15, "real": 8, "synthetic": 30, "buffered": 20, "unequal-counts": 15, "special-options": 15, "long-shuffles": 5}))
