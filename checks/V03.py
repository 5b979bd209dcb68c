"""V03: invalid requests are refused at the door, valid ones accepted."""
import os, random
from vp import Spec, main

SUBJECTS = ["h5", "npy", "npy-images", "mat", "episodic", "prefetch", "synthetic", "synthetic", "synthetic-config", "geometry", "geometry", "real", "check-generate", "check-adapter", "check-apply", "wrong-size"]


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        yield dict(subject=SUBJECTS[k % len(SUBJECTS)], n=4, seed=rng.randrange(10 ** 7))


NOT_BOOL = [1, 0, "yes", None, "False", [True]]
NOT_POS_INT = [0, -1, -7, 1.5, 2.0, "2", None, [1]]
NOT_POS = [0, 0.0, -1, -0.5, "1", None, [1.0]]


def refused(f, kinds):
    try:
        f()
        return "accepted"
    except kinds:
        return None
    except Exception as e:
        return f"failed with {type(e).__name__}: {e}"


def judge(ctx, c, r, subject, make, base, bad, kinds=(ValueError, TypeError), close=None):
    """base(): valid keyword arguments; bad: {argument: [invalid values] or callables of the valid arguments}."""
    kw = base()
    x = make(**kw)
    if close:
        close(x)
    ctx.event("accepted")
    names = sorted(bad)
    for _ in range(c["n"]):
        kw = base()
        n = r.choice(names)
        v = r.choice(bad[n])
        if callable(v):
            v = v(kw)
        arg = n.split(":")[0]
        kw[arg] = v
        why = refused(lambda: make(**kw), kinds)
        ctx.check(why is None, "invalid-not-refused", lambda: f"{subject}({arg}={v!r}) [{n}]: {why}")
        ctx.event("refused")
        ctx.event("subject-" + subject)
        ctx.nontrivial(subject, n, repr(v)[:80])


def scheduler_case(ctx, c, r):
    from world import World, name
    fmt = c["subject"].split("-")[0]
    images = c["subject"].endswith("images")
    w = World(ctx.tmp(), fmt, (4, 5), images=images, rng=r)
    files = [w.add("d/" + name(fmt, 3 * k + 1), 1) for k in range(3)]
    other = os.path.join(w.root, "d", "other.txt")
    open(other, "w").write("x")
    os.makedirs(os.path.join(w.root, "empty"))
    os.makedirs(os.path.join(w.root, "dir." + fmt))
    from data import sched_class, write_npy
    base = lambda: dict(file_list=r.sample(files, r.randint(1, 3)), randomize=r.random() < .5, loop=r.random() < .5,
                        **(dict(output_shape=(r.randint(1, 9), r.randint(1, 9))) if fmt == "mat" else {}), **(dict(include_images=images) if fmt != "h5" else {}))
    ins = lambda x: lambda kw: (lambda l: l[: len(l) // 2] + [x] + l[len(l) // 2:])(list(kw["file_list"]))
    bad = {"file_list": [None, "", files[0], 3, [], [None], [1], [os.path.join(w.root, "empty")], [os.path.join(w.root, "missing." + fmt)]],
           "file_list:mixed": [ins(None), ins(7), ins(other), ins(files[0] + "x"), ins(os.path.join(w.root, "d", "gone." + fmt)), ins("")],
           "randomize": NOT_BOOL, "loop": NOT_BOOL}
    kinds = (ValueError, TypeError)
    if fmt != "h5":
        bad["include_images"] = NOT_BOOL
    if fmt == "mat":
        bad["output_shape"] = [[4, 5], (4,), (4, 5, 6), (0, 5), (5, 0), (-1, 5), (5, -3), (4.0, 5), (4, "5"), None, 7, ()]
    if images:
        kinds = (ValueError, TypeError, FileNotFoundError)
        lone = os.path.join(w.root, "d", "flow_90.npy")
        half = os.path.join(w.root, "d", "flow_95.npy")
        odd = os.path.join(w.root, "d", "field_1.npy")
        import shutil
        for p in (lone, half, odd):
            write_npy(p, w.samples[files[0]][0]["flow"])
        shutil.copy(os.path.join(w.root, "d", "img_0.jpg"), os.path.join(w.root, "d", f"img_{r.choice([94, 95])}.jpg"))
        bad["file_list:images"] = [ins(lone), ins(half), ins(odd)]
    judge(ctx, c, r, c["subject"], lambda **kw: sched_class(fmt)(**kw), base, bad, kinds)


def stub(shape=(40, 44, 2)):
    import numpy as np
    from synth import Stub
    return Stub(lambda k, n: np.full((n,) + shape[:2] + (2,), .25, np.float32), shape)


def sampler_args(r):
    import jax.numpy as jnp
    from synth import spec
    B = r.choice([1, 2, 4, 5])
    gs = spec(batch_size=B, image_shape=(9, 11), diameter_ranges=[(1.0, 1.0)])
    return dict(scheduler=stub(), batches_per_flow_batch=r.choice([1, 2, 5]), flow_fields_per_batch=r.randint(1, B), flow_field_size=r.choice([(40.0, 44.0), (40, 44)]), resolution=r.choice([1, 1.0]),
                velocities_per_pixel=r.choice([1, 1.0, .5, 2.0]), seed=r.randrange(1000), max_speed_x=1.0, max_speed_y=r.choice([1, 1.0]), min_speed_x=0.0, min_speed_y=-1.0,
                output_units=r.choice(["pixels", "measure units per second"]), device_ids=r.choice([None, [0]]), generation_specification=gs,
                mask_images=r.choice([None, jnp.ones((9, 11))]), histogram=r.choice([None, jnp.zeros(256).at[3].set(99.0)]))


def synthetic(ctx, c, r):
    import jax.numpy as jnp
    from synthpix.sampler import SyntheticImageSampler

    class Nothing:
        pass
    num = lambda v: v
    bad = {"scheduler": [None, 3, Nothing()], "batches_per_flow_batch": NOT_POS_INT, "flow_fields_per_batch": NOT_POS_INT, "flow_fields_per_batch:many": [lambda kw: kw["generation_specification"].batch_size + 1],
           "flow_field_size": [(0.0, 44.0), (40.0, 0), (-40.0, 44.0), (40.0, -44.0), ("40", 44.0), (40.0, None)], "resolution": NOT_POS, "velocities_per_pixel": NOT_POS,
           "seed": [-1, 1.5, "1", None, [3]], "max_speed_x": ["1", None, [1.0]], "max_speed_y": ["1", None, (1,)], "min_speed_x": ["0", None], "min_speed_y": ["0", None],
           "max_speed_x:order": [lambda kw: kw["min_speed_x"] - 1.0], "max_speed_y:order": [lambda kw: kw["min_speed_y"] - .5], "min_speed_x:order": [lambda kw: kw["max_speed_x"] + .5],
           "min_speed_y:order": [lambda kw: kw["max_speed_y"] + 2.0],
           "output_units": ["pixel", "", "Pixels", "measure units", None, 3], "device_ids": [[], [97], [55, 66]],
           "mask_images": [jnp.ones((11, 9)), jnp.ones((9, 12)), jnp.ones((1, 9, 11)), jnp.ones(99)],
           "histogram": [jnp.zeros(256), jnp.zeros(256).at[0].set(90.0), jnp.zeros(256).at[0].set(110.0), jnp.zeros(256).at[0].set(99.4), jnp.zeros(256).at[5].set(98.7).at[9].set(.1), jnp.zeros(255).at[0].set(99.0), jnp.zeros((256, 1)).at[0].set(99.0), jnp.zeros((1, 256)).at[0, 0].set(99.0)],
           "scheduler:shape": [lambda kw: stub((40, 44)), lambda kw: stub((40, 44, 4)), lambda kw: stub((40, 44, 1)), lambda kw: stub((0, 44, 2)), lambda kw: stub((40, -44, 2)), lambda kw: stub((40, 44, 2, 1))]}
    judge(ctx, c, r, "synthetic", lambda **kw: SyntheticImageSampler(**kw), lambda: sampler_args(r), bad, (ValueError, TypeError))


def config_case(ctx, c, r):
    import numpy as np
    from synthpix.sampler import SyntheticImageSampler
    d = ctx.tmp()
    p = lambda n: os.path.join(d, n)
    np.save(p("ok.npy"), (np.arange(99).reshape(9, 11) % 2).astype(r.choice([np.int32, np.float32, bool])))
    np.save(p("two.npy"), np.eye(9, 11) * 2)
    np.save(p("half.npy"), np.full((9, 11), .5))
    np.save(p("neg.npy"), -np.eye(9, 11))
    np.save(p("shape.npy"), np.ones((11, 9)))
    h = np.zeros(256)
    h[[3, 200]] = 33, 66
    np.save(p("h.npy"), h)
    np.save(p("h_sum.npy"), h * r.choice([1.2, .9, 1.006, .997]))
    np.save(p("h_len.npy"), h[:255])

    def make(**cfg):
        return SyntheticImageSampler.from_config(stub(), cfg)

    def base():
        B = r.choice([1, 2, 4])
        return dict(batch_size=B, flow_fields_per_batch=r.randint(1, B), batches_per_flow_batch=r.choice([1, 2]), image_shape=[9, 11], img_offset=[6.0, 6.0], seeding_density_range=[.03, .05], p_hide_img1=0.0, p_hide_img2=0.1,
                    diameter_ranges=[[1.0, 1.5]], diameter_var=0.0, intensity_ranges=[[80.0, 100.0]], intensity_var=0.0, rho_ranges=[[-.1, .1]], rho_var=0.0, dt=1.0, noise_uniform=0.0, noise_gaussian_mean=0.0,
                    noise_gaussian_std=0.0, flow_field_size=[40.0, 44.0], resolution=1.0, velocities_per_pixel=1.0, seed=r.randrange(99), max_speed_x=1.0, max_speed_y=1.0, min_speed_x=0.0, min_speed_y=0.0, output_units="pixels",
                    mask=r.choice([None, p("ok.npy")]), histogram=r.choice([None, p("h.npy")]))
    bad = {"mask": [p("two.npy"), p("half.npy"), p("neg.npy"), p("shape.npy"), p("missing.npy"), d, 3, [1], True], "histogram": [p("h_sum.npy"), p("h_len.npy"), p("missing.npy"), d, 3, [1]],
           "batch_size": [0, -1, 1.5, "2", None], "image_shape": [[0, 11], [9, -1], [9], [9, 11, 3], [9.5, 11]], "p_hide_img1": [-.1, 1.1, "0"], "dt": [0, -1.0, "1"], "diameter_ranges": [[[2.0, 1.0]], [[0.0, 1.0]], [[-1.0, 1.0]]],
           "resolution": NOT_POS, "output_units": ["pixel", None]}
    judge(ctx, c, r, "synthetic-config", make, base, bad, (ValueError, TypeError))
    for _ in range(2):
        cfg = base()
        k = r.choice(["batch_size", "image_shape", "dt", "flow_field_size", "seed", "max_speed_x", "min_speed_y", "resolution", "rho_var", "noise_uniform", "output_units", "flow_fields_per_batch"])
        del cfg[k]
        why = refused(lambda: make(**cfg), (KeyError,))
        ctx.check(why is None, "incomplete-configuration-accepted", lambda: f"without {k}: {why}")
        ctx.event("refused")
        ctx.nontrivial("synthetic-config", "without " + k)


def geometry(ctx, c, r):
    """The image, enlarged by the distances that particles can travel into it, must lie within the flow field."""
    import numpy as np
    from fractions import Fraction as Fr
    from synth import spec
    from synthpix.sampler import SyntheticImageSampler
    for _ in range(c["n"] + 4):
        im = (r.randint(4, 12), r.randint(4, 12))
        res = r.choice([.5, 1.0, 2.0, 4.0])
        dt = r.choice([.25, .5, 1.0, 2.0])
        mx = [r.choice([0.0, .5, 1.0, 2.0, -.5]) for _ in range(2)]
        mn = [min(r.choice([0.0, -.5, -1.0, .25]), m) for m in mx]
        # offsets and sizes around their limits, in steps well above rounding
        need = [max(0, m) * dt for m in mx]
        off = [need[k] + r.choice([0, 0, .5, 2.0, -.5, -.25]) for k in range(2)]
        if min(off) < 0:
            off = [max(0.0, o) for o in off]
        end = [off[k] + im[k] / res - min(0, mn[k]) * dt for k in range(2)]
        size = [end[k] + r.choice([0, .5, 3.0, -.5, -.25]) for k in range(2)]
        if min(size) <= 0:
            continue
        ok = all(Fr(off[k]) >= Fr(need[k]) and Fr(end[k]) <= Fr(size[k]) for k in range(2))
        H, W = (max(2, int(s * 2)) for s in size)
        gs = spec(batch_size=1, image_shape=im, img_offset=tuple(off), dt=dt, diameter_ranges=[(.4, .4)])
        make = lambda: SyntheticImageSampler(stub((H, W, 2)), 1, 1, tuple(size), res, 1.0, 0, mx[1], mx[0], mn[1], mn[0], "pixels", [0], gs)
        text = lambda: f"image {im} at {off}, {res} px/unit, dt {dt}, speeds y [{mn[0]},{mx[0]}] x [{mn[1]},{mx[1]}], field {size}"
        if ok:
            make()
            ctx.event("accepted")
        else:
            why = refused(make, (ValueError,))
            ctx.check(why is None, "invalid-not-refused", lambda: f"geometry {text()}: {why}")
            ctx.event("refused")
        ctx.event("subject-geometry")
        ctx.nontrivial("geometry", ok, im, off, size, res, dt)


def checks(ctx, c, r):
    import jax.numpy as jnp
    import numpy as np
    from synth import spec
    if c["subject"] == "check-generate":
        from synthpix.data_generate import input_check_gen_img_from_flow as f
        base = lambda: dict(flow_field=jnp.zeros((r.randint(1, 3), 5, 6, 2)), parameters=spec(image_shape=(10, 12), img_offset=(3, 4)), position_bounds=(r.randint(13, 20), r.randint(16, 20)),
                            flow_field_res_x=r.choice([1, 1.0, .1]), flow_field_res_y=r.choice([2, .5]), mask=r.choice([None, jnp.ones((10, 12))]), histogram=r.choice([None, jnp.zeros(256).at[9].set(120.0)]))
        bad = {"flow_field": [np.zeros((1, 5, 6, 2)), jnp.zeros((5, 6, 2)), jnp.zeros((1, 5, 6, 3)), jnp.zeros((1, 1, 5, 6, 2)), None], "position_bounds": [(12, 20), (20, 15), (0, 20), (20, -1), (20.0, 20), (20,), (20, 20, 20)],
               "flow_field_res_x": NOT_POS, "flow_field_res_y": NOT_POS, "mask": [np.ones((10, 12)), jnp.ones((12, 10)), jnp.ones((10, 13)), 1],
               "histogram": [np.zeros(256), jnp.zeros(256), jnp.zeros((256, 1)).at[0].set(120.0), jnp.zeros(255).at[0].set(120.0), jnp.zeros(256).at[0].set(100.0), jnp.zeros(256).at[3].set(119.6)]}
    elif c["subject"] == "check-adapter":
        from synthpix.utils import input_check_flow_field_adapter as f
        base = lambda: dict(flow_field=jnp.zeros((2, 5, 6, 2)), new_flow_field_shape=(r.randint(1, 9), 4), image_shape=(r.randint(1, 30), 8), img_offset=r.choice([(0, 0), (1.5, 2)]), resolution=r.choice([1, .5]), res_x=r.choice([1, 2.5]),
                            res_y=1.0, position_bounds=r.choice([(20, 20), (20.5, 9.0)]), position_bounds_offset=(0, r.choice([0.0, 3])), batch_size=r.randint(1, 4), output_units=r.choice(["pixels", "measure units per second"]), dt=r.choice([1, .1]),
                            zero_padding=(r.randint(0, 3), 0))
        pair = [None, [3, 4], (3,), (3, 4, 5), (3, "4")]
        bad = {"flow_field": [np.zeros((1, 5, 6, 2)), jnp.zeros((5, 6, 2)), jnp.zeros((1, 5, 6, 3)), None], "new_flow_field_shape": pair + [(0, 4), (4, -1), (4.0, 4)], "image_shape": pair + [(0, 4), (4, -1), (4.0, 4)],
               "img_offset": pair + [(-1, 0), (0, -.5)], "resolution": NOT_POS, "res_x": NOT_POS, "res_y": NOT_POS, "position_bounds": pair + [(0, 4), (4, -1)], "position_bounds_offset": pair + [(-1, 0), (0, -.5)],
               "batch_size": NOT_POS_INT, "output_units": ["pixel", "", None, 3], "dt": NOT_POS, "zero_padding": pair + [(-1, 0), (0, -2), (1.0, 0)]}
    else:
        from synthpix.apply import input_check_apply_flow as f
        D = r.choice([2, 3])
        base = lambda: dict(particle_positions=jnp.zeros((r.randint(1, 9), D)), flow_field=jnp.zeros((5, 6, D)), dt=r.choice([1, .5, -1.0, 0]), flow_field_res_x=r.choice([1, .3]), flow_field_res_y=2.0, flow_field_res_z=1)
        bad = {"particle_positions": [np.zeros((3, D)), jnp.zeros((3, 5 - D)), jnp.zeros((3, 4)), jnp.zeros((3,)), jnp.zeros((1, 3, D)), jnp.zeros((3, 1)), None],
               "flow_field": [np.zeros((5, 6, D)), jnp.zeros((5, 6, 5 - D)), jnp.zeros((5, 6, 4)), jnp.zeros((5, 6)), jnp.zeros((1, 5, 6, D)), jnp.zeros((5, 6, 1)), None],
               "dt": ["1", None, [1.0]], "flow_field_res_x": NOT_POS, "flow_field_res_y": NOT_POS, "flow_field_res_z": NOT_POS}
    judge(ctx, c, r, c["subject"], f, base, bad)


def tree_scheduler(ctx, r, images=False):
    from tree import Tree
    from synthpix.scheduler import MATFlowFieldScheduler
    t = Tree(ctx.tmp(), [4, 6, 5], images=images)
    return t, MATFlowFieldScheduler(t.files, output_shape=(3, 4), include_images=images, loop=True)


def episodic(ctx, c, r):
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler
    bad = {"scheduler": [None, 3, object()], "batch_size": NOT_POS_INT, "episode_length": NOT_POS_INT, "episode_length:long": [5, 6, 7, 50]}
    judge(ctx, c, r, "episodic", EpisodicFlowFieldScheduler, lambda: dict(scheduler=tree_scheduler(ctx, r)[1], batch_size=r.randint(1, 3), episode_length=r.randint(1, 4), key=jax.random.PRNGKey(r.randrange(99))), bad, (ValueError, TypeError))


def prefetch(ctx, c, r):
    from conc import Source
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    bad = {"batch_size": NOT_POS_INT, "buffer_size": NOT_POS_INT, "startup_timeout": NOT_POS, "steady_state_timeout": NOT_POS}
    judge(ctx, c, r, "prefetch", PrefetchingFlowFieldScheduler, lambda: dict(scheduler=Source(), batch_size=r.randint(1, 3), buffer_size=r.randint(1, 9), startup_timeout=r.choice([1, .5]), steady_state_timeout=r.choice([2, .1])), bad,
          close=lambda p: p.shutdown())


def real(ctx, c, r):
    import jax
    from synthpix.sampler import RealImageSampler
    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler
    def wrapped(images):
        s = tree_scheduler(ctx, r, images)[1]
        for wrap in r.choice([(), ("e",), ("p",), ("e", "p")]):
            s = EpisodicFlowFieldScheduler(s, 2, 2, jax.random.PRNGKey(1)) if wrap == "e" else PrefetchingFlowFieldScheduler(s, batch_size=2)
        return s
    bad = {"scheduler": [lambda kw: wrapped(False)] * 3 + [None, object()], "batch_size": NOT_POS_INT}
    judge(ctx, c, r, "real", lambda **kw: RealImageSampler(**kw), lambda: dict(scheduler=wrapped(True), batch_size=2), bad, (ValueError, TypeError))
    # episodes asked from a sampler without episodes
    s = RealImageSampler(tree_scheduler(ctx, r, True)[1], batch_size=2)
    why = refused(s.next_episode, (AttributeError,))
    ctx.check(why is None, "invalid-not-refused", lambda: f"next_episode() without an episodic scheduler: {why}")
    ctx.event("refused")


def wrong_size(ctx, c, r):
    """A request of another batch size is refused and does not disturb the stream."""
    import jax
    import conc
    from conc import Source, EpisodicSource, tag_of
    from tree import EpisodeMonitor
    from synthpix.scheduler import EpisodicFlowFieldScheduler, PrefetchingFlowFieldScheduler
    B = r.randint(1, 4)
    wrong = lambda: r.choice([b for b in (0, -1, 1, 2, 3, 4, 5, 9) if b != B])
    if r.random() < .5:
        p = PrefetchingFlowFieldScheduler(Source(), batch_size=B, buffer_size=r.randint(1, 3), startup_timeout=30, steady_state_timeout=30)
        try:
            for k in range(6):
                if r.random() < .5:
                    n = wrong()
                    why = refused(lambda: p.get_batch(n), (ValueError,))
                    ctx.check(why is None, "invalid-not-refused", lambda: f"prefetching {B}, asked for {n}: {why}")
                    ctx.event("refused")
                g = tag_of(p.get_batch(B))
                ctx.check(g == (0, k), "disturbed-by-refusal", lambda: f"prefetching: got {g}, due {(0, k)}")
            why = refused(lambda: p.episode_length, (AttributeError,))
            ctx.check(why is None, "invalid-not-refused", lambda: f"episode_length without episodes: {why}")
        finally:
            p.shutdown()
    else:
        t, s = tree_scheduler(ctx, r)
        L = r.randint(2, 4)
        e = EpisodicFlowFieldScheduler(s, B, L, jax.random.PRNGKey(r.randrange(99)))
        m = EpisodeMonitor(ctx, t, L, B)
        for k in range(L):
            if r.random() < .5:
                n = wrong()
                why = refused(lambda: e.get_batch(n), (ValueError,))
                ctx.check(why is None, "invalid-not-refused", lambda: f"episodes of {B} lanes, asked for {n}: {why}")
                ctx.event("refused")
            b = e.get_batch(B)
            if not m.step(b.flow_fields, b.files, b.mask):
                return
    ctx.event("accepted")
    ctx.event("subject-wrong-size")
    ctx.nontrivial("wrong-size", B, c["seed"])


RUN = {"episodic": episodic, "prefetch": prefetch, "synthetic": synthetic, "synthetic-config": config_case, "geometry": geometry, "real": real, "wrong-size": wrong_size}


def run(ctx, c):
    r = random.Random(c["seed"])
    s = c["subject"]
    (checks if s.startswith("check-") else RUN.get(s, scheduler_case))(ctx, c, r)


main(Spec("V03", cases, run,
          "constructors, geometry and requests with valid arguments (must be accepted) and with one argument made invalid according to an independent table (must be refused); non-trivial: distinct (subject, argument, value)",
          quick=2000, thorough=40000, workers=(6, 8), quick_s=100, thorough_s=500, devices=2,
          floors={"refused": 5000, "accepted": 1700, "subject-synthetic": 600, "subject-geometry": 900, "subject-episodic": 300, "subject-prefetch": 300, "subject-real": 300}))
