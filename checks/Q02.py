"""Q02: streaming is steady: time on the job costs no memory, threads, files or compilations."""
import gc, os, random, threading, tracemalloc
from vp import Spec, main

COMPILES = []


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = ("chain", "files", "many", "resets", "episodes", "real", "chain", "many")[k % 8]
        yield dict(kind=kind, fmt=("h5", "npy", "mat")[(k // 8) % 3], R=rng.choice([1, 2, 3]), F=rng.choice([1, 2, 3]), buf=rng.choice([0, 0, 1, 3]), shuffle=rng.random() < .5,
                   devices=rng.choice([None, [0], [0, 1]]), opts=rng.choice(["plain", "noise", "mask"]), L=rng.choice([2, 3]), rounds=rng.choice([10, 14]), images=rng.random() < .5, seed=rng.randrange(10 ** 6))


def listen():
    if not COMPILES:
        import jax.monitoring as m
        COMPILES.append(0)

        def on(name, secs, **kw):
            if name.endswith("backend_compile_duration"):
                COMPILES[0] += 1
        m.register_event_duration_secs_listener(on)


def fds():
    return len(os.listdir("/proc/self/fd"))


def usage():
    import jax
    gc.collect()
    return dict(arrays=len(jax.live_arrays()), threads=threading.active_count(), fds=fds(), traced=tracemalloc.get_traced_memory()[0], compiles=COMPILES[0])


def steady(ctx, what, work, rounds, unit, allow=None):
    """work() is one round. After a warm-up nothing may grow in proportion to the rounds done. unit: bytes of one item of data."""
    tracemalloc.start()
    try:
        for _ in range(4):
            work()
        u = [usage()]
        for _ in range(2):
            for _ in range(rounds):
                work()
            u.append(usage())
    finally:
        tracemalloc.stop()
    for k in ("arrays", "threads", "fds"):
        g = [u[1][k] - u[0][k], u[2][k] - u[1][k]]
        ctx.check(not (min(g) >= rounds / 2), k + "-grow", lambda: f"{what()}: {k} {u[0][k]} -> {u[1][k]} -> {u[2][k]} over {rounds} rounds each")
    g = [u[1]["traced"] - u[0]["traced"], u[2]["traced"] - u[1]["traced"]]
    ctx.check(not (min(g) >= rounds * unit / 2), "memory-grows", lambda: f"{what()}: memory in use {[x['traced'] for x in u]} bytes over {rounds} rounds each (one item: {unit} bytes)")
    g = [u[1]["compiles"] - u[0]["compiles"], u[2]["compiles"] - u[1]["compiles"]]
    ctx.check(not (min(g) >= rounds / 2), "recompiles", lambda: f"{what()}: {g} compilations in {rounds} rounds each, after the warm-up")
    ctx.event("rounds", 2 * rounds + 4)
    ctx.event("compilations-seen", u[0]["compiles"])


def run(ctx, c):
    import numpy as np
    listen()
    r = random.Random(c["seed"])
    tmp = ctx.tmp()
    n = c["rounds"]
    what = lambda: f"{c['kind']} {c['fmt']} R={c['R']} F={c['F']} buffer={c['buf']} devices={c['devices']} {c['opts']} shuffle={c['shuffle']}"
    if c["kind"] == "files":
        return files(ctx, c, tmp, what)
    if c["kind"] == "many":
        return many(ctx, c, tmp, what)
    if c["kind"] == "episodes" or c["kind"] == "resets" and c["fmt"] == "mat" and c["images"]:
        return episodes(ctx, c, tmp, what)
    import pipes
    hw = (40, 40)
    real = c["kind"] == "real"
    fmt = "mat" if real else c["fmt"]
    ds = pipes.Dataset(tmp, fmt, [("d", 3, 2)], hw=hw, images=real)
    kw = dict(batch_size=c["F"]) if real else dict(batch_size=4, batches_per_flow_batch=c["R"], device_ids=c["devices"])
    if not real and c["opts"] == "noise":
        kw.update(noise_uniform=5.0, noise_gaussian_std=2.0, p_hide_img1=.1)
    if not real and c["opts"] == "mask":
        p = os.path.join(tmp, "mask.npy")
        np.save(p, np.ones((9, 11), np.int32))
        kw.update(mask=p)
    finite = c["kind"] == "resets"
    s = pipes.make(pipes.config(ds, flow_fields_per_batch=c["F"], buffer_size=c["buf"], randomize=c["shuffle"], loop=not finite, seed=c["seed"] % 1000, **kw))
    try:
        def work():
            if finite:
                s.reset()
            b = next(s)
            np.asarray(b.images1)
            ctx.event("batches")
        H, W = ds.hw
        steady(ctx, what, work, n, H * W * 8)
    finally:
        s.shutdown()
    ctx.event("with-" + c["kind"])
    ctx.nontrivial(what())


def files(ctx, c, tmp, what):
    """One pass over many sizeable files: what is kept does not grow with the number of files read."""
    import numpy as np
    from data import write_h5, write_npy, write_mat, write_jpg, sched_class
    fmt = c["fmt"]
    H = W = 64
    images = c["images"] and fmt != "h5"
    paths, N = [], 40
    unit = H * W * 8
    for k in range(N):
        a = np.full((H, W, 2), k, np.float32)
        if fmt == "h5":
            p = os.path.join(tmp, f"{k:03d}.h5")
            write_h5(p, np.repeat(a[:, None], 3, 1))
        elif fmt == "npy":
            p = os.path.join(tmp, f"flow_{2 * k + 1}.npy")
            write_npy(p, a)
            if images:
                for t in (2 * k, 2 * k + 1):
                    write_jpg(os.path.join(tmp, f"img_{t}.jpg"), np.full((H, W, 3), k, np.uint8))
        else:
            p = os.path.join(tmp, f"{k:03d}.mat")
            im = np.full((H, W), k, np.uint8)
            write_mat(p, k % 2 == 0, V=a, **(dict(I0=im, I1=im) if images else {}))
        paths.append(p)
    kw = dict(loop=True, randomize=c["shuffle"])
    if fmt == "mat":
        kw["output_shape"] = (H, W)
    if fmt != "h5":
        kw["include_images"] = images
    s = sched_class(fmt)(paths, **kw)
    buf = c["buf"]
    per = 3 if fmt == "h5" else 1
    if buf:
        from synthpix.scheduler import PrefetchingFlowFieldScheduler
        s = PrefetchingFlowFieldScheduler(s, batch_size=per, buffer_size=buf, startup_timeout=30, steady_state_timeout=30)
    tracemalloc.start()
    try:
        marks = []
        for k in range(N):
            s.get_batch(per)
            ctx.event("batches")
            if k in (9, 24, 39):
                gc.collect()
                marks.append(tracemalloc.get_traced_memory()[0])
    finally:
        tracemalloc.stop()
        getattr(s, "shutdown", lambda: None)()
    g = [marks[1] - marks[0], marks[2] - marks[1]]
    ctx.check(not (min(g) >= 15 * unit / 2), "memory-grows-with-files", lambda: f"{what()}: memory in use after 10, 25, 40 files: {marks} bytes (one flow field: {unit})")
    ctx.event("with-files")
    ctx.event("rounds", N)
    ctx.nontrivial(what())


def many(ctx, c, tmp, what):
    """Hundreds of requests, episodes and passes on tiny data: nothing is kept for each of them, however small."""
    import jax, numpy as np
    from data import write_mat, write_npy, sched_class
    from tree import Tree
    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler, PrefetchingFlowFieldScheduler
    mode = ("episodes", "requests", "passes", "ends")[c["seed"] % 4]
    if mode in ("episodes", "ends"):
        t = Tree(tmp, [4, 5, 4], hw=(4, 4))
        base = MATFlowFieldScheduler(t.files, output_shape=(4, 4), loop=True)
        s = EpisodicFlowFieldScheduler(base, 2, 2, jax.random.PRNGKey(c["seed"] % 99))
    else:
        fmt = "npy" if c["fmt"] == "npy" else "mat"    # h5py itself keeps some bytes per opened file
        paths = []
        for k in range(3):
            a = np.full((4, 4, 2), k, np.float32)
            p = os.path.join(tmp, f"flow_{k + 1}.npy" if fmt == "npy" else f"{k}.mat")
            write_npy(p, a) if fmt == "npy" else write_mat(p, False, V=a)
            paths.append(p)
        s = sched_class(fmt)(paths, loop=mode == "requests", randomize=c["shuffle"], **(dict(output_shape=(4, 4)) if fmt == "mat" else {}))
    buf = c["buf"] if mode != "ends" else 0
    if buf:
        s = PrefetchingFlowFieldScheduler(s, batch_size=2, buffer_size=buf, startup_timeout=60, steady_state_timeout=60)

    def one():
        if mode == "requests":
            s.get_batch(2)
        elif mode == "passes":
            s.get_batch(2)
            s.reset()
        else:
            for _ in range(2):
                s.get_batch(2)
            if mode == "episodes":
                s.next_episode()
            else:
                try:
                    s.get_batch(2)
                except Exception as e:
                    if type(e).__name__ != "EpisodeEnd":
                        raise
                s.reset_episode() if c["images"] else s.reset()
    N = 150 if mode != "requests" else 400
    tracemalloc.start()
    try:
        marks = []
        for k in range(4 * N):
            one()
            ctx.event("small-rounds")
            if k % N == N - 1:
                gc.collect()
                own = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, "*/synthpix/*")])
                marks.append(sum(t.size for t in own.traces))
                del own
    finally:
        tracemalloc.stop()
        getattr(s, "shutdown", lambda: None)()
    g = [b - a for a, b in zip(marks, marks[1:])]
    ctx.row("per-" + mode, min(g) / N)
    ctx.check(min(g) < 16 * N, "memory-grows-with-" + mode, lambda: f"{what()}: memory allocated by the library's own lines: {marks} bytes after {N}, {2 * N}, {3 * N} and {4 * N} {mode}")
    ctx.event("with-" + mode)
    ctx.nontrivial(mode, what())


def episodes(ctx, c, tmp, what):
    import jax
    from tree import Tree
    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler, PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    t = Tree(tmp, [5, 6, 4], hw=(32, 32))
    base = MATFlowFieldScheduler(t.files, output_shape=(32, 32), loop=True)
    s = EpisodicFlowFieldScheduler(base, 3, c["L"], jax.random.PRNGKey(c["seed"] % 99))
    if c["buf"]:
        s = PrefetchingFlowFieldScheduler(s, batch_size=3, buffer_size=c["buf"], startup_timeout=30, steady_state_timeout=30)

    def work():
        if c["kind"] == "resets":
            s.reset()
            s.get_batch(3)
        else:
            for _ in range(c["L"]):
                s.get_batch(3)
            s.next_episode()
        ctx.event("batches", 1 if c["kind"] == "resets" else c["L"])
    try:
        steady(ctx, what, work, c["rounds"], 32 * 32 * 8)
    finally:
        getattr(s, "shutdown", lambda: None)()
    ctx.event("with-" + c["kind"])
    ctx.nontrivial(what())


main(Spec("Q02", cases, run,
          "long runs of pipelines, schedulers, episodes and resets with counts of live device arrays, threads, descriptors, traced memory and compilations at checkpoints; non-trivial: distinct configurations",
          quick=60, thorough=1500, workers=(6, 8), devices=2, quick_s=120, thorough_s=500,
          floors={"small-rounds": 5000, "rounds": 700, "with-chain": 12, "with-files": 6, "with-resets": 5, "with-episodes": 6, "with-real": 6, "compilations-seen": 100}))
