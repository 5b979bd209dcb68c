"""S01: images, flows, masks and file names of a batch entry belong together."""
import random
from vp import Spec, main
import motion


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 5 == 0:
            yield dict(kind="real", n=rng.randint(2, 9), B=rng.choice([1, 2, 3, 4]), buf=rng.choice([0, 1, 3]), L=rng.choice([0, 0, 2]), loop=rng.random() < .5, hw=rng.choice([(8, 8), (9, 14)]),
                       shuffle=rng.random() < .5, seed=rng.randrange(1000))
        else:
            yield dict(kind="synthetic", **motion.random_case(rng, total=rng.choice([None, None, 2, 4])), steps=rng.choice([6, 9, 12]),
                       resets=sorted(rng.sample(range(1, 8), rng.choice([0, 0, 1, 2]))), soft=rng.random() < .3)


def run(ctx, c):
    (real if c["kind"] == "real" else synthetic)(ctx, c)


def synthetic(ctx, c):
    import numpy as np
    from synth import names
    st, s, d = motion.setup(c, devices=[0])
    what0 = f"B={c['B']} F={c['F']} reuse={c['reuse']} res={c['res']} dt={c['dt']} grid={c['grid']} {c['units']}"
    used, k = 0, 0                      # image batches from the current flow batch; flow batch due
    fetches = len(st.log)
    for step in range(c["steps"]):
        if step in c["resets"]:
            s.reset(scheduler_reset=False) if c["soft"] else s.reset()
            k = (k + (1 if used else 0)) if c["soft"] else 0
            used = 0
            ctx.event("resets")
        if used == c["reuse"]:
            used, k = 0, k + 1
        if c.get("total") is not None and k >= c["total"]:
            try:
                b = next(s)
                ctx.fail("continues-after-the-end", f"{what0}: batch after the last flow batch (step {step}): {b.files}")
            except StopIteration:
                ctx.event("ends")
            break
        n0 = len(st.log)
        b = next(s)
        what = f"{what0} step {step} (flow batch {k}, use {used + 1})"
        got = len(st.log) - n0
        if not ctx.check(got == (1 if used == 0 else 0), "reuse-count", lambda: f"{what}: {got} flow batches fetched"):
            return
        if used == 0:
            ctx.check(st.log[-1] == (k, c["F"]), "wrong-request", lambda: f"{what}: requested {st.log[-1]}")
        used += 1
        ctx.check(b.files == names(k, c["F"]), "files-of-other-flows", lambda: f"{what}: {b.files}")
        ctx.check(b.mask is not None and np.asarray(b.mask).astype(bool).tolist() == [(k + i) % 3 > 0 for i in range(c["F"])], "mask-of-other-flows", lambda: f"{what}: {b.mask}")
        i1, i2, fl = np.asarray(b.images1), np.asarray(b.images2), np.asarray(b.flow_fields)
        if not ctx.check(len(i1) == len(i2) == len(fl) == c["B"], "batch-size", what):
            return
        for i in range(c["B"]):
            p = motion.check_entry(ctx, c, i1[i], i2[i], fl[i], f"{what} entry {i}")
            if p is None or not ctx.check(p == tuple(d(k)[i % c["F"]]), "flow-assignment", lambda: f"{what}: entry {i} returns the flow {p}, cyclic assignment gives {d(k)[i % c['F']]} of {d(k)}"):
                return
        ctx.event("batches")
    ctx.nontrivial(what0, c["resets"], c["seed"])


def real(ctx, c):
    import numpy as np, os
    import pipes
    from data import gray
    L = c["L"]
    ds = pipes.Dataset(ctx.tmp(), "mat", [("a", c["n"], 1), ("b", max(c["n"] // 2, L), 1)], hw=c["hw"], images=True)
    s = pipes.make(pipes.config(ds, batch_size=c["B"], flow_fields_per_batch=c["B"], loop=c["loop"], randomize=c["shuffle"], seed=c["seed"], buffer_size=c["buf"], episode_length=L))
    try:
        from synthpix.scheduler.protocol import EpisodeEnd
        for k in range(8):
            try:
                b = next(s)
            except EpisodeEnd:
                s.next_episode()
                continue
            except StopIteration:
                ctx.event("ends")
                break
            i1, i2, fl, m = (np.asarray(x) for x in (b.images1, b.images2, b.flow_fields, b.mask))
            if not ctx.check(len(b.files) == len(i1) == len(i2) == len(fl) == len(m) == c["B"], "batch-size", f"real images {c}"):
                return
            for i, f in enumerate(b.files):
                if not m[i]:
                    ctx.check(not f and not i1[i].any() and not fl[i].any(), "padding", f"real images, entry {i}")
                    continue
                u = ds.samples[os.path.normpath(f)][0]
                vx, vy = pipes.velocity(u)
                ctx.event("real-entries")
                ctx.check(np.array_equal(i1[i], gray(c["hw"], 2 * u)) and np.array_equal(i2[i], gray(c["hw"], 2 * u + 1)), "image-of-another-sample", lambda: f"real images, batch {k} entry {i} ({f})")
                ctx.check(np.allclose(fl[i][..., 0], vx, atol=1e-6) and np.allclose(fl[i][..., 1], vy, atol=1e-6), "flow-of-another-sample", lambda: f"real images, batch {k} entry {i} ({f}): {fl[i][0, 0]}")
        ctx.event("real")
        ctx.nontrivial("real", c)
    finally:
        s.shutdown()


main(Spec("S01", cases, run,
          "samplers over recorded flow batches of distinct whole-pixel motions: the motion of every entry is measured on its images and compared with the returned flow, the flow with the one the "
          "cyclic assignment gives, masks, file names and the scheduler's call log with the flow batch in use, through reuse, resets and the end of the stream; real-image batches over uniquely "
          "tagged samples; non-trivial: distinct (counts, geometry, resets)",
          quick=80, thorough=2600, workers=(8, 8), quick_s=90, thorough_s=600, floors={"entries-measured": 900, "batches": 200, "resets": 12, "ends": 5, "real-entries": 80}))
