"""E02: episode bookkeeping: exact length, one done flag, clean restarts."""
import os, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        L = rng.choice([1, 2, 3, 4, 5] * 4 + [8, 13])
        top = rng.choice(["episodic", "episodic", "prefetch", "prefetch", "real", "real-prefetch"]) if k % 8 else rng.choice(["synth", "synth-prefetch"])
        yield dict(L=L, lens=[L + rng.choice([0, 1, 3]) for _ in range(rng.choice([1, 2, 3]))], B=rng.choice([1, 2, 3]), top=top,
                   buf=rng.choice([1, 2, 3, 8]), loop=rng.random() < .5, shuffle=rng.random() < .3,
                   ops=[rng.choice(["step"] * 6 + ["next", "next", "reset", "drain", "over"]) for _ in range(rng.choice([10, 20, 40]))],
                   pause=rng.random() < .3, seed=rng.randrange(10**6))


def run(ctx, c):
    import jax, time
    import numpy as np
    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler, PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    from synthpix.sampler import RealImageSampler, SyntheticImageSampler
    from synthpix.types import ImageGenerationSpecification
    from tree import Tree, EpisodeMonitor
    r = random.Random(c["seed"])
    L, B, top = c["L"], c["B"], c["top"]
    synth, real = top.startswith("synth"), top.startswith("real")
    hw = (24, 24) if synth else (3, 4)
    t = Tree(ctx.tmp(), c["lens"], hw=hw, images=real, value=(lambda k, i: 0.05 * k + 0.001 * i) if synth else None)
    base = MATFlowFieldScheduler(t.files, loop=c["loop"], randomize=c["shuffle"], output_shape=hw, include_images=real, key=jax.random.PRNGKey(1))
    sch = EpisodicFlowFieldScheduler(base, batch_size=B, episode_length=L, key=jax.random.PRNGKey(c["seed"]))
    pre = "prefetch" in top
    if pre:
        sch = PrefetchingFlowFieldScheduler(sch, batch_size=B, buffer_size=c["buf"], startup_timeout=60.0, steady_state_timeout=60.0)
    nb = B
    if synth:
        nb = B + c["seed"] % 2
        smp = SyntheticImageSampler(sch, 1 + c["seed"] % 3, B, (24.0, 24.0), 1.0, 1.0, 0, 1.0, 1.0, 0.0, 0.0, "pixels", None,
                                    ImageGenerationSpecification(batch_size=nb, image_shape=(6, 7), img_offset=(8.0, 8.0), seeding_density_range=(0.02, 0.02), p_hide_img1=0.0, p_hide_img2=0.0))
    elif real:
        smp = RealImageSampler(sch, batch_size=B)
    m = EpisodeMonitor(ctx, t, L, B, images=real)
    if synth:
        m.cmp = lambda got, want: np.allclose(got, want.ravel()[0], atol=2e-4)
    # flow uid for synth files repeat across lanes; compared through file tags

    def get():
        if synth or real:
            b = next(smp) if r.random() < .7 else next(iter(smp))      # a new for-loop goes on where the last one stopped
            if not ctx.check(b.done is not None and b.done.shape == (nb,), "done-shape", f"{None if b.done is None else b.done.shape} for batch {nb}"):
                return None
            fl = np.asarray(b.flow_fields)
            if synth:
                for i in range(nb):                     # cyclic assignment: the first B entries name the lanes
                    if not ctx.check(np.array_equal(fl[i], fl[i % B]), "flow-assignment", f"entry {i}"):
                        return None
                fl = fl[:B]
            return fl, b.files, b.mask, (b.images1, b.images2) if real else (None, None), np.asarray(b.done)
        b = sch.get_batch(B)
        return b.flow_fields, b.files, b.mask, (b.images1, b.images2), None

    hist = []

    def remaining(where):
        exp = L - m.t
        got = sch.steps_remaining()
        ctx.event("remaining-checks")
        return ctx.check(got == exp, "steps-remaining", f"{top}: {got} steps remaining after {m.t} of {L} delivered ({where}); history {hist[-12:]}")

    def step():
        hist.append("step")
        try:
            x = get()
        except (StopIteration, EpisodeEnd) as e:
            ctx.fail("episode-too-short", f"{top}: {type(e).__name__} at step {m.t} of {L}; history {hist[-12:]}")
            return False
        if x is None or not m.step(x[0], x[1], x[2], *x[3]):
            return False
        if x[4] is not None:
            last = m.t == L
            ctx.event("done-flags", len(x[4]))
            if not ctx.check(bool(np.all(x[4] == last)), "done-flag", f"{top}: done={x[4]} after step {m.t} of {L}; history {hist[-12:]}"):
                return False
        if c["pause"] and r.random() < .3:
            time.sleep(.01)
        return remaining("after a step")

    def over():
        hist.append("over")
        try:
            x = get()
        except (EpisodeEnd, StopIteration) as e:
            ctx.event("over-reads")
            ctx.check(isinstance(e, EpisodeEnd), "wrong-end-signal", f"{top}: {type(e).__name__} instead of EpisodeEnd past the last step")
            return remaining("after an over-read")
        ctx.fail("read-past-the-end", f"{top}: a batch ({x and x[1]}) after all {L} steps; history {hist[-12:]}")
        return False

    # on the bare schedulers, the number of steps is known before the first batch
    try:
        if not remaining("before the first batch"):
            return
        ctx.check(sch.episode_length == L, "episode-length", lambda: f"{top}: announces episodes of {sch.episode_length}, configured {L}")
        for op in c["ops"]:
            if op == "step":
                if not (step() if m.t < L else over()):
                    return
            elif op in ("drain", "over"):
                while m.t < L:
                    if not step():
                        return
                if op == "over" and not (over() and over()):
                    return
            else:
                hist.append(f"{op}@{m.t}")
                tgt = smp if (synth or real) else sch
                tgt.next_episode() if op == "next" else tgt.reset()
                m.new(f"{op} at step {m.t}")
                ctx.event("restarts-mid-episode", m.t != L)
                if not remaining("after " + op):
                    return
        while m.t < L:
            if not step():
                return
        ctx.event(top)
        ctx.nontrivial(top, L, B, c["buf"] if pre else 0, c["ops"])
    finally:
        if pre:
            sch.shutdown()


main(Spec("E02", cases, run,
          "random sequences of step, next_episode, reset, drain and over-read on the episodic scheduler, its prefetched form and both samplers over either, monitored for remaining "
          "steps, done flags, end signal and lane contents; non-trivial: distinct (top layer, L, B, buffer, operations)",
          quick=200, thorough=6000, floors={"done-flags": 600, "over-reads": 150, "remaining-checks": 2500, "complete-episodes": 400, "restarts-mid-episode": 150,
                                            "prefetch": 15, "real": 8, "real-prefetch": 8, "synth": 4, "synth-prefetch": 4}))
