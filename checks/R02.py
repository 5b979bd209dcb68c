"""R02: randomness is fresh: seeds, batches, samples and devices all differ."""
import os, random
from vp import Spec, main

CORR = 0.5       # images of unrelated sparse populations: standard deviation about 0.07; same positions: above 0.8


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = ["populations", "shuffles", "noise", "starts", "populations", "seeds", "populations", "episodes"][k % 8]
        yield dict(kind=kind, B=rng.choice([2, 4, 8]), flows=rng.choice([1, 2, 4]), reuse=rng.choice([1, 2, 3]), devices=rng.choice([[0], None, None, [0, 1]]),
                   density=rng.choice([0.01, 0.03]), var=rng.random() < .5, seed=rng.randrange(10**6), std=rng.choice([5.0, 20.0]), uni=rng.choice([0.0, 30.0]),
                   n=rng.choice([3, 4]), L=rng.choice([1, 2, 3]), extra=rng.choice([0, 1, 2, 4]), fmt=rng.choice(["h5", "npy", "mat"]))


def corr(a, b):
    import numpy as np
    a = a - a.mean()
    b = b - b.mean()
    d = np.sqrt((a * a).sum() * (b * b).sum())
    return float((a * b).sum() / d) if d > 0 else 1.0


def run(ctx, c):
    globals()[c["kind"]](ctx, c)
    ctx.event(c["kind"])


def images(c, n, gs, seed, flows=None):
    import numpy as np
    from synth import Stub, sampler
    F = flows or c["flows"]
    st = Stub(lambda k, m: np.zeros((m, 80, 80, 2)), (80, 80, 2))
    s = sampler(st, gs, size=(80.0, 80.0), seed=seed, flows=F, reuse=c["reuse"], devices=c["devices"])
    return s, [next(s) for _ in range(n)]


def pairwise(ctx, labelled, limit, kind, what):
    m = 0
    for i in range(len(labelled)):
        for j in range(i):
            r = corr(labelled[i][1], labelled[j][1])
            ctx.event("pairs")
            m = max(m, r)
            if not ctx.check(r < limit, kind, lambda: f"{what}: {labelled[i][0]} and {labelled[j][0]} are correlated ({r:.3f})"):
                return m
    return m


def populations(ctx, c):
    """Image pairs of several batches over shared flow fields come from independent populations."""
    import numpy as np
    from synth import spec
    B = max(c["B"], 4)
    gs = spec(batch_size=B, image_shape=(48, 48), img_offset=(8.0, 8.0), seeding_density_range=(c["density"],) * 2, diameter_ranges=[(1.0, 3.0)] if c["var"] else [(2.0, 2.0)],
              intensity_ranges=[(60.0, 200.0)] if c["var"] else [(100.0, 100.0)], diameter_var=.1 if c["var"] else 0.0)
    s, bs = images(c, 4, gs, c["seed"])
    lab = [(f"batch {k} entry {i}", np.asarray(b.images1[i], float)) for k, b in enumerate(bs) for i in range(len(b.images1))]
    for n, im in lab:
        ctx.check(im.max() > 1, "no-particles", n)
    pairwise(ctx, lab, CORR, "same-population", f"devices {c['devices']} reuse {c['reuse']} flows {c['flows']} batch {B}")
    # and another seed gives another stream
    s2, b2 = images(c, 1, gs, c["seed"] + random.Random(c["seed"]).choice([1] + [2 ** k for k in range(1, 30)]))
    pairwise(ctx, lab[:B] + [("other seed entry %d" % i, np.asarray(b2[0].images1[i], float)) for i in range(len(b2[0].images1))], CORR, "same-population", "seeds")
    ctx.nontrivial("populations", c["devices"], c["reuse"], c["flows"], B, c["seed"])


def noise(ctx, c):
    """Noise fields of the two images of a pair, of entries, batches and devices are independent."""
    import numpy as np
    from synth import spec
    B = 4
    gs = spec(batch_size=B, image_shape=(60, 60), img_offset=(8.0, 8.0), seeding_density_range=(1e-6, 1e-6), noise_gaussian_mean=120.0, noise_gaussian_std=c["std"], noise_uniform=c["uni"])
    s, bs = images(c, 3, gs, c["seed"])
    lab = []
    for k, b in enumerate(bs):
        for i in range(len(b.images1)):
            lab += [(f"batch {k} entry {i} image 1", np.asarray(b.images1[i], float)), (f"batch {k} entry {i} image 2", np.asarray(b.images2[i], float))]
    for n, im in lab:
        ctx.check(im.std() > c["std"] * .8, "noise-missing", lambda: f"{n}: deviation {im.std():.2f}")
    pairwise(ctx, lab, .13, "same-noise", f"devices {c['devices']} std {c['std']} uniform {c['uni']}")       # independent: sd 1/60
    ctx.nontrivial("noise", c["devices"], c["reuse"], c["std"], c["uni"], c["seed"])


def shuffles(ctx, c):
    """Shuffles cover all orders, within one run (epochs, resets) and over seeds."""
    import jax
    from pipes import Dataset
    from data import sched_class
    n = c["n"]
    ds = Dataset(ctx.tmp(), c["fmt"], [("d", n, 1)], hw=(4, 4)) if c["fmt"] != "mat" else Dataset(ctx.tmp(), "mat", [("d", n, 1)], hw=(4, 4), images=True)
    name = {f: i for i, f in enumerate(ds.files)}
    kw = dict(output_shape=(4, 4)) if c["fmt"] == "mat" else {}
    mk = lambda seed, loop=True: sched_class(c["fmt"])(list(ds.files), loop=loop, randomize=True, key=jax.random.PRNGKey(seed), **kw)
    fact = {3: 6, 4: 24}[n]
    reps = fact * 25                                            # missing one order: fact * exp(-25) < 1e-9
    s = mk(c["seed"])
    within = [tuple(name[f] for f in s.get_batch(n).files) for _ in range(reps)]
    ctx.event("epochs", reps)
    ctx.check(len(set(within)) == fact, "orders-not-covered", lambda: f"{c['fmt']}: {len(set(within))} of {fact} orders in {reps} epochs of one run")
    same = sum(a == b for a, b in zip(within, within[1:]))
    ctx.check(same < reps * .5, "same-order-again", lambda: f"{c['fmt']}: {same} of {reps} epochs repeat the previous order")
    seeds = [tuple(name[f] for f in mk(c["seed"] + 1 + k).get_batch(n).files) for k in range(reps)]
    ctx.check(len(set(seeds)) == fact, "orders-not-covered", lambda: f"{c['fmt']}: {len(set(seeds))} of {fact} orders over {reps} seeds")
    s = mk(c["seed"], loop=False)
    rs = []
    for _ in range(reps // 2):
        rs.append(tuple(name[f] for f in s.get_batch(n).files))
        s.reset()
    ctx.check(len(set(rs)) >= fact * .9, "orders-not-covered", lambda: f"{c['fmt']}: {len(set(rs))} of {fact} orders over {len(rs)} resets")
    ctx.nontrivial("shuffles", c["fmt"], n, c["seed"])


def starts(ctx, c):
    """Episode starts cover every admissible start, in every lane, within one run and over seeds."""
    import jax, os
    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler
    from tree import Tree
    L, B = c["L"], min(c["B"], 2 + c["seed"] % 3)
    t = Tree(ctx.tmp(), [L + c["extra"], L + 1, L][:1 + c["seed"] % 3], hw=(2, 2), samename=c["seed"] % 2 == 0, nested=c["seed"] % 5 == 0, dirs=random.Random(c["seed"]) if c["seed"] % 7 < 3 else None)
    adm = {(k, a) for k, sq in enumerate(t.seqs) for a in range(len(sq) - L + 1)}
    reps = int(len(adm) * 28)                                  # missing one in one lane: |adm| * B * exp(-28)
    mk = lambda seed: EpisodicFlowFieldScheduler(MATFlowFieldScheduler(list(t.files), output_shape=(2, 2), loop=False, key=jax.random.PRNGKey(0)), batch_size=B, episode_length=L, key=jax.random.PRNGKey(seed))
    e = mk(c["seed"])
    lanes = [[] for _ in range(B)]
    for r in range(reps):
        b = e.get_batch(B)
        for i, f in enumerate(b.files):
            lanes[i].append(t.lookup(f))
        e.next_episode()
    ctx.event("episodes-drawn", reps)
    for i, l in enumerate(lanes):
        ctx.check(set(l) == adm, "starts-not-covered", lambda: f"lane {i}: {len(set(l))} of {len(adm)} admissible starts in {reps} episodes (missing {sorted(adm - set(l))[:4]})")
    if len(adm) > 1:
        ctx.check(any(a != b for a, b in zip(lanes[0], lanes[-1])) or B == 1, "lanes-identical", "all lanes always draw the same start")
        first = {tuple(t.lookup(f) for f in mk(c["seed"] + 1 + k).get_batch(B).files) for k in range(24)}
        ctx.check(len(first) > 1, "seed-has-no-effect", lambda: f"24 seeds draw the same first episode out of {len(adm)} starts and {B} lanes")
    ctx.nontrivial("starts", L, B, len(adm), c["seed"])


def seeds(ctx, c):
    """Through the factory, the seed reaches shuffles and images."""
    import numpy as np, pipes
    ds = pipes.Dataset(ctx.tmp(), c["fmt"], [("d", 6, 1)])
    out = {}
    a = c["seed"] % 3
    far = [2 ** k for k in random.Random(c["seed"]).sample(range(4, 30), 3)]
    far[0] = (2 ** 8, 2 ** 16, 2 ** 16 + 2 ** 24)[c["seed"] % 3]
    for k in (a, a + 1, a + 2, *(a + j + f for j, f in enumerate(far))):
        s = pipes.make(pipes.config(ds, batch_size=6, flow_fields_per_batch=6, randomize=True, loop=True, seed=k, image_shape=[10, 11], buffer_size=0 if k % 2 else 2,
                                    seeding_density_range=[.1, .1]))
        b = next(s)
        s.shutdown()
        out[k] = (tuple(os.path.basename(f) for f in b.files), np.asarray(b.images1))
    ctx.check(len({o[0] for o in out.values()}) >= 4, "seed-does-not-reach-the-shuffle", lambda: f"{c['fmt']}: six seeds give the orders {[o[0] for o in out.values()]}")   # all but impossible below 4 of 720
    for i in out:
        for j in out:
            if i < j:
                ctx.check(not np.array_equal(out[i][1], out[j][1]), "seed-does-not-reach-the-images", lambda: f"seeds {i} and {j} give identical images")
                ctx.event("pairs")
    ctx.nontrivial("seeds", c["fmt"])


def episodes(ctx, c):
    """Through the factory, the seed reaches the episode draws, and they are not tied to the shuffle."""
    import pipes
    ds = pipes.Dataset(ctx.tmp(), "mat", [(f"q{k}", 5, 1) for k in range(4)], hw=(4, 4), images=True)
    first = set()
    for k in (0, 1, 2, 3, 2 ** 8, 2 ** 16 + 1, 2 ** 24 + 2, 2 ** 28 + 3):
        s = pipes.make(pipes.config(ds, batch_size=3, flow_fields_per_batch=3, episode_length=c["L"], seed=k, randomize=bool(k % 2), buffer_size=k % 3))
        first.add(tuple(os.path.relpath(f, ds.root) for f in next(s).files))
        s.next_episode()
        first.add(tuple(os.path.relpath(f, ds.root) for f in next(s).files))
        s.shutdown()
    ctx.event("episodes-drawn", 16)
    ctx.check(len(first) >= 10, "seed-does-not-reach-the-episodes", lambda: f"8 seeds, two episodes each: only {len(first)} distinct draws")
    ctx.nontrivial("episodes", c["L"], c["seed"])


main(Spec("R02", cases, run,
          "recorded streams of samplers on 1, 2 and 4 virtual devices (pairwise correlation of all images of four batches and of another seed; of noise fields), file orders over hundreds of "
          "epochs, resets and seeds, episode starts per lane over all admissible starts; thresholds leave false-alarm probabilities below 1e-8; non-trivial: distinct settings",
          quick=64, thorough=900, workers=(8, 8), devices=4, quick_s=90, thorough_s=600,
          floors={"pairs": 3000, "epochs": 2000, "episodes-drawn": 600, "populations": 15, "noise": 4, "shuffles": 4, "starts": 4, "seeds": 4, "episodes": 4}))
