"""E01: episodes are contiguous, step-aligned runs of one sequence per lane."""
import os, random
from vp import Spec, main


def cases(rng, tier):
    while True:
        big = rng.random() < .06
        L = rng.choice([1, 2, 3, 3, 4, 6] if not big else [9, 12, 20])
        nseq = rng.choice([1, 1, 2, 3, 4] if not big else [2, 7, 12])
        yield dict(L=L, lens=[L + rng.choice([0, 0, 1, 2, 5]) for _ in range(nseq)], B=rng.choice([1, 2, 3, 4, 6, 9] if not big else [5, 17]), nested=rng.random() < .3, samename=rng.random() < .3,
                   loop=rng.random() < .6, shuffle=rng.random() < .5, key=rng.choice([None, rng.randrange(2**31)]), images=rng.random() < .25,
                   listing=rng.choice(["files", "dirs", "root", "subrange", "shuffled", "stray", "dotpath"]),
                   ops=[rng.choice(["full", "full", "full", "skip", "reset", "over"]) for _ in range(rng.randint(4, 9))],
                   short=rng.random() < .1, seed=rng.randrange(10**6))


def run(ctx, c):
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    from tree import Tree, EpisodeMonitor
    r = random.Random(c["seed"])
    L, B = c["L"], c["B"]
    lens = list(c["lens"])
    if c["short"] and L > 1:
        lens[r.randrange(len(lens))] = L - 1
    t = Tree(ctx.tmp(), lens, images=c["images"], nested=c["nested"], samename=c["samename"], skip=r.choice([0, 7]), odd=r if r.random() < .3 else None, dirs=r if r.random() < .4 else None)
    lst, listed = list(t.files), None
    if c["listing"] == "dirs":
        lst = [os.path.dirname(s[0]) for s in t.seqs]
    elif c["listing"] == "root":
        lst = [t.root]
    elif c["listing"] == "shuffled":
        r.shuffle(lst)
    elif c["listing"] == "subrange" and not c["short"]:
        lst = []
        for s in t.seqs:
            a = r.randint(0, len(s) - L)
            lst += s[a: r.randint(a + L, len(s))]
        listed = lst
    elif c["listing"] == "stray":
        from data import write_mat
        import numpy as np
        for k in range(2):                   # frames beside the sequence directories belong to no sequence
            p = os.path.join(t.root, f"stray{k}.mat")
            write_mat(p, False, V=np.full((3, 4, 2), -5, np.float32), **(dict(I0=np.zeros((3, 4), np.uint8), I1=np.zeros((3, 4), np.uint8)) if c["images"] else {}))
            lst.insert(r.randint(0, len(lst)), p)
    elif c["listing"] == "dotpath":
        lst = [os.path.join(os.path.dirname(f), ".", os.path.basename(f)) for f in lst]
    base = MATFlowFieldScheduler(lst, loop=c["loop"], randomize=c["shuffle"], output_shape=t.hw, include_images=c["images"],
                                 key=None if c["key"] is None else jax.random.PRNGKey(c["key"] ^ 5))
    mk = lambda: EpisodicFlowFieldScheduler(base, batch_size=B, episode_length=L, key=None if c["key"] is None else jax.random.PRNGKey(c["key"]))
    if c["short"] and L > 1:
        try:
            mk()
        except ValueError:
            ctx.event("too-short-rejected")
            return
        ctx.fail("too-short-accepted", f"sequence lengths {lens}, episode length {L}")
        return
    s = mk()
    m = EpisodeMonitor(ctx, t, L, B, listed, images=c["images"])
    starts = set()

    def step():
        b = s.get_batch(B)
        ok = m.step(b.flow_fields, b.files, b.mask, b.images1, b.images2)
        if ok and m.t == 1:
            starts.update(m.lanes)
        return ok

    for op in c["ops"]:
        n = L if op in ("full", "over") else r.randint(0, L)
        for _ in range(n):
            try:
                if not step():
                    return
            except (StopIteration, EpisodeEnd) as e:
                ctx.fail("episode-too-short", f"{type(e).__name__} at step {m.t} of {L} after {m.why}; ops {c['ops']}, loop={c['loop']}, shuffle={c['shuffle']}")
                return
        if op == "over":
            for _ in range(2):
                try:
                    b = s.get_batch(B)
                    ctx.fail("read-past-the-end", f"a batch after step {L}: {b.files}")
                    return
                except (EpisodeEnd, StopIteration):
                    ctx.event("over-reads")
        if op == "reset":
            s.reset()
        else:
            s.next_episode()
        m.new(f"{op} at step {n}")
        ctx.event("episodes")
    ctx.event("batch-exceeds-starts", B > sum(n - L + 1 for n in lens))
    ctx.event("shuffled-base", c["shuffle"])
    ctx.nontrivial(lens, L, B, c["ops"], c["listing"], c["loop"], c["shuffle"])


main(Spec("E01", cases, run,
          "random trees of numbered frames (lengths, nesting, listings incl. partial, stray files and unsorted), episode lengths, lane counts (beyond the number of starts too), keys, "
          "shuffling/looping bases and sequences of full/partial/over-read episodes; non-trivial: distinct (layout, L, B, operations, flags)",
          quick=500, thorough=8000, floors={"complete-episodes": 500, "lane-steps": 5000, "colliding-starts": 100, "too-short-rejected": 8, "over-reads": 60, "shuffled-base": 60, "batch-exceeds-starts": 60},
          assumptions=["readable .mat frames, the listed frames of a directory being consecutive"]))
