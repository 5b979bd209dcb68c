"""D01: a finite pass delivers every stored sample exactly once, in order."""
import os, random
from vp import Spec, main


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        fmt = rng.choice(["h5", "h5", "h5", "npy", "mat"])
        nd = rng.randint(1, 3)
        dirs = []
        for d in range(nd):
            nf = rng.randint(1, 5)
            dirs.append([rng.choice([1, 1, 2, 3, 5, 7] + ([0] if rng.random() < .15 else [])) if fmt == "h5" else 1 for _ in range(nf)])
        if rng.random() < .06:              # long lists, long volumes
            dirs[rng.randrange(nd)] = [rng.choice([1, 1, 2, 35]) if fmt == "h5" else 1 for _ in range(rng.choice([12, 25, 45]))]
        if n % 60 == 17:                    # more than a byte can count
            dirs[0] = [rng.randint(257, 300), 1] if fmt == "h5" else [1] * rng.randint(257, 300)
        if sum(map(sum, dirs)) == 0:
            dirs[0][0] = 2
        yield dict(fmt=fmt, dirs=dirs, nest=rng.random() < .5, listing=rng.choice(["files", "dirs", "mixed", "repeat", "shuffled"]),
                   images=fmt != "h5" and rng.random() < .5, hw=[rng.randint(3, 6), rng.randint(3, 6)],
                   dtype=rng.choice(["float32", "float64"]),
                   plans=[[rng.choice([1, 1, 2, 3, 4, 5, 8, 13, 40] if sum(map(sum, dirs)) < 60 else [7, 16, 33, 64, 150]) for _ in range(rng.choice([1, 2, 4]))] for _ in range(3)],
                   early=rng.random() < .4, seed=rng.randrange(10**6))


def run(ctx, c):
    from world import World, name, check_batch, ended
    r = random.Random(c["seed"])
    w = World(ctx.tmp(), c["fmt"], c["hw"], images=c["images"], dtype=c["dtype"], rng=r, chfirst="mix")
    k, groups = 1, []
    for d, fs in enumerate(c["dirs"]):
        sub = f"d{d}" if not c["nest"] else f"top/x{d}/y"
        g = []
        for n in fs:
            g.append(w.add(f"{sub}/{name(c['fmt'], k)}", n))
            k += r.choice([1, 1, 2, 9])
        open(os.path.join(w.root, sub, "notes.txt"), "w").write("x")
        groups.append((os.path.join(w.root, sub), g))
    files = [p for _, g in groups for p in g]
    if c["listing"] == "files":
        lst = files
    elif c["listing"] == "dirs":
        top = os.path.join(w.root, "top")
        lst = [top] if c["nest"] and c["fmt"] != "npy" and r.random() < .5 else [d for d, _ in groups]
    elif c["listing"] == "mixed":
        lst = []
        for d, g in groups:
            lst += [d] if r.random() < .5 else g
        r.shuffle(lst)
    elif c["listing"] == "repeat":
        lst = []
        for p in files:
            lst += [p] * r.choice([1, 2, 3])
        if r.random() < .5:
            lst += r.sample(files, r.randint(1, len(files)))
    else:
        lst = files[:]
        r.shuffle(lst)
    given = list(lst)
    s = w.scheduler(lst, loop=False, randomize=False)
    ctx.check(lst == given, "list-modified", "the caller's file list was modified")
    exp = w.stream(w.expand(lst))
    ctx.check(len(s) == len(w.expand(lst)), "announced-length", lambda: f"len() is {len(s)} for {len(w.expand(lst))} files")
    total = len(exp)
    passes = list(c["plans"])
    for pi, plan in enumerate(passes):
        pos, j = 0, 0
        stop_at = r.randint(0, total) if (c["early"] and pi == 0) else None
        while True:
            n = plan[j % len(plan)]
            j += 1
            what = f"pass {pi}, batch {j} (size {n}), listing {c['listing']}, {total} samples, position {pos}"
            b = ended(s, n)
            if b is None:
                if not ctx.check(pos == total, "samples-lost", f"{what}: exhausted after {pos} of {total} samples"):
                    return
                ctx.event("exhaustion")
                break
            if not ctx.check(pos < total, "samples-invented", f"{what}: a batch after all {total} samples: files {b.files}"):
                return
            e = exp[pos:pos + n]
            if not check_batch(ctx, b, n, e, what, images=c["images"]):
                return
            pos += len(e)
            ctx.event("samples", len(e))
            ctx.event("short-batches", len(e) < n)
            ctx.event("batches")
            if stop_at is not None and pos >= stop_at:
                break
            if len(e) < n:
                ctx.nontrivial("short", c["fmt"], total, n, pos)
        else:
            pass
        if pos == total:
            for n in (1, 3):
                if not ctx.check(ended(s, n) is None, "restarted-without-reset", f"pass {pi}: a batch of {n} after exhaustion"):
                    return
        s.reset()
        ctx.event("resets")
    ctx.event("repeated-paths", c["listing"] == "repeat")
    ctx.nontrivial(c["fmt"], c["dirs"], c["listing"], c["plans"])


main(Spec("D01", cases, run,
          "random data sets (format, files, slices, nesting), listings (files, directories, mixed, repeated) and batch-size plans; "
          "three passes with resets; non-trivial: distinct (format, layout, listing, plan) or short final batch",
          quick=1600, thorough=12000, floors={"samples": 3000, "short-batches": 80, "resets": 200, "exhaustion": 200, "repeated-paths": 15},
          assumptions=["all listed files readable"]))
