"""D03: unreadable files are skipped without disturbing the others."""
import os, random
from vp import Spec, main

FAULTS = {"h5": ["truncate", "garbage", "empty", "deleted", "group", "nofield"],
          "npy": ["truncate", "garbage", "empty", "deleted", "objects", "pickle", "noimg1", "noimg2", "badimg", "cutimg", "cutimg"],
          "mat": ["truncate", "garbage", "empty", "deleted", "noV", "noI1", "flat", "text"]}


def cases(rng, tier):
    while True:
        fmt = rng.choice(["h5", "npy", "mat"])
        nf = rng.randint(1, 7)
        p = rng.choice([.2, .4, .7, 1.0, 1.0])
        imgs = fmt != "h5" and rng.random() < .6
        kinds = [k for k in FAULTS[fmt] if imgs or k not in ("noimg1", "noimg2", "badimg", "cutimg", "noI1")]
        bad = [rng.choice(kinds) if rng.random() < p else None for _ in range(nf)]
        yield dict(fmt=fmt, sl=[rng.choice([1, 2, 3]) if fmt == "h5" else 1 for _ in range(nf)], bad=bad, images=imgs,
                   when=rng.choice(["before", "constructed", "running"]), loop=rng.random() < .5, shuffle=rng.random() < .3,
                   plan=[rng.choice([1, 2, 3, 5, 9]) for _ in range(3)], seed=rng.randrange(10**6))


def run(ctx, c):
    from world import World, name, check_batch, ended
    from damage import damage
    r = random.Random(c["seed"])
    w = World(ctx.tmp(), c["fmt"], (4, 5), images=c["images"], rng=r)
    # frames far apart, so that damaged companion images belong to one file only
    files = [w.add("d/" + name(c["fmt"], 3 * k + 1), n) for k, n in enumerate(c["sl"])]
    bad = {f: k for f, k in zip(files, c["bad"]) if k}
    # missing images and files are rejected at construction (documented): such faults happen later
    late = ("deleted", "noimg1", "noimg2") if c["fmt"] == "npy" else ("deleted",)
    if c["when"] == "before":
        for f, k in bad.items():
            if k not in late:
                damage(f, k, c, r, w)
    s = w.scheduler(list(files), loop=c["loop"], randomize=c["shuffle"])
    order = list(s.file_list)
    done_before = 0
    good = [f for f in files if f not in bad]
    if c["when"] == "running" and not c["shuffle"]:
        # read the first j files intact (they stay intact), then damage only files not reached yet
        j = r.randint(0, max(0, len(files) - 2))
        for f in files[: j + 1]:
            bad.pop(f, None)
        good = [f for f in files if f not in bad]
        n0 = sum(len(w.samples[f]) for f in files[:j])
        exp0 = w.stream(files)[:n0]
        i = 0
        while i < n0:
            n = min(r.choice([1, 2, 3]), n0 - i)
            if not check_batch(ctx, s.get_batch(n), n, exp0[i:i + n], "before the damage", images=c["images"]):
                return
            i += n
        done_before = n0
    for f, k in bad.items():
        if c["when"] != "before" or k in late:
            damage(f, k, c, r, w)
    for f, k in bad.items():
        ctx.event("fault-" + k)
    total = sum(len(w.samples[f]) for f in good)
    what0 = f"faults {c['bad']} ({c['when']}), loop={c['loop']}, shuffle={c['shuffle']}"

    def one_pass(skip, must):
        """Verifies deliveries from position `skip` of a pass over the good files. True if ended as expected."""
        due, cur, idx, pos, epochs = None, None, 0, skip, 0
        if skip:
            due = list(good)
            k = skip
            while k >= len(w.samples[due[0]]):
                k -= len(w.samples[due[0]])
                due.pop(0)
                if not due:
                    break
            if k:
                cur, idx = due.pop(0), k
        j = 0
        while True:
            if c["loop"] and (epochs >= 3 or j > 60):
                return True
            n = c["plan"][j % 3]
            j += 1
            b = ended(s, n)
            what = f"{what0}, request {j} (size {n}), position {pos} of {total}"
            if b is None:
                if total == 0:
                    ctx.event("nothing-readable")
                    ctx.nontrivial("all-bad", c["fmt"], c["bad"], c["loop"])
                    return True
                ctx.check(not c["loop"], "exhausted-while-looping", what)
                ctx.check(pos == total, "good-samples-lost", f"{what}: ended after {pos} of {total} readable samples")
                return True
            real = int(sum(bool(m) for m in b.mask))
            if not ctx.check(real > 0, "empty-batch", what):
                return False
            exp = []
            for i in range(real):
                if cur is None:
                    if not due:
                        if not c["loop"] and pos + i >= total:
                            ctx.fail("samples-invented", f"{what}: {b.files}")
                            return False
                        due = list(good)
                        epochs += 1
                    hit = [p for p in due if os.path.normpath(p) == os.path.normpath(b.files[i])]
                    if not ctx.check(hit, "damaged-or-repeated-file-delivered", f"{what}: entry {i} from {os.path.basename(b.files[i])}, still due: {[os.path.basename(p) for p in due]}"):
                        return False
                    if not c["shuffle"] and not ctx.check(hit[0] == due[0], "order-changed", f"{what}: entry {i} from {b.files[i]}, due {due[0]}"):
                        return False
                    due.remove(hit[0])
                    cur, idx = hit[0], 0
                exp.append((cur, idx, w.samples[cur][idx]))
                idx += 1
                if idx == len(w.samples[cur]):
                    cur = None
            if not check_batch(ctx, b, n, exp, what, images=c["images"]):
                return False
            if c["loop"] and not ctx.check(real == n, "partial-while-looping", what):
                return False
            pos += real
            ctx.event("samples", real)
            if bad:
                ctx.nontrivial(c["fmt"], c["bad"], c["when"], n, pos)

    if not one_pass(done_before, True):
        return
    for _ in range(2):
        s.reset()
        ctx.event("passes")
        if not one_pass(0, True):
            return


main(Spec("D03", cases, run,
          "random placements and kinds of file damage (truncated, garbage, empty, wrong content, missing field, deleted, damaged or missing companion image) at three moments, "
          "with/without looping and shuffling, mixed batch sizes, three passes; non-trivial: a batch delivered with damaged files in the list, or nothing readable at all",
          quick=1200, thorough=8000, case_timeout=45,
          floors={"samples": 1500, "nothing-readable": 40, "fault-truncate": 30, "fault-garbage": 30, "fault-deleted": 30, "fault-badimg": 8, "fault-cutimg": 15, "fault-objects": 10, "fault-pickle": 10, "fault-noV": 8, "passes": 300},
          assumptions=["files listed but missing already at construction are rejected there, as documented", "files damaged while they are the file being read are not judged"]))
