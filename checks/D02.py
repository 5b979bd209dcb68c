"""D02: looping and shuffling deliver whole epochs."""
import os, random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 60 == 31:                    # more files (or slices) than a byte can count
            fmt = rng.choice(["h5", "npy"])
            sl = [1] * rng.randint(258, 310) if rng.random() < .7 or fmt == "npy" else [rng.randint(258, 300), 1, 2]
            yield dict(fmt=fmt, sl=sl, loop=rng.random() < .5, shuffle=rng.random() < .8, key=rng.randrange(2**31), plan=[rng.choice([64, 130])], resets=1, repeat=False, images=False, seed=rng.randrange(10**6))
            continue
        fmt = rng.choice(["h5", "h5", "npy", "mat"])
        big = rng.random() < .08
        nf = rng.choice([1, 2, 2, 3, 4, 5, 7] if not big else [11, 20, 40])
        yield dict(fmt=fmt, sl=[rng.choice([1, 2, 3, 4] if not big else [1, 1, 2, 20]) if fmt == "h5" else 1 for _ in range(nf)],
                   loop=rng.random() < .75, shuffle=rng.random() < .65, key=rng.choice([None, rng.randrange(2**31)]),
                   plan=[rng.choice([1, 2, 3, 4, 5, 7, 11, 16] if not big else [5, 16, 33, 64, 130]) for _ in range(rng.choice([1, 2, 3]))],
                   resets=rng.choice([0, 0, 1, 2]), repeat=rng.random() < .2, images=fmt != "h5" and rng.random() < .3,
                   seed=rng.randrange(10**6))


def run(ctx, c):
    import jax
    from world import World, name, check_batch, ended
    r = random.Random(c["seed"])
    w = World(ctx.tmp(), c["fmt"], (3, 4), images=c["images"], rng=r)
    files = [w.add("d/" + name(c["fmt"], 2 * k + 1), n) for k, n in enumerate(c["sl"])]
    lst = files + ([r.choice(files) for _ in range(2)] if c["repeat"] else [])
    key = None if c["key"] is None else jax.random.PRNGKey(c["key"])

    def make(ww, ll):
        return ww.scheduler(list(ll), loop=c["loop"], randomize=c["shuffle"], key=key)

    s = make(w, lst)
    twin = make(w, lst)
    total = sum(len(w.samples[p]) for p in lst)
    log = []                                  # delivered (path) sequence, to compare with the twin

    def run_stream(s, record, verify):
        """Reads segments separated by resets; verifies epoch structure online."""
        for seg in range(c["resets"] + 1):
            want = total * 3 + r2.randint(0, total) if c["loop"] else 10**9
            if seg < c["resets"]:
                want = min(want, r2.randint(0, total * 2 + 1))
            pos, j = 0, 0
            state = dict(left=[], cur=None, idx=0)
            while pos < want:
                n = c["plan"][j % len(c["plan"])]
                j += 1
                b = ended(s, n)
                what = f"segment {seg}, batch {j} (size {n}), position {pos}, {len(lst)} files, {total} samples"
                if b is None:
                    if verify:
                        if not ctx.check(not c["loop"], "exhausted-while-looping", what):
                            return False
                        if not ctx.check(pos == total, "samples-lost", f"{what}: pass ended after {pos} of {total}"):
                            return False
                        ctx.event("finite-passes")
                    break
                if not verify:
                    record.extend((b.files[i]) for i in range(n) if b.mask[i])
                    pos += int(sum(b.mask))
                    continue
                # online monitor: which sample must each real entry be, given the epoch so far
                real = int(sum(bool(m) for m in b.mask))
                if c["loop"] and not ctx.check(real == n, "partial-while-looping", f"{what}: mask {b.mask}"):
                    return False
                exp = []
                for i in range(real):
                    if state["cur"] is None:                     # a new file begins
                        if not state["left"]:
                            if not c["loop"] and pos + i >= total:
                                ctx.fail("samples-invented", f"{what}: more than one pass without looping")
                                return False
                            state["left"] = list(lst)
                            ctx.event("epochs")
                        f = b.files[i]
                        hit = [p for p in state["left"] if os.path.normpath(p) == os.path.normpath(f)]
                        if not c["shuffle"]:
                            ok = os.path.normpath(state["left"][0]) == os.path.normpath(f)
                            if not ctx.check(ok, "order-changed", f"{what}: entry {i} from {f}, expected {state['left'][0]}"):
                                return False
                        if not ctx.check(hit, "not-a-permutation", f"{what}: entry {i} from {f}; still due in this epoch: {[os.path.basename(p) for p in state['left']]}"):
                            return False
                        state["left"].remove(hit[0])
                        state["cur"], state["idx"] = hit[0], 0
                    p, k = state["cur"], state["idx"]
                    exp.append((p, k, w.samples[p][k]))
                    state["idx"] += 1
                    if state["idx"] == len(w.samples[p]):
                        state["cur"] = None
                if not check_batch(ctx, b, n, exp, what, images=c["images"]):
                    return False
                record.extend(b.files[:real])
                ctx.event("samples", real)
                ctx.event("boundary-batches", (pos % total) + real > total)
                if (pos % total) + real > total:
                    ctx.nontrivial("boundary", c["fmt"], total, n, pos % total, c["shuffle"])
                pos += real
            s.reset()
            ctx.event("resets")
        return True

    r2 = random.Random(c["seed"] + 1)
    if not run_stream(s, log, True):
        return
    log2 = []
    r2 = random.Random(c["seed"] + 1)
    run_stream(twin, log2, False)
    ctx.check([os.path.basename(x) for x in log] == [os.path.basename(x) for x in log2], "not-a-function-of-the-key",
              f"two schedulers with key {c['key']} delivered different file orders")
    if c["shuffle"] and not c["repeat"]:
        # the order depends on the key alone: other contents, other place, same key
        w2 = World(ctx.tmp(), c["fmt"], (4, 3), images=c["images"], rng=r)
        files2 = [w2.add("other/" + name(c["fmt"], 2 * k + 1), 1) for k in range(len(files))]
        a, b = make(w, files), make(w2, files2)
        order = lambda s, ll: [[os.path.basename(x) for x in ll].index(os.path.basename(f)) for f in s.file_list]
        for _ in range(3):
            ctx.check(order(a, files) == order(b, files2), "order-depends-on-more-than-the-key", f"{order(a, files)} vs {order(b, files2)}")
            a.reset(); b.reset()
        ctx.event("key-twins")


main(Spec("D02", cases, run,
          "random data sets, batch-size plans straddling epochs, looping/shuffling flags, keys and resets; an online monitor tracks which files are still due in "
          "the current epoch; non-trivial: batches spanning an epoch boundary (format, size, position)",
          quick=1200, thorough=8000, floors={"samples": 3000, "boundary-batches": 250, "epochs": 500, "finite-passes": 40, "key-twins": 50}))
