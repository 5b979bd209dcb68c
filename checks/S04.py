"""S04: samplers deliver the scheduler's whole stream, then signal its end."""
import random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = ("synthetic", "synthetic", "real", "chain")[k % 4]
        yield dict(kind=kind, T=rng.choice([0, 1, 2, 2, 3, 3, 5]), R=rng.choice([1, 1, 2, 3]), F=rng.choice([1, 2, 3]), B=rng.choice([3, 4]), devices=rng.choice([[0], [0], [0, 1]]),
                   ops=[rng.choice(["drain", "drain", "some", "reset", "soft-reset", "fail", "over"]) for _ in range(rng.randint(3, 8))], some=rng.randint(0, 5),
                   exc=rng.choice(["RuntimeError", "ValueError", "OSError"]), buf=rng.choice([0, 0, 2]), seed=rng.randrange(10 ** 6))


class Src:
    """A scheduler of T batches (images too) that can be told to fail once."""
    include_images = True

    def __init__(self, T, real):
        self.T, self.real, self.k, self.fail, self.resets, self.shut, self.gen = T, real, 0, None, 0, 0, 0
        self.file_list = ["stub"]

    def get_flow_fields_shape(self):
        return (40, 40, 2)

    def get_batch(self, batch_size):
        n = batch_size
        import numpy as np
        from synthpix.types import SchedulerData
        if self.fail is not None:
            e, self.fail = self.fail, None
            raise e
        if self.k >= self.T:
            raise StopIteration
        k = self.k
        self.k += 1
        a = np.full((n, 40, 40, 2), .25 * (k % 4) + .01 * k, np.float32)
        im = np.full((n, 12, 13), k + 1, np.uint8) if self.real else None
        return SchedulerData(flow_fields=a, images1=im, images2=None if im is None else im + 50, mask=np.ones(n, bool), files=tuple(f"g{self.gen}/b{k}/{i}" for i in range(n)))

    def reset(self):
        self.k, self.resets, self.gen = 0, self.resets + 1, self.gen + 1

    def shutdown(self):
        self.shut += 1


def run(ctx, c):
    import numpy as np
    from synth import spec, sampler
    if c["kind"] == "chain":
        return chain(ctx, c)
    real = c["kind"] == "real"
    T, R = c["T"], 1 if real else c["R"]
    exc = dict(RuntimeError=RuntimeError, ValueError=ValueError, OSError=OSError)[c["exc"]]
    src = Src(T, real)
    if real:
        from synthpix.sampler import RealImageSampler
        s = RealImageSampler(src, batch_size=c["F"])
    else:
        s = sampler(src, spec(batch_size=c["B"], image_shape=(9, 11), diameter_ranges=[(1.0, 1.0)], seeding_density_range=(.05, .05)), size=(40.0, 40.0), flows=c["F"], reuse=R, seed=c["seed"], devices=c["devices"])
    pos, left, gen = 0, 0, 0                # position in the scheduler's stream; uses left of the batch in hand
    hist = []
    what = lambda: f"{c['kind']} T={T} R={R} F={c['F']} B={c['B']}: history {hist[-12:]}"

    def step():
        """One request against the model. False after a violation, 'end' / 'data' otherwise."""
        nonlocal pos, left
        try:
            b = next(s)
        except StopIteration:
            hist.append("end")
            if not ctx.check(left == 0 and pos >= T, "ended-early", lambda: f"{what()}: end signalled at scheduler batch {pos} of {T}, {left} uses left"):
                return False
            ctx.event("ends")
            return "end"
        if left == 0:
            if not ctx.check(pos < T, "data-after-the-end", lambda: f"{what()}: a batch ({b.files}) after the last one was delivered"):
                return False
            pos, left = pos + 1, R
        left -= 1
        hist.append(pos - 1)
        want = tuple(f"g{gen}/b{pos - 1}/{i}" for i in range(c["F"]))
        ok = ctx.check(b.files == want, "wrong-batch", lambda: f"{what()}: files {b.files}, due {want}")
        if real:
            ok &= ctx.check(bool((np.asarray(b.images1) == pos).all() and (np.asarray(b.images2) == pos + 50).all()), "wrong-batch", lambda: f"{what()}: images of another batch")
        k = pos - 1
        v = np.asarray(b.flow_fields)
        ok &= ctx.check(np.allclose(v, .25 * (k % 4) + .01 * k, atol=1e-5), "wrong-batch", lambda: f"{what()}: flow values {v.min()}..{v.max()} for batch {k}")
        ctx.event("batches")
        return "data" if ok else False

    for op in c["ops"] + ["drain"]:
        if op == "some":
            for _ in range(c["some"]):
                r = step()
                if not r:
                    return
        elif op == "drain":
            for _ in range(T * R + 1):
                r = step()
                if not r:
                    return
                if r == "end":
                    break
        elif op == "over":
            for _ in range(3):
                if not step():
                    return
            if pos >= T and left == 0:
                ctx.event("requests-beyond-the-end")
        elif op in ("reset", "soft-reset"):
            n = src.resets
            if op == "reset":
                s.reset()
                ctx.check(src.resets > n, "scheduler-not-reset", what)
                pos, gen = 0, src.gen
            else:
                s.reset(scheduler_reset=False)
                ctx.check(src.resets == n, "scheduler-reset-unasked", what)
            left = 0
            hist.append(op)
            ctx.event(op)
        elif op == "fail" and left == 0:
            src.fail = exc("injected")
            try:
                b = next(s)
                ctx.fail("failure-hidden", f"{what()}: the scheduler failed, the sampler delivered {b.files}")
                return
            except StopIteration:
                ctx.fail("failure-taken-for-the-end", f"{what()}: the scheduler raised {exc.__name__}, the sampler signalled the end")
                return
            except exc as e:
                hist.append("failed")
                ctx.event("failures")
    n = src.shut
    s.shutdown()
    ctx.check(src.shut > n, "scheduler-not-shut-down", what)
    ctx.nontrivial(c["kind"], T, R, c["F"], c["ops"])


def chain(ctx, c):
    """A finite data set through the factory: every stored flow field reaches a batch, and then the iteration ends."""
    import pipes, os
    r = random.Random(c["seed"])
    fmt = r.choice(["h5", "npy", "mat"])
    real = fmt == "mat"
    ds = pipes.Dataset(ctx.tmp(), fmt, [("d", r.choice([1, 2, 3, 5]), r.choice([1, 2]))], hw=(24, 24), images=real)
    F = r.choice([1, 2, 3])
    kw = dict(batch_size=F) if real else dict(batch_size=3, batches_per_flow_batch=c["R"])
    s = pipes.make(pipes.config(ds, flow_fields_per_batch=F, buffer_size=c["buf"], seed=c["seed"], **kw), patience=3.0)
    R = 1 if real else c["R"]
    want = [f for f in ds.files for _ in ds.samples[f]]
    calls = -(-len(want) // F) * R
    try:
        for p in range(2):
            got = []
            n = 0
            for b in s:
                if n % R == 0:
                    got += [f for f, m in zip(b.files, np_(b.mask)) if m]
                n += 1
                ctx.event("batches")
                if not ctx.check(n <= calls, "data-after-the-end", lambda: f"factory, {fmt}, buffer {c['buf']}: more than {calls} batches"):
                    return
            ctx.check(n == calls, "ended-early", lambda: f"factory, {fmt}, buffer {c['buf']}, pass {p}: {n} of {calls} batches")
            ctx.check([os.path.basename(f) for f in got] == [os.path.basename(f) for f in want], "wrong-batch", lambda: f"factory, {fmt}: files {got} instead of {want}")
            for _ in range(2):
                try:
                    b = next(s)
                    ctx.fail("data-after-the-end", f"factory, {fmt}, buffer {c['buf']}, reuse {R}: a batch of {b.files} after the iteration ended")
                    return
                except StopIteration:
                    ctx.event("requests-beyond-the-end")
            ctx.event("ends")
            s.reset()
    finally:
        s.shutdown()
    ctx.event("through-the-factory")
    ctx.nontrivial("chain", fmt, F, R, c["buf"], len(want))


def np_(x):
    import numpy as np
    return np.asarray(x).astype(bool).tolist()


main(Spec("S04", cases, run,
          "sampler histories (partial and full passes, requests beyond the end, full and sampler-only resets, failing schedulers) against a model of the scheduler's stream, and finite data sets through the "
          "factory with and without buffering; non-trivial: distinct (kind, length, reuse, flows, operations)",
          quick=160, thorough=4000, workers=(8, 8), devices=2, quick_s=120, thorough_s=500,
          floors={"batches": 800, "ends": 150, "requests-beyond-the-end": 60, "reset": 40, "soft-reset": 40, "failures": 25, "through-the-factory": 30}))
