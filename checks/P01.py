"""P01: prefetching is invisible: same batches, same order, none lost."""
import random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 28 == 5:                     # a consumer busy elsewhere for seconds while the buffer is full
            yield dict(kind="pause", n=rng.choice([6, 9, 14]), bs=1, buf=rng.choice([1, 2, 3]), prod=[0], cons=[0], burst=False, fail_at=0, once=None, exc="OSError", consumers=2, resets=[], chaos=0, lines=0, who="both", lscale=.004,
                       pauses={str(rng.randint(1, 3)): rng.choice([1.3, 2.6, 3.7, 5.4, 7.7, 11.5])}, seed=rng.randrange(10 ** 6))
        kind = rng.choice(["plain"] * 12 + ["slow-end", "fail", "fail", "fail", "multi", "multi", "reset", "reset", "reset", "reset", "files", "files"])
        d = lambda: [rng.choice([0, 0, 0, .001, .003, .01]) for _ in range(rng.choice([1, 3, 7]))]
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30])
        yield dict(kind=kind, n=n, bs=rng.choice([1, 2, 3]), buf=rng.choice([1, 1, 2, 3, 5, 8, 20]), prod=d(), cons=d(), burst=rng.random() < .4,
                   fail_at=rng.randint(0, n), once=rng.choice([None, None, "kept", "lost"]), exc=rng.choice(["ValueError", "OSError", "RuntimeError", "KeyError"]), consumers=rng.choice([2, 3, 4]),
                   resets=[rng.randint(0, n + 1) for _ in range(rng.choice([1, 2, 3]))], chaos=rng.choice([0, 0, .3, .6]), lines=rng.choice([0, .03, .1, .3]), who=rng.choice(["both", "consumer", "consumer", "worker"]), lscale=rng.choice([.004, .02, .06]), seed=rng.randrange(10**6))


def run(ctx, c):
    import threading, time, sys
    import conc
    from conc import Source, tag_of, wait_until, Chaos
    conc.install()
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    r = random.Random(c["seed"])
    sys.setswitchinterval(r.choice([1e-6, 1e-4, 5e-3]))
    Chaos.set(c["seed"], c["chaos"], .004, c["lines"], .3 if c["kind"] in ("slow-end", "multi") else .6, c["who"], c["lscale"])
    n, bs, kind = c["n"], c["bs"], c["kind"]
    if kind == "files":
        return files(ctx, c, r)
    exc = dict(ValueError=ValueError, OSError=OSError, RuntimeError=RuntimeError, KeyError=KeyError)[c["exc"]]("injected")
    src = Source(length=n, delays=[0] if kind == "slow-end" else c["prod"], fail_at=c["fail_at"] if kind == "fail" else None, exc=exc, once=c.get("once"))
    steady = 3.0 if kind == "slow-end" else 4.0 if kind == "multi" else 60.0
    if kind == "multi":
        n = src.length = max(n, 1)
    if kind == "slow-end":
        n = src.length = max(n, c["buf"] + 2) if c["buf"] < 9 else n
    p = PrefetchingFlowFieldScheduler(src, batch_size=bs, buffer_size=c["buf"], startup_timeout=60.0, steady_state_timeout=steady)
    got = []
    what = lambda: f"{kind}: n={n} buffer={c['buf']} batch={bs} produced={src.produced[-6:]} consumed so far {got[-6:]} ({len(got)})"
    try:
        if kind == "multi":
            lists = [[] for _ in range(c["consumers"])]
            bad = []

            def consume(out):
                try:
                    while True:
                        out.append(tag_of(p.get_batch(bs)))
                        time.sleep(r.choice([0, .001]))
                except StopIteration:
                    pass
                except BaseException as e:
                    bad.append(e)
            ts = [threading.Thread(target=consume, args=(o,), daemon=True) for o in lists]
            first = None
            if n:                       # the worker is started by one consumer; then all of them read
                first = tag_of(p.get_batch(bs))
            [t.start() for t in ts]
            [t.join(60) for t in ts]
            if any(t.is_alive() for t in ts):
                ctx.fail("consumer-stuck", what())
                return
            ctx.check(not bad, "consumer-error", lambda: f"{what()}: {bad[0]!r}")
            allgot = ([first] if first else []) + [x for o in lists for x in o]
            want = [(0, k) for k in range(n)]
            ctx.check(sorted(allgot, key=str) == sorted(want, key=str), "lost-or-duplicated", lambda: f"{kind}: consumers got {lists}, first {first}, produced {src.produced}")
            for o in lists:
                ctx.check(o == sorted(o), "reordered", lambda: f"{kind}: one consumer saw {o}")
            ctx.event("multi-batches", len(allgot))
            ctx.nontrivial("multi", n, c["consumers"], c["buf"], [len(o) for o in lists])
            return

        def read(limit, gen):
            """Reads up to limit batches; returns how the reading stopped."""
            k = 0
            while k < limit:
                if c["burst"] and k % 4 == 0:
                    time.sleep(r.choice(c["cons"]) * 3)
                else:
                    time.sleep(c["cons"][k % len(c["cons"])])
                if kind == "slow-end" and k == max(0, n - c["buf"]):
                    # everything left fits the buffer: wait until the source signalled its end, then stall
                    wait_until(lambda: src.ended, 20)
                    time.sleep(2.4)
                    ctx.event("stalls-at-the-end")
                if kind == "pause" and str(k) in c["pauses"]:
                    time.sleep(c["pauses"][str(k)])
                    ctx.event("long-pauses")
                try:
                    b = p.get_batch(bs)
                except StopIteration:
                    return "end"
                except Exception as e:
                    return e
                got.append(tag_of(b))
                ctx.event("batches")
                if not ctx.check(got[-1] == (gen, k), "lost-duplicated-or-reordered", lambda: f"{what()}: expected {(gen, k)} next, got {got[-1]}"):
                    return "bad"
                k += 1
            return "limit"

        gen = 0
        if kind == "reset":
            for at in c["resets"]:
                res = read(at, gen)
                if res == "bad":
                    return
                if not ctx.check(res in ("limit", "end") and not (res == "end" and at <= n), "early-end", lambda: f"{what()}: {res!r} before {at} batches"):
                    return
                p.reset()
                gen += 1
                got.clear()
                ctx.event("resets")
        res = read(10**6, gen)
        if res == "bad":
            return
        if kind == "fail":
            if not ctx.check(len(got) == c["fail_at"], "lost-before-failure", lambda: f"{what()}: the source failed at batch {c['fail_at']}"):
                return
            ctx.check(isinstance(res, Exception), "failure-hidden", lambda: f"{what()}: the source raised {exc!r}, the consumer saw a normal end of stream")
            ctx.event("failures")
        else:
            ctx.check(res == "end", "no-end-signal", lambda: f"{what()}: ended with {res!r}")
            ctx.check(len(got) == n, "batches-lost-at-end", lambda: f"{what()}: end of stream signalled after {len(got)} of {n} batches")
            ctx.event("ends")
        ctx.nontrivial(kind, n, c["buf"], bs, c["prod"], c["cons"], c["fail_at"] if kind == "fail" else None)
    finally:
        ctx.event("injected-delays", Chaos.count)
        ctx.event("line-delays", Chaos.line_count)
        Chaos.count = Chaos.line_count = 0
        Chaos.set(0, 0, 0)
        p.shutdown()


def files(ctx, c, r):
    """Real file schedulers: the prefetched stream equals the direct one."""
    import numpy as np
    from world import World, name, same
    from conc import Chaos
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    fmt = r.choice(["h5", "npy", "mat"])
    w = World(ctx.tmp(), fmt, (4, 5), images=fmt != "h5", rng=r)
    fs = [w.add("d/" + name(fmt, 2 * k + 1), r.choice([1, 2, 3]) if fmt == "h5" else 1) for k in range(r.randint(1, 5))]
    loop = r.random() < .5
    kw = dict(loop=loop, randomize=r.random() < .5)
    a, b = w.scheduler(fs, **kw), w.scheduler(fs, **kw)
    p = PrefetchingFlowFieldScheduler(b, batch_size=c["bs"], buffer_size=c["buf"], startup_timeout=60.0, steady_state_timeout=60.0)
    try:
        for k in range(12 if loop else 10**6):
            try:
                x = a.get_batch(c["bs"])
            except StopIteration:
                x = None
            try:
                y = p.get_batch(c["bs"])
            except StopIteration:
                y = None
            if not ctx.check((x is None) == (y is None), "batches-lost-at-end", f"files: direct {'ended' if x is None else 'delivers'}, prefetched {'ended' if y is None else 'delivers'} at batch {k}"):
                return
            if x is None:
                break
            for f in ("flow_fields", "images1", "images2", "mask"):
                u, v = getattr(x, f), getattr(y, f)
                if not ctx.check((u is None) == (v is None) and (u is None or same(u, v)), "altered", f"files: {f} of batch {k} differs"):
                    return
            ctx.check(x.files == y.files, "altered", "files: names differ")
            ctx.event("batches")
        ctx.event("file-streams")
        ctx.nontrivial("files", fmt, c["bs"], c["buf"], kw["loop"], kw["randomize"])
    finally:
        Chaos.set(0, 0, 0)
        p.shutdown()


main(Spec("P01", cases, run,
          "produced/consumed histories under scripted producer and consumer delays, injected delays after queue operations and before single lines of the scheduler code, stalls of 2.4 s at the end of the stream, failing sources, "
          "several consumers, resets, and real file schedulers; every batch carries a unique (generation, serial) tag; non-trivial: distinct (kind, length, buffer, delays)",
          quick=560, thorough=8000, workers=(12, 8), case_timeout=150,
          floors={"batches": 1200, "failures": 15, "multi-batches": 40, "stalls-at-the-end": 4, "long-pauses": 8, "resets": 20, "ends": 80, "file-streams": 8, "injected-delays": 200, "line-delays": 500},
          assumptions=["producer pauses stay below the configured waiting times (60 s; 4 s with several consumers, 3 s with a stalled one)"]))
