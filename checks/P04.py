"""P04: prefetching runs ahead of the consumer, within its buffer and its timeouts."""
import random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        yield dict(kind=("ahead", "ahead", "episodes", "slow-first", "slow-later", "give-up", "after-shutdown")[k % 7], buf=rng.choice([1, 1, 2, 3, 5, 9]), bs=rng.choice([1, 2, 3]), reads=rng.choice([1, 2, 3, 7]),
                   resets=rng.choice([0, 0, 1, 2]), L=rng.choice([1, 2, 3, 5]), skip=rng.choice([True, False]), chaos=rng.choice([0, 0, .4]), lines=rng.choice([0, 0, .1]), who=rng.choice(["both", "consumer", "worker"]), lscale=rng.choice([.004, .016, .05]), seed=rng.randrange(10 ** 6))


def run(ctx, c):
    import threading, time
    import conc
    from conc import Source, EpisodicSource, tag_of, wait_until, Chaos
    conc.install()
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    r = random.Random(c["seed"])
    Chaos.set(c["seed"], c["chaos"], .003, c["lines"] if c["kind"] in ("ahead", "episodes", "after-shutdown") else 0, 1.0, c["who"], c["lscale"])
    kind, buf, bs = c["kind"], c["buf"], c["bs"]
    made = lambda s: len(s.produced)
    what = lambda: f"{kind}: buffer={buf} batch={bs} reads={c['reads']} resets={c['resets']} loaded {src.produced[-8:]} ({made(src)}), delivered {got[-8:]} ({len(got)})"
    got = []
    mk = lambda src, a, b: PrefetchingFlowFieldScheduler(src, batch_size=bs, buffer_size=buf, startup_timeout=a, steady_state_timeout=b)
    if kind == "episodes":
        src = EpisodicSource(c["L"])
        p = mk(src, 60.0, 60.0)
        try:
            taken = 0                        # batches taken out of the buffer: delivered or skipped
            for e in range(4):
                n = r.randint(1, c["L"]) if c["skip"] else c["L"]
                for t in range(n):
                    got.append(tag_of(p.get_batch(bs)))
                    if not ctx.check(got[-1] == (e, t), "wrong-batch", what):
                        return
                    taken += 1
                if not settle(ctx, src, taken, buf, wait_until, what, time):
                    return
                if n < c["L"]:
                    taken += c["L"] - n
                    ctx.event("skips")
                p.next_episode()
                if not settle(ctx, src, taken, buf, wait_until, what, time):
                    return
        finally:
            p.shutdown()
        ctx.nontrivial(kind, buf, c["L"], c["skip"], bs)
        return
    if kind == "ahead":
        gate = threading.Event()
        gate.set()
        src = Source(gate=gate)
        p = mk(src, 60.0, 60.0)
        try:
            for g in range(c["resets"] + 1):
                base = made(src)
                for k in range(c["reads"]):
                    got.append(tag_of(p.get_batch(bs)))
                    if not ctx.check(got[-1] == (g, k), "wrong-batch", what):
                        return
                    ctx.check(made(src) - base <= k + 1 + buf + 1, "runs-too-far-ahead", what)
                if not settle(ctx, src, c["reads"], buf, wait_until, what, time, base):
                    return
                # the source stalls: what was prefetched is served all the same
                gate.clear()
                out = []

                def consume():
                    for _ in range(buf):
                        out.append(tag_of(p.get_batch(bs)))
                t = threading.Thread(target=consume, daemon=True)
                t.start()
                t.join(30)
                ok = ctx.check(not t.is_alive() and len(out) == buf, "not-ahead", lambda: f"{what()}: with the source stalled only {len(out)} of {buf} prefetched batches were served")
                gate.set()
                t.join(60)
                if not ok:
                    return
                got += out
                ctx.check(out == [(g, c["reads"] + i) for i in range(buf)], "wrong-batch", lambda: f"{what()}: served {out}")
                ctx.event("served-while-stalled", buf)
                p.reset()
        finally:
            gate.set()
            p.shutdown()
        ctx.nontrivial(kind, buf, c["reads"], c["resets"], bs)
        return
    if kind in ("slow-first", "slow-later"):
        # a load slower than the other timeout, and well within its own
        src = Source(length=buf + c["reads"] + 6)
        slow = {"k": 0 if kind == "slow-first" else c["reads"]}
        orig = src.get_batch

        def get_batch(n):
            if src.k == slow["k"]:
                time.sleep(.7)
            return orig(n)
        src.get_batch = get_batch
        p = mk(src, 60.0, .25) if kind == "slow-first" else mk(src, .25, 60.0)
        try:
            for g in range(c["resets"] + 1):
                for k in range(c["reads"] + 1 if kind == "slow-later" else 1):
                    for attempt in range(200):
                        try:
                            got.append(tag_of(p.get_batch(bs)))
                            break
                        except StopIteration:
                            # the other requests may give up (and are repeated): a busy machine; this one may not
                            if k == (0 if kind == "slow-first" else slow["k"]):
                                ctx.fail("gave-up-too-early", f"{what()}: request {k} of generation {g} gave up although its timeout is 60 s")
                                return
                    if not ctx.check(got[-1:] == [(g, k)], "wrong-batch", what):
                        return
                ctx.event("slow-loads-awaited")
                p.reset()
        finally:
            p.shutdown()
        ctx.nontrivial(kind, buf, c["reads"], c["resets"])
        return
    if kind == "give-up":
        gate = threading.Event()
        at = r.choice([0, c["reads"]])
        src = Source(gate=gate, gate_at=at)
        p = mk(src, .3 if at == 0 else 60.0, .3 if at else 60.0)
        try:
            k = 0
            while k < at:
                try:
                    got.append(tag_of(p.get_batch(bs)))
                    k += 1
                except StopIteration:
                    continue
            n0 = time.monotonic()
            box = []

            def ask():
                try:
                    box.append(tag_of(p.get_batch(bs)))
                except StopIteration:
                    box.append("stop")
                except BaseException as e:
                    box.append(repr(e))
            t = threading.Thread(target=ask, daemon=True)
            t.start()
            t.join(30)
            if not ctx.check(not t.is_alive(), "waits-beyond-the-timeout", lambda: f"{what()}: a request for a batch that never comes still waits after 30 s (timeout 0.3 s)"):
                return
            ctx.check(box == ["stop"], "wrong-batch", lambda: f"{what()}: answered {box}")
            gate.set()
            ctx.event("given-up")
            if not ctx.check(wait_until(lambda: made(src) > at, 30), "stuck", what):
                return
            wait_until(lambda: made(src) >= at + buf, 30)
            got.append(tag_of(p.get_batch(bs)))
            ctx.check(got[-1] == (0, at), "lost-after-giving-up", what)
        finally:
            gate.set()
            p.shutdown()
        ctx.nontrivial(kind, buf, at)
        return
    # after-shutdown: nothing is loaded any more
    src = Source()
    p = mk(src, 60.0, 60.0)
    for k in range(c["reads"]):
        got.append(tag_of(p.get_batch(bs)))
    p.shutdown()
    wait_until(lambda: not p.is_running(), 20)
    n0 = len(src.log)
    time.sleep(.05)
    ctx.check(len(src.log) == n0 and not p.is_running(), "loads-after-shutdown", lambda: f"{what()}: {len(src.log) - n0} more calls to the source after the shutdown")
    ctx.event("shutdowns")
    ctx.nontrivial(kind, buf, c["reads"], bs, c["chaos"])


def settle(ctx, src, taken, buf, wait_until, what, time, base=0):
    """The consumer rests: the buffer gets filled, and not more than that (plus the batch waiting for a free place)."""
    if not ctx.check(wait_until(lambda: len(src.produced) - base >= taken + buf, 20), "not-ahead", lambda: f"{what()}: at rest, only {len(src.produced) - base - taken} batches ahead"):
        return False
    time.sleep(.02)
    n = len(src.produced) - base - taken
    ctx.event("rests")
    return ctx.check(n <= buf + 1, "runs-too-far-ahead", lambda: f"{what()}: {n} batches ahead of the consumer")


main(Spec("P04", cases, run,
          "prefetching over instrumented sources with idle consumers, stalled and slow sources, resets, skipped episodes and shutdowns; non-trivial: distinct (situation, buffer, reads, options)",
          quick=280, thorough=8000, workers=(8, 12), case_timeout=200, quick_s=90, thorough_s=400,
          floors={"rests": 150, "served-while-stalled": 150, "slow-loads-awaited": 60, "given-up": 25, "shutdowns": 25, "skips": 8}))
