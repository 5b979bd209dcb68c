"""P03: prefetching lifecycle: reset and shutdown always complete cleanly."""
import random
from vp import Spec, main


def cases(rng, tier):
    while True:
        st = rng.choice(["random"] * 8 + ["waiting-at-end"] * 2 + ["never-started", "loading", "full", "full", "eos", "eos-pending", "failed", "blocked-consumer", "exhausted", "skipping", "blocked-consumer"])
        ops = rng.choice([["shutdown"], ["shutdown", "shutdown"], ["reset", "read", "shutdown"], ["reset", "reset", "read", "shutdown"], ["shutdown", "reset", "read", "shutdown"],
                                   ["reset", "read", "reset", "read", "shutdown"], ["shutdown", "shutdown", "reset", "read", "shutdown"], ["reset", "shutdown"]])
        if st in ("blocked-consumer", "waiting-at-end"):   # another thread is inside get_batch(): only shutdown is meant to interrupt it
            ops = ([o for o in ops if o == "shutdown"] or ["shutdown"]) + rng.choice([[], ["reset", "read", "shutdown"]])
        yield dict(state=st, ops=ops,
                   episodic=rng.random() < .35, L=rng.choice([1, 2, 4]), bs=rng.choice([1, 2]), buf=rng.choice([1, 1, 2, 3, 8]),
                   delays=[rng.choice([0, 0, .001, .004]) for _ in range(3)], n=rng.choice([0, 1, 2, 5, 9, None, None]), reads=rng.choice([0, 1, 1, 2, 5, 12]),
                   phase=rng.random(), long=rng.random() < .2, join=rng.choice([.01, .1, .5, 2.0]), chaos=rng.choice([0, .3, .7]), lines=rng.choice([0, 0, .03, .1, .3]), who=rng.choice(["both", "consumer", "worker"]), lscale=rng.choice([.004, .016, .05]), seed=rng.randrange(10**6))


def run(ctx, c):
    import sys, threading, time, gc
    import conc
    from conc import Source, EpisodicSource, tag_of, wait_until, Chaos
    conc.install()
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    r = random.Random(c["seed"])
    sys.setswitchinterval(r.choice([1e-6, 1e-4, 5e-3]))
    before = set(threading.enumerate())
    st, bs, epi = c["state"], c["bs"], c["episodic"]
    gate = threading.Event()
    kw = dict(delays=c["delays"])
    n = c["n"]
    if st == "loading":
        kw.update(gate=gate, gate_at=c["reads"])
        n, epi = None, False
    elif st == "full":
        n = None
    elif st == "waiting-at-end":
        n, epi = c["reads"], False
    elif st in ("eos", "eos-pending", "exhausted"):
        n, epi = (c["buf"] - 1 if st == "eos" else c["buf"] if st == "eos-pending" else c["reads"]), False
    elif st == "failed":
        kw.update(fail_at=c["reads"], exc=ValueError("injected"))
        n, epi = None, False
    elif st == "blocked-consumer":
        kw.update(gate=gate, gate_at=0)
        n, epi = None, False
    elif st == "skipping":
        n, epi = None, True
    src = EpisodicSource(c["L"], **kw) if epi else Source(length=n, **kw)
    Chaos.set(c["seed"], c["chaos"], .003, c["lines"], 1.0, c["who"], c["lscale"])
    p = PrefetchingFlowFieldScheduler(src, batch_size=bs, buffer_size=c["buf"], startup_timeout=40.0, steady_state_timeout=40.0)
    hist = []
    desc = lambda: f"{st}: buffer={c['buf']} ops={c['ops']} n={n} episodic={epi} history {hist[-10:]} source log {[w for w, _ in src.log][-8:]}"
    new = lambda: [t for t in threading.enumerate() if t not in before and t is not consumer and t.is_alive()]
    consumer = None
    gen, due = 0, 0

    def read():
        """One read at a moment where the next batch is due[gen]: tag or how it ended."""
        try:
            x = tag_of(p.get_batch(bs))
        except EpisodeEnd:
            return "episode-end"
        except StopIteration:
            return "stop"
        except ValueError as e:
            return "error"
        hist.append(x)
        return x

    try:
        # ---- bring the wrapper into the state ----
        if st == "never-started":
            pass
        elif st == "blocked-consumer":
            out = []

            def blocked():
                out.append(read())
            consumer = threading.Thread(target=blocked, daemon=True)
            consumer.start()
            if not src.in_gate.wait(20):
                ctx.fail("worker-not-started", desc())
                return
            time.sleep(.02)
        elif st == "waiting-at-end":           # the stream has ended, its thread too, and another thread still asks for more
            while isinstance(read(), tuple):
                pass
            if not ctx.check(wait_until(lambda: not new(), 10), "thread-left-behind", lambda: f"{desc()}: after the end of the stream {new()}"):
                return
            out = []
            consumer = threading.Thread(target=lambda: out.append(read()), daemon=True)
            consumer.start()
            time.sleep(.05)
        else:
            for k in range(c["reads"]):
                if epi and p.steps_remaining() == 0:
                    p.next_episode()
                if st == "loading" and k == c["reads"]:
                    break
                x = read()
                if not isinstance(x, tuple):
                    break
            if st == "loading":
                if c["reads"] == 0:
                    p._start_worker() if hasattr(p, "_start_worker") else None
                if not src.in_gate.wait(20 if c["reads"] else .5):
                    if c["reads"]:
                        ctx.fail("worker-not-loading", desc())
                        return
            elif st == "full":
                if c["reads"] == 0:
                    read()
                wait_until(lambda: p._queue.full() if hasattr(p, "_queue") else False, 5)
                time.sleep(.15 * c["phase"])
            elif st in ("eos", "eos-pending"):
                if c["reads"] == 0:
                    read()
                wait_until(lambda: src.ended, 5)
                time.sleep(.005)
            elif st == "exhausted":
                while isinstance(read(), tuple):
                    pass
            elif st == "failed":
                while isinstance(read(), tuple):
                    pass
            elif st == "skipping":
                p.next_episode(join_timeout=.003)
            else:
                time.sleep(.02 * c["phase"] * r.random())
        ctx.event("state-" + st)
        # ---- operations ----
        loading = st in ("loading", "blocked-consumer")
        for op in c["ops"]:
            t0 = time.monotonic()
            if op == "shutdown":
                p.shutdown(join_timeout=c["join"]) if r.random() < .7 else p.shutdown()
                el = time.monotonic() - t0
                hist.append("shutdown")
                ctx.event("shutdowns")
                if not ctx.check(el < 2.0 + 6, "shutdown-slow", lambda: f"{desc()}: shutdown took {el:.1f} s (join timeout {c['join']})"):
                    return
                if consumer is not None:
                    consumer.join(12)
                    if not ctx.check(not consumer.is_alive(), "consumer-not-released", desc):
                        return
                    ctx.check(out == ["stop"] or not out or isinstance(out[0], str), "released-with-data", lambda: f"{desc()}: {out}")
                    ctx.event("released-consumers")
                if loading and c["long"] and "reset" in c["ops"][len([h for h in hist if h in ("shutdown", "reset")]):]:
                    continue                   # the load goes on beyond the shutdown
                if loading:
                    gate.set()
                    src.gate = None
                    loading = False
                # the thread ends once the current load has finished
                if not ctx.check(wait_until(lambda: not new(), 10), "thread-left-behind", lambda: f"{desc()}: still alive after shutdown: {new()}"):
                    return
                ctx.check(not p.is_running(), "still-running", desc)
            elif op == "reset":
                if loading:            # the load finishes while reset waits for it
                    threading.Timer(2.3 + .7 * c["phase"] if c["long"] else .05 * c["phase"], lambda: (gate.set())).start()
                    ctx.event("long-loads", c["long"])
                    src.gate_at = -1
                    loading = False
                res = []

                def do_reset():
                    try:
                        p.reset()
                        res.append("ok")
                    except BaseException as e:
                        res.append(e)
                th = threading.Thread(target=do_reset, daemon=True)
                before.add(th)
                th.start()
                th.join(20)
                if not ctx.check(bool(res), "reset-stuck", desc):
                    return
                if not ctx.check(res == ["ok"], "reset-failed", lambda: f"{desc()}: {res}"):
                    return
                hist.append("reset")
                ctx.event("resets")
                before.update(t for t in threading.enumerate() if type(t).__name__ == "Timer")
                if not ctx.check(wait_until(lambda: not new(), 5), "thread-left-behind", lambda: f"{desc()}: after reset {new()}"):
                    return
                gen, due = (src.ep if epi else src.gen), 0
                if st == "failed":
                    src.fail_at = None
            elif op == "read":
                total = c["L"] if epi else (n if n is not None else 6)
                for k in range(min(total, 6)):
                    x = read()
                    if not ctx.check(x == (gen, k), "leftover-or-lost-after-reset", lambda: f"{desc()}: got {x}, due {(gen, k)}"):
                        return
                    ctx.event("batches-after-reset")
                if not epi and n is not None and n <= 6:
                    x = read()
                    if not ctx.check(x == "stop", "no-end-after-reset", lambda: f"{desc()}: {x}"):
                        return
                time.sleep(.01 * r.random())
            if not ctx.check(len(new()) <= 1, "several-threads", lambda: f"{desc()}: {new()}"):
                return
            if not ctx.check(not src.overlaps, "concurrent-access", lambda: f"{desc()}: {src.overlaps[:3]}"):
                return
        ctx.event("source-calls", len(src.log))
        ctx.event("worker-threads", len(src.threads))
        if st == "random" and c["seed"] % 3 == 0:      # dropping the last reference shuts down as well
            del p
            gc.collect()
            ctx.check(wait_until(lambda: not new(), 10), "thread-left-behind", lambda: f"{st}: after deletion {new()}")
        ctx.nontrivial(st, c["ops"], c["buf"], n, epi, c["reads"])
    finally:
        Chaos.set(0, 0, 0)
        gate.set()
        ctx.event("injected-delays", Chaos.count)
        ctx.event("line-delays", Chaos.line_count)
        Chaos.count = Chaos.line_count = 0
        try:
            p.shutdown()
        except NameError:
            pass


main(Spec("P03", cases, run,
          "shutdown/reset/double shutdown/restart histories entered from eleven wrapper states (never started, mid-load, buffer full, end marker queued or pending, exhausted, failed, consumer waiting beyond the end, blocked "
          "consumer, slow skip, random phase), with delays injected after queue operations; monitors: elapsed time, live threads, call log of the source, tags after a reset; non-trivial: "
          "distinct (state, operations, buffer, length)",
          quick=700, thorough=20000, workers=(8, 8), case_timeout=120,
          floors={"shutdowns": 350, "resets": 180, "batches-after-reset": 400, "released-consumers": 15, "injected-delays": 800, "source-calls": 2000,
                  "long-loads": 5, "state-waiting-at-end": 6, **{"state-" + s: 6 for s in ["never-started", "loading", "full", "eos", "eos-pending", "failed", "blocked-consumer", "exhausted", "skipping", "random"]}},
          assumptions=["bounded time means the join timeout plus 6-8 s; threads are given 10 s to end after the current load finished"]))
