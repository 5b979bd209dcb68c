"""P02: skipping an episode under prefetching never mixes episodes."""
import random
from vp import Spec, main


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        L = rng.choice([1, 2, 3, 4, 6] * 4 + [10])
        kind = "files" if k % 10 == 0 else "giveup" if k % 12 == 1 else "stub"
        slow = rng.random() < .35            # loading slower than the allowed flush time
        yield dict(kind=kind, L=L, B=rng.choice([1, 2, 3]), buf=rng.choice([1, 1, 2, 3, 5, 9]),
                   delays=[rng.choice([0, .002, .01, .03] if slow else [0, 0, .001, .003]) for _ in range(rng.choice([1, 3, 5]))],
                   join=rng.choice([.001, .01, .03, .08]) if slow else rng.choice([.01, .1, 1.0, 2.0]), slow=slow,
                   settle=rng.choice([0, 0, .002, .02, .06]), chaos=rng.choice([0, 0, .3, .6]), lines=rng.choice([0, 0, .03, .1, .3]), who=rng.choice(["both", "consumer", "worker"]), lscale=rng.choice([.004, .016, .05]), lens=[L + rng.choice([0, 1, 4]) for _ in range(3)],
                   ops=[rng.choice(["get"] * 5 + ["skip"] * 3 + ["skip2", "reset", "drain", "sleep", "over"]) for _ in range(rng.choice([8, 16, 30]))],
                   seed=rng.randrange(10**6))


def run(ctx, c):
    import sys, time
    import numpy as np
    import conc
    from conc import EpisodicSource, tag_of, Chaos
    conc.install()
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    r = random.Random(c["seed"])
    sys.setswitchinterval(r.choice([1e-6, 1e-4, 5e-3]))
    L, B = c["L"], c["B"]
    if c["kind"] == "giveup":
        return giveup(ctx, c, r)
    if c["kind"] == "stub":
        src = EpisodicSource(L, delays=c["delays"])
        tag = tag_of
    else:
        src, tag = real_source(ctx, c, r)
    Chaos.set(c["seed"], c["chaos"], .004, c["lines"], 1.0, c["who"], c["lscale"])
    p = PrefetchingFlowFieldScheduler(src, batch_size=B, buffer_size=c["buf"], startup_timeout=60.0, steady_state_timeout=60.0)
    hist, cur, t, last = [], None, 0, -1          # cur: episode being read; last: highest episode seen or abandoned

    def note(op):
        hist.append(op)

    def desc():
        return f"{c['kind']} L={L} buffer={c['buf']} join={c['join']} delays={c['delays']}: history {hist[-14:]}"

    def get():
        nonlocal cur, t, last
        if t >= L:
            try:
                x = tag(p.get_batch(B))
            except EpisodeEnd:
                ctx.event("over-reads")
                return True
            return ctx.check(False, "read-past-the-end", lambda: f"{desc()}: got {x} after all steps")
        try:
            x = tag(p.get_batch(B))
        except (EpisodeEnd, StopIteration) as e:
            return ctx.check(False, "episode-incomplete", lambda: f"{desc()}: {type(e).__name__} at step {t} of {L}")
        note(x)
        ctx.event("batches")
        if not ctx.check(isinstance(x[0], (int, np.integer)), "altered", lambda: f"{desc()}: {x}"):
            return False
        ep, st = x
        if cur is None:
            if not ctx.check(ep > last, "abandoned-episode-delivered", lambda: f"{desc()}: got {x}, but episodes up to {last} were finished or abandoned"):
                return False
            if not ctx.check(st == 0, "not-from-first-step", lambda: f"{desc()}: the new episode begins with {x}"):
                return False
            if c["kind"] == "stub" and not ctx.check(exp[0] <= ep <= exp[0] + loose[0], "episode-lost", lambda: f"{desc()}: episode {ep} came, {exp[0]} was due"):
                return False
            exp[0], loose[0] = ep, 0
            cur, last = ep, ep
        else:
            if not ctx.check(ep == cur and st == t, "mixed-or-lost", lambda: f"{desc()}: got {x}, due {(cur, t)}"):
                return False
        t += 1
        if t == L:
            ctx.event("complete-episodes")
        return ctx.check(p.steps_remaining() == L - t, "steps-remaining", lambda: f"{desc()}: {p.steps_remaining()} remaining after {t} of {L}")

    # With the stub, episodes are numbered as the source opens them.  A skip abandons exactly one
    # (the current one, or the one next due if none was begun); a reset abandons everything opened.
    # A skip before the first read may or may not count the untouched episode as abandoned.
    exp, loose = [0], [0]
    started = [False]

    def skip():
        nonlocal cur, t, last
        note(f"skip@{t}")
        t0 = time.monotonic()
        if c["join"] == 2.0 and r.random() < .5:
            p.next_episode()
        else:
            p.next_episode(join_timeout=c["join"])
        el = time.monotonic() - t0
        ctx.check(el < c["join"] + 15, "skip-too-slow", lambda: f"{desc()}: next_episode took {el:.1f} s")
        if started[0]:
            exp[0] += 1
        else:
            loose[0] += 1
        started[0] = True
        if cur is not None:
            last = max(last, cur)
        cur, t = None, 0
        ctx.event("skips")

    try:
        for op in c["ops"]:
            if op == "get":
                started[0] = True
                if not get():
                    return
            elif op in ("drain", "over"):
                started[0] = True
                while t < L:
                    if not get():
                        return
                if op == "over" and not get():
                    return
            elif op == "sleep":
                time.sleep(r.choice([.001, .01, .05]))
            elif op == "skip":
                if 0 < t < L:
                    ctx.event("skips-mid-episode")
                if c["slow"]:
                    ctx.event("skips-while-loading-slowly")
                if c["settle"]:
                    time.sleep(c["settle"] * r.random())
                skip()
            elif op == "skip2":
                skip()
                skip()
                ctx.event("repeated-skips")
            elif op == "reset":
                note(f"reset@{t}")
                p.reset()
                ctx.event("resets")
                started[0], loose[0] = False, 0
                exp[0] = getattr(src, "ep", 0)
                if cur is not None:
                    last = max(last, cur)
                if c["kind"] == "stub":
                    last = max(last, src.ep - 1)
                cur, t = None, 0
        if t >= L:
            skip()
        while t < L:
            if not get():
                return
        ctx.check(not getattr(src, "overlaps", None), "concurrent-access", lambda: f"{desc()}: {src.overlaps[:3]}")
        ctx.event("injected-delays", Chaos.count)
        ctx.event(c["kind"])
        ctx.nontrivial(L, c["buf"], c["ops"], c["delays"], c["join"])
    finally:
        ctx.event("line-delays", Chaos.line_count)
        Chaos.count = Chaos.line_count = 0
        Chaos.set(0, 0, 0)
        p.shutdown()


def giveup(ctx, c, r):
    """One load outlasts the steady-state timeout: the read gives up with StopIteration. It delivered nothing, so it
    is no step of the episode: once the load is done, repeated reads go on with the very batch that was due."""
    import threading, time
    from conc import EpisodicSource, tag_of, Chaos
    from synthpix.scheduler import PrefetchingFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd
    L, B = c["L"], c["B"]
    ge, gt = r.randrange(3), r.randrange(L)
    if (ge, gt) == (0, 0):
        ge = 1                                   # the first read has the startup timeout
    src = EpisodicSource(L, delays=c["delays"][:1])
    gate, orig = threading.Event(), src.get_batch

    def load(n):
        if src.ep == ge and src.t == gt:
            gate.wait(60)
        return orig(n)
    src.get_batch = load
    Chaos.set(c["seed"], c["chaos"], .004)
    p = PrefetchingFlowFieldScheduler(src, batch_size=B, buffer_size=c["buf"], startup_timeout=60.0, steady_state_timeout=r.choice([.05, .15, .3]))
    hist = []
    desc = lambda: f"L={L} buffer={c['buf']}, the load of step {gt} of episode {ge} outlasts the timeout: {hist[-14:]}"
    try:
        for e in range(3):
            for t in range(L):
                end = time.monotonic() + 60
                while True:
                    try:
                        x = tag_of(p.get_batch(B))
                        break
                    except EpisodeEnd:
                        ctx.check(False, "episode-incomplete", lambda: f"{desc()}: EpisodeEnd at step {t} of {L} of episode {e}")
                        return
                    except StopIteration:
                        hist.append("gave up")
                        ctx.event("reads-given-up")
                        if not ctx.check(p.steps_remaining() == L - t, "steps-remaining", lambda: f"{desc()}: {p.steps_remaining()} remaining after {t} of {L}"):
                            return
                        if (e, t) == (ge, gt) and (gate.is_set() or r.random() < .5):
                            gate.set()
                        if time.monotonic() > end:
                            ctx.check(False, "stuck", lambda: f"{desc()}: step {t} of episode {e} never came")
                            return
                hist.append(x)
                ctx.event("batches")
                if not ctx.check(x == (e, t), "mixed-or-lost", lambda: f"{desc()}: got {x}, due {(e, t)}"):
                    return
                if not ctx.check(p.steps_remaining() == L - t - 1, "steps-remaining", lambda: f"{desc()}: {p.steps_remaining()} remaining after {t + 1} of {L}"):
                    return
            try:
                x = tag_of(p.get_batch(B))
            except EpisodeEnd:
                ctx.event("over-reads")
            except StopIteration:
                ctx.check(False, "end-of-episode", lambda: f"{desc()}: StopIteration instead of EpisodeEnd after all steps")
                return
            else:
                ctx.check(False, "read-past-the-end", lambda: f"{desc()}: got {x} after all steps")
                return
            ctx.event("complete-episodes")
            p.next_episode(join_timeout=5.0)
        ctx.event("giveup")
        ctx.nontrivial("giveup", L, c["buf"], ge, gt, B)
    finally:
        gate.set()
        Chaos.set(0, 0, 0)
        p.shutdown()


def real_source(ctx, c, r):
    """Episodic scheduler over MATLAB frames on disk, with slow file loading; episodes are numbered by a
    recording subclass that opens them, and each batch carries the number of the episode it was read in."""
    import time, jax
    import numpy as np
    from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler
    from tree import Tree
    t = Tree(ctx.tmp(), c["lens"], hw=(3, 4))
    ds, n = c["delays"], [0]

    class SlowMAT(MATFlowFieldScheduler):
        def load_file(self, path):
            n[0] += 1
            d = ds[n[0] % len(ds)]
            if d:
                time.sleep(d)
            return super().load_file(path)

    log = {}

    class Rec(EpisodicFlowFieldScheduler):
        _ep = -1

        def get_batch(self, k):
            step = self.episode_length - self.steps_remaining()
            if step == 0:
                Rec._ep += 1
            b = super().get_batch(k)
            ident.append(b)
            log[id(b)] = (Rec._ep, step)
            return b
    ident = []                       # keeps every produced batch alive, so that id() is unique
    s = Rec(SlowMAT(t.files, loop=bool(c["seed"] % 2), output_shape=(3, 4), key=jax.random.PRNGKey(1)), batch_size=c["B"], episode_length=c["L"], key=jax.random.PRNGKey(c["seed"]))

    def tag(b):
        x = log.get(id(b))
        return x if x is not None else ("unknown batch", -1)
    return s, tag


main(Spec("P02", cases, run,
          "histories of reads, skips, double skips, resets, over-reads and pauses over a tagged episodic source (and a real one over MATLAB frames) with scripted load delays below and above "
          "the flush time and delays injected after queue operations; each batch carries (episode, step); loads that outlast the timeout of a read, which is then repeated; non-trivial: distinct (length, buffer, operations, delays, flush time)",
          quick=500, thorough=12000, workers=(8, 8),
          floors={"batches": 2500, "skips": 1500, "skips-mid-episode": 150, "skips-while-loading-slowly": 300, "repeated-skips": 300, "resets": 200, "complete-episodes": 800, "over-reads": 40,
                  "injected-delays": 1000, "files": 15, "giveup": 15, "reads-given-up": 30},
          assumptions=["a load that outlasts the steady-state timeout is one episode's only trouble: such reads are repeated, not skipped over"]))
