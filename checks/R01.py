"""R01: same seed and data give the same stream, in every process."""
import json, os, random, subprocess, sys
from vp import Spec, main


def job(rng, tier):
    fmt = rng.choice(["h5", "npy", "mat", "mat"])
    images = fmt == "mat" and rng.random() < .5
    L = rng.choice([1, 2, 3]) if fmt == "mat" and rng.random() < .75 else 0
    B = rng.choice([2, 3, 4])
    F = B if images else rng.choice([1, 2, B])
    nd = rng.randint(3, 6) if L else rng.choice([1, 2])
    layout = [(f"{rng.choice('abcdxyz')}{rng.randrange(1000)}_{k}", rng.randint(L or 1, (L or 1) + 2), rng.choice([1, 2, 3])) for k in range(nd)]
    cfg = dict(batch_size=B, flow_fields_per_batch=F, randomize=rng.random() < .6, loop=rng.random() < .5, seed=rng.choice([0, 1, 7, 12345]))
    if not images:
        cfg.update(batches_per_flow_batch=1 if L else rng.choice([1, 2]), noise_uniform=rng.choice([0.0, 5.0]), noise_gaussian_std=rng.choice([0.0, 3.0]), p_hide_img1=rng.choice([0.0, .1]),
                   seeding_density_range=rng.choice([[0.03, 0.03], [0.02, 0.05]]), diameter_ranges=rng.choice([[[1.0, 1.0]], [[0.8, 1.2], [1.0, 2.0]]]), diameter_var=rng.choice([0.0, .1]),
                   img_offset=[9.0, 9.0], flow_field_size=[256.0, 256.0] if fmt == "mat" else [24.0, 24.0])
        if fmt != "mat":
            cfg.update(image_shape=[9, 10])
    if L:
        cfg["episode_length"] = L
    n = rng.randint(3, 7)
    ops = []
    if L and rng.random() < .5:
        ops.append((rng.randrange(1, n), rng.choice(["next", "reset"])))
    return dict(fmt=fmt, images=images, layout=layout, cfg=cfg, n=n, ops=ops, dirs=not L and rng.random() < .3)


def cases(rng, tier):
    while True:
        yield dict(jobs=[job(rng, tier) for _ in range(3)], hashes=[rng.randrange(1, 10**6) for _ in range(2)], buf=[rng.choice([1, 2, 5]) for _ in range(3)])


def child(ctx, jobs, hashseed):
    d = ctx.tmp()
    with open(d + "/jobs.json", "w") as f:
        json.dump(jobs, f)
    lib = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
    p = subprocess.run([sys.executable, lib + "/pipes.py", d + "/jobs.json", d + "/out.json"], cwd=d, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), stdin=subprocess.DEVNULL,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=150)
    if not os.path.exists(d + "/out.json"):
        raise RuntimeError("child process failed:\n" + p.stderr.decode("utf8", "replace")[-2500:])
    return json.load(open(d + "/out.json"))


def run(ctx, c):
    import pipes
    base = []
    for k, j in enumerate(c["jobs"]):
        j = dict(j, root=ctx.tmp())
        c["jobs"][k] = j
        base.append(pipes.build(j))
        ctx.event("batches", len(base[-1]))
        d = f"{j['fmt']}{' images' if j['images'] else ''} {j['cfg']} layout {j['layout']} ops {j['ops']}"
        again = pipes.build(dict(j, create=False))
        ctx.event("twins")
        ctx.check(again == base[-1], "twin-differs", lambda: f"{d}: two pipelines in one process: {base[-1]} vs {again}")
        # prefetching may only change the moment of loading (and never the order after moving on early)
        buf = pipes.build(dict(j, create=False, ops=[], cfg=dict(j["cfg"], buffer_size=c["buf"][k])))
        ref = pipes.build(dict(j, create=False, ops=[])) if j["ops"] else base[-1]
        ctx.event("prefetched-twins")
        ctx.check(buf == ref, "prefetching-differs", lambda: f"{d}: buffer {c['buf'][k]}: {ref} vs {buf}")
        if not j["cfg"].get("episode_length") and not j["cfg"]["randomize"]:
            replay(ctx, j, c["buf"][k] if k % 2 else 0, d)
        ctx.nontrivial(d)
    for i, hs in enumerate(c["hashes"]):
        jobs = [dict(j, create=False) if i == 0 else dict(j, root=ctx.tmp(), reverse=True) for j in c["jobs"]]
        got = child(ctx, jobs, hs)
        ctx.event("other-processes")
        for j, a, b in zip(c["jobs"], base, got):
            ctx.event("cross-process-streams")
            ctx.check(a == b, "process-dependent" if i == 0 else "creation-order-dependent",
                      lambda: f"{j['fmt']}{' images' if j['images'] else ''} {j['cfg']} layout {j['layout']}: {a} here, {b} in another process (hash seed {hs})")


def replay(ctx, j, buf, d):
    import pipes
    ds = pipes._describe(j)
    cfg = pipes.config(ds, **dict(j["cfg"], buffer_size=buf))
    s = pipes.make(cfg)
    try:
        for cut in (2, 3):
            a = pipes.stream(s, j["root"], cut)
            s.reset()
            b = pipes.stream(s, j["root"], cut)
            s.reset()
            ctx.event("replays")
            ctx.check(a == b, "reset-does-not-replay", lambda: f"{d} buffer {buf}: {a} before, {b} after reset()")
    finally:
        s.shutdown()


main(Spec("R01", cases, run,
          "random pipelines (formats, sizes, shuffling, looping, episodes, noise, seeds) built twice in one process, with and without prefetching, after reset(), and in two further processes "
          "with other hash seeds, one over a copy of the data created in reverse order; whole batches are compared by digest; non-trivial: distinct configurations",
          quick=12, thorough=220, workers=(6, 8), case_timeout=300, quick_s=90, thorough_s=700,
          floors={"batches": 70, "twins": 20, "prefetched-twins": 20, "cross-process-streams": 40, "replays": 6}))
