"""A03: particles are advected by the interpolated velocity in the right axes."""
import random
from vp import Spec, main
from interp import ref

SH2 = [(1, 1), (2, 3), (5, 5), (16, 9), (31, 40)]
SH3 = [(1, 2, 2), (3, 4, 5), (6, 3, 8), (10, 10, 10)]


def cases(rng, tier):
    while True:
        d = rng.choice([2, 2, 3])
        yield dict(d=d, ints=rng.choice([None, None, "int32", "int16"]), intflow=rng.random() < .15, shape=list(rng.choice(SH2 if d == 2 else SH3)), n=rng.choice([1, 5, 50, 50]), dt=rng.choice([0.0, 1.0, .1, .026, -1.0, 2, 10.0]), res=[rng.choice([1.0, .5, 2.0, 10.0, 3]) for _ in range(3)],
                   flow=rng.choice(["zero", "uniform", "component", "random", "linear"]), comp=rng.randrange(d), where=rng.choice(["inside", "grid", "outside"]), jit=rng.random() < .4, seed=rng.randrange(10 ** 9))


def run(ctx, c):
    import numpy as np, jax, jax.numpy as jnp
    from synthpix.apply import apply_flow_to_particles
    r = np.random.default_rng(c["seed"])
    d, sh, n, dt = c["d"], tuple(c["shape"]), c["n"], c["dt"]
    u = r.normal(size=d) * 2
    idx = np.stack(np.meshgrid(*[np.arange(k) for k in sh], indexing="ij"), -1).astype(float)
    fl = {"zero": lambda: np.zeros(sh + (d,)), "uniform": lambda: np.broadcast_to(u, sh + (d,)), "random": lambda: r.normal(size=sh + (d,)) * 2,
          "component": lambda: np.where(np.arange(d) == c["comp"], r.normal(size=sh + (d,)) + 1.5, 0), "linear": lambda: idx @ r.normal(size=(d, d)) * .2 + u}[c["flow"]]()
    fl = np.asarray(np.rint(fl * 3) if c["intflow"] else fl, np.int32 if c["intflow"] else np.float32)
    pos = np.stack([{"inside": lambda: r.uniform(0, k - 1, n), "grid": lambda: r.integers(0, k, n).astype(float), "outside": lambda: r.uniform(-2, k + 1, n)}[c["where"]]() for k in sh], -1).astype(np.float32)
    if c["ints"] and c["where"] == "grid":             # particles on pixels, given as integers
        pos = pos.astype(c["ints"])
        ctx.event("integer-positions")
    res = c["res"][:d]

    def go(p):
        kw = dict(flow_field_res_x=res[0], flow_field_res_y=res[1])
        if d == 3:
            kw["flow_field_res_z"] = res[2]
        f = lambda p, fl: apply_flow_to_particles(particle_positions=p, flow_field=fl, dt=dt, **kw)
        return np.asarray((jax.jit(f) if c["jit"] else f)(jnp.asarray(p), jnp.asarray(fl)), np.float64)
    got = go(pos)
    what = f"{d}-D, grid {sh}, {c['flow']} flow, dt={dt}, grid resolution {res}"
    want = pos.astype(np.float64).copy()
    coords = [pos[:, k].astype(np.float64) for k in range(d)]
    for comp in range(d):                       # component 0 acts on x, the last axis of the position
        v, _, _ = ref(fl[..., comp], coords)
        want[:, d - 1 - comp] += v * res[comp] * dt
    if not ctx.check(got.shape == (n, d), "shape", lambda: f"{what}: {got.shape}"):
        return
    s = 1 + np.abs(want).max() + np.abs(pos).max() + np.abs(fl).max() * max(res) * abs(dt)
    err = np.abs(got - want).max(0)
    ctx.check(err.max() <= 1e-5 * s, "advection", lambda: f"{what}: positions deviate by {err} (y, x order) from velocity * time * grid resolution; particle 0: {pos[0]} -> {got[0]}, expected {want[0]}")
    if c["flow"] == "component":
        for ax in range(d):
            if ax != d - 1 - c["comp"]:
                ctx.check(np.array_equal(got[:, ax], pos[:, ax].astype(np.float64)), "component-acts-on-other-axis", lambda: f"{what}: velocity component {c['comp']} moved particles along position axis {ax}")
        ctx.event("single-component")
    if c["flow"] == "zero" or dt == 0:
        ctx.check(np.array_equal(got, pos.astype(np.float64)), "moved-without-flow", what)
        ctx.event("still")
    if n > 1:
        p = r.permutation(n)
        ctx.check(np.abs(go(pos[p]) - got[p]).max() <= 1e-6 * s, "order", lambda: f"{what}: result depends on the order of particles")
        q = pos.copy()
        q[1:] = r.uniform(-5, 50, q[1:].shape)
        ctx.check(np.abs(go(q)[0] - got[0]).max() <= 1e-6 * s, "particles-interact", lambda: f"{what}: a particle's motion depends on the others")
        ctx.event("independence")
    ctx.event(f"{d}d"); ctx.event("particles", n); ctx.event(c["where"])
    ctx.nontrivial(d, sh, c["flow"], dt, c["where"], tuple(res))


main(Spec("A03", cases, run,
          "particle advection in 2-D and 3-D on random grids, flows (uniform, linear, random, one component only, zero), time steps and per-axis resolutions, float64 reference, order and independence comparisons; "
          "non-trivial: distinct configurations",
          quick=350, thorough=15000, workers=(6, 8), quick_s=45, thorough_s=500, floors={"2d": 80, "3d": 40, "single-component": 30, "still": 30, "independence": 100, "outside": 40, "integer-positions": 30}))
