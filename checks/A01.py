"""A01: interpolation is exact multilinear interpolation with edge clamping."""
import random
from vp import Spec, main
from interp import ref

SH2 = [(1, 1), (1, 7), (6, 1), (2, 2), (3, 5), (9, 4), (16, 16), (24, 40), (64, 33)]
SH3 = [(1, 1, 1), (2, 2, 2), (1, 4, 3), (3, 1, 5), (4, 5, 6), (8, 7, 3), (12, 12, 12)]


def cases(rng, tier):
    while True:
        d3 = rng.random() < .45
        yield dict(dim=3 if d3 else 2, shape=list(rng.choice(SH3 if d3 else SH2)), n=rng.choice([1, 64, 400]), vals=rng.choice(["normal", "linear", "huge", "int", "tiny", "const"]), dtype=rng.choice(["float32"] * 4 + ["uint8", "int32"]),
                   where=rng.choice(["inside", "grid", "edge", "outside", "far", "mixed"]), jit=rng.random() < .5, grid2=rng.random() < .5, seed=rng.randrange(10 ** 9))


def run(ctx, c):
    import numpy as np, jax, jax.numpy as jnp
    from synthpix.utils import bilinear_interpolate, trilinear_interpolate
    r = np.random.default_rng(c["seed"])
    sh = tuple(c["shape"])
    idx = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
    co = r.normal(size=len(sh) + 1)
    v = {"normal": lambda: r.normal(size=sh) * 100, "linear": lambda: co[0] + sum(a * i for a, i in zip(co[1:], idx)), "huge": lambda: r.normal(size=sh) * 1e30,
         "int": lambda: r.integers(-5, 256, sh), "tiny": lambda: r.normal(size=sh) * 1e-20, "const": lambda: np.full(sh, r.normal())}[c["vals"]]()
    v = np.asarray(v, np.float32)
    if c["dtype"] != "float32":                      # whole-number images are blended like any other
        v = r.integers(0, 256, sh).astype(c["dtype"])
        ctx.event("whole-number-images")
    def coord(n):
        m = c["n"]
        kinds = {"inside": lambda: r.uniform(0, n - 1, m), "grid": lambda: r.integers(0, n, m).astype(float), "edge": lambda: r.choice([0., n - 1., -1e-7, n - 1 + 1e-4, n - 1 - 1e-4, 1e-6, -.5, n - .5], m),
                 "outside": lambda: r.uniform(-3, n + 3, m), "far": lambda: r.choice([-1, 1], m) * 10 ** r.uniform(0, 5, m)}
        if c["where"] != "mixed":
            return kinds[c["where"]]()
        all_ = np.stack([f() for f in kinds.values()])
        return all_[r.integers(0, len(all_), m), np.arange(m)]
    cs = [np.asarray(coord(n), np.float32) for n in sh]
    two = c["grid2"] and c["n"] > 1
    if two:
        cs = [x.reshape(8, -1) for x in cs]
    f = bilinear_interpolate if c["dim"] == 2 else trilinear_interpolate
    g = jax.jit(f) if c["jit"] else f
    got = np.asarray(g(jnp.asarray(v), *[jnp.asarray(x) for x in cs[::-1]]), np.float64)
    want, mn, mx = ref(v, cs)
    what = f"{c['dim']}-D {sh}, values {c['vals']}, positions {c['where']}, jit {c['jit']}"
    if not ctx.check(got.shape == want.shape, "shape", lambda: f"{what}: {got.shape} instead of {want.shape}"):
        return
    s = float(np.max(np.abs(v.astype(np.float64)))) + 1e-37
    err = np.abs(got - want)
    i = np.unravel_index(np.argmax(err), err.shape)
    inside = all(((x >= 0) & (x <= n - 1)).all() for x, n in zip(cs, sh))
    kind = "grid-points" if c["where"] == "grid" else "blend" if inside else "clamping"
    ctx.check(np.isfinite(got).all() and err[i] <= 5e-6 * s, kind, lambda: f"{what}: at {[float(x[i]) for x in cs]} got {got[i]!r}, expected {want[i]!r}")
    ctx.check(((got >= mn - 2e-6 * s) & (got <= mx + 2e-6 * s)).all(), "beyond-neighbours", lambda: f"{what}: value outside the range of the surrounding grid values")
    if c["where"] == "grid":
        stored = v.astype(np.float32)[tuple(x.astype(int) for x in cs)]
        ctx.check((got == stored).all(), "grid-points", lambda: f"{what}: stored values not returned exactly at grid points")
    if c["vals"] == "linear" and c["dtype"] == "float32" and inside and min(sh) > 1:
        lin = co[0] + sum(a * x.astype(np.float64) for a, x in zip(co[1:], cs))
        ctx.check((np.abs(got - lin) <= 5e-6 * s).all(), "linear-field", lambda: f"{what}: linear field not reproduced")
        ctx.event("linear")
    ctx.event(f"{c['dim']}d"); ctx.event(c["where"]); ctx.event("positions", c["n"])
    ctx.nontrivial(c["dim"], sh, c["where"], c["vals"], c["jit"])


main(Spec("A01", cases, run,
          "bilinear and trilinear sampling of random, linear, integer, huge and tiny arrays (degenerate axes included) at interior, grid, edge, outside and far positions, eager and compiled, "
          "against a float64 reference; non-trivial: distinct (dimension, shape, positions, values, compiled)",
          quick=1000, thorough=30000, workers=(6, 8), quick_s=45, thorough_s=500, floors={"2d": 150, "3d": 120, "grid": 40, "far": 40, "mixed": 40, "linear": 20, "whole-number-images": 80}))
