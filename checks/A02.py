"""A02: image warps move content along the flow and conserve what they should."""
import random
from vp import Spec, main

SHAPES = [(1, 1), (1, 9), (8, 1), (5, 5), (7, 12), (16, 9), (20, 20), (24, 31)]


def cases(rng, tier):
    while True:
        yield dict(shape=list(rng.choice(SHAPES)), what=rng.choice(["backward", "forward", "backward", "forward", "callable", "array"]), flow=rng.choice(["zero", "integer", "uniform", "linear", "random", "inside"]),
                   dt=rng.choice([0.0, 1.0, .5, 2.0, -1.0, .1, 1, 3]), t=rng.choice([0.0, 1.0, 2.5]), fn=rng.randrange(5), forward=rng.random() < .5,
                   image=rng.choice(["random", "points", "gradient"]), dtype=rng.choice(["float32"] * 4 + ["uint8", "int32", "uint16"]), seed=rng.randrange(10 ** 9))


FNS = [("constant", lambda t, x, y: (1.0 + 0 * x, -2.0 + 0 * y)),
       ("shear", lambda t, x, y: (.3 * y + .1 * t, .05 * x)),
       ("rotation", lambda t, x, y: (-.2 * (y - 4.0), .2 * (x - 3.0))),
       ("columns only", lambda t, x, y: (.25 * x + t, 0.0 * y)),
       ("rows squared", lambda t, x, y: (0.01 * y * y, .02 * x * y * (1.0 + t)))]


def backward(img, fl, dt):
    import numpy as np
    H, W = img.shape
    Y, X = np.mgrid[:H, :W].astype(np.float64)
    x, y = np.clip(X - fl[..., 0] * dt, 0, W - 1), np.clip(Y - fl[..., 1] * dt, 0, H - 1)
    x0, y0 = np.minimum(np.floor(x), max(W - 2, 0)).astype(int), np.minimum(np.floor(y), max(H - 2, 0)).astype(int)
    x1, y1 = np.minimum(x0 + 1, W - 1), np.minimum(y0 + 1, H - 1)
    a, b = x - x0, y - y0
    return (1 - a) * (1 - b) * img[y0, x0] + a * (1 - b) * img[y0, x1] + (1 - a) * b * img[y1, x0] + a * b * img[y1, x1]


def forward(img, fl, dt):
    import numpy as np, math
    H, W = img.shape
    out = np.zeros((H, W))
    for y in range(H):
        for x in range(W):
            X, Y = x + fl[y, x, 0] * dt, y + fl[y, x, 1] * dt
            a, b = math.floor(X), math.floor(Y)
            for i, j, w in ((a, b, (1 - (X - a)) * (1 - (Y - b))), (a + 1, b, (X - a) * (1 - (Y - b))), (a, b + 1, (1 - (X - a)) * (Y - b)), (a + 1, b + 1, (X - a) * (Y - b))):
                if 0 <= i < W and 0 <= j < H:
                    out[j, i] += w * img[y, x]
    return out


def run(ctx, c):
    import numpy as np, jax.numpy as jnp
    from synthpix.apply import apply_flow_to_image_forward, apply_flow_to_image_backward, apply_flow_to_image_callable
    from synthpix.utils import generate_array_flow_field
    r = np.random.default_rng(c["seed"])
    H, W = c["shape"]
    Y, X = np.mgrid[:H, :W].astype(np.float64)
    img = {"random": lambda: r.uniform(0, 255, (H, W)), "points": lambda: 255.0 * (r.random((H, W)) < .15), "gradient": lambda: 2.0 * X + 5 * Y}[c["image"]]().astype(c.get("dtype", "float32"))
    i64 = img.astype(np.float64)
    dt = c["dt"]
    if c.get("dtype", "float32") != "float32":
        ctx.event("integer-images")
    name = FNS[c["fn"]][0]
    if c["what"] in ("callable", "array"):
        f = FNS[c["fn"]][1]
        t = c["t"] if c["what"] == "callable" else 1.0
        u, v = f(t, X, Y)
        fl = np.stack([u + 0 * X, v + 0 * X], -1)
        what = f"{c['what']} flow '{name}' at t={t}, dt={dt}, {H}x{W}"
        if c["what"] == "array":
            got = np.asarray(generate_array_flow_field(f, (H, W)), np.float64)
            ctx.check(got.shape == (H, W, 2) and np.abs(got - fl).max() <= 1e-5 * (1 + np.abs(fl).max()), "array-of-flow-function", lambda: f"{what}: array at (row 0.., col ..) {got[-1, -1]}, function gives {fl[-1, -1]}")
            ctx.event("array"); ctx.nontrivial("array", c["fn"], H, W)
            return
        got = np.asarray(apply_flow_to_image_callable(jnp.asarray(img), f, t, dt, c["forward"]), np.float64)
        fwd = c["forward"]
        arr = np.asarray((apply_flow_to_image_forward if fwd else apply_flow_to_image_backward)(jnp.asarray(img), jnp.asarray(fl, jnp.float32), dt), np.float64)
        ctx.check(np.abs(got - arr).max() <= 0.02, "callable-vs-array", lambda: f"{what}, {img.dtype} image, forward {fwd}: differs from warping with the sampled array by {np.abs(got - arr).max()}")
    else:
        fwd = c["what"] == "forward"
        k = c["flow"]
        iu = r.integers(-4, 5, 2) / (dt if dt else 1)
        fl = {"zero": lambda: np.zeros((H, W, 2)), "integer": lambda: np.broadcast_to(iu, (H, W, 2)), "uniform": lambda: np.broadcast_to(r.uniform(-4, 4, 2), (H, W, 2)),
              "linear": lambda: np.stack([.2 * X - .3 * Y + 1, -.1 * X + .15 * Y], -1), "random": lambda: r.uniform(-6, 6, (H, W, 2)),
              "inside": lambda: np.stack([r.uniform(0, 1, (H, W)) * (W - 1) - X, r.uniform(0, 1, (H, W)) * (H - 1) - Y], -1) / (dt if dt else 1)}[k]()
        fl = np.array(fl, np.float32)
        what = f"{c['what']} warp, {k} flow, dt={dt}, {H}x{W} {img.dtype} image"
        got = np.asarray((apply_flow_to_image_forward if fwd else apply_flow_to_image_backward)(jnp.asarray(img), jnp.asarray(fl), dt), np.float64)
        f64 = fl.astype(np.float64)
        if k == "zero" or dt == 0:
            ctx.check(np.array_equal(got, i64), "identity", lambda: f"{what}: image changed by {np.abs(got - i64).max()}")
            ctx.event("identity")
        if k == "integer":
            dx, dy = [int(round(z * dt)) for z in iu]
            o = np.full((H, W), np.nan)
            for y in range(max(0, dy), min(H, H + dy)):
                for x in range(max(0, dx), min(W, W + dx)):
                    o[y, x] = i64[y - dy, x - dx]
            m = ~np.isnan(o)
            ctx.check(np.abs(got[m] - o[m]).max(initial=0) <= 1e-2, "integer-shift", lambda: f"{what}: not the image shifted by (dx={dx}, dy={dy})")
            if fwd:
                ctx.check(np.abs(got[~m]).max(initial=0) <= 1e-2, "integer-shift", lambda: f"{what}: brightness where nothing moved to")
            ctx.event("integer-shift")
        if fwd and k == "inside" and dt:
            ctx.check(abs(got.sum() - i64.sum()) <= 1e-4 * (1 + i64.sum()), "brightness", lambda: f"{what}: total brightness {i64.sum()} became {got.sum()}")
            ctx.event("conserved")
    ref = (forward if fwd else backward)(i64, fl.astype(np.float64), float(dt))
    ctx.check(got.shape == (H, W) and np.abs(got - ref).max() <= 0.02, "warp-forward" if fwd else "warp-backward", lambda: f"{what}: deviates from the reference by {np.abs(got - ref).max()} at {np.unravel_index(np.argmax(np.abs(got - ref)), (H, W))}")
    if fwd and c["what"] == "forward":
        ctx.check(got.sum() <= i64.sum() * (1 + 1e-5) + 1e-3, "brightness", lambda: f"{what}: brightness created")
    ctx.event("forward" if fwd else "backward"); ctx.event(c["what"])
    ctx.nontrivial(c["what"], fwd, c["flow"], name, dt, H, W, img.dtype.name)


main(Spec("A02", cases, run,
          "forward, backward and callable warps and the array generator on random images of floating and integer pixel type and flows (zero, integer, uniform, linear, random, staying inside), float64 references, brightness sums, exact shifts; "
          "non-trivial: distinct (warp, direction, flow, time step, shape, pixel type)",
          quick=500, thorough=15000, workers=(6, 8), quick_s=50, thorough_s=500, floors={"forward": 80, "backward": 80, "callable": 30, "array": 20, "identity": 20, "integer-shift": 20, "conserved": 8, "integer-images": 60}))
