"""V02: batches and parameters survive JAX transformations and updates unchanged."""
import random
from vp import Spec, main

FIELDS = ["images1", "images2", "flow_fields", "params", "done", "mask", "files"]
PARAMS = ["seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"]
SCHED = ["flow_fields", "images1", "images2", "mask", "files"]


def cases(rng, tier):
    while True:
        absent = [f for f in ("params", "done", "mask", "files") if rng.random() < .35]
        yield dict(kind=rng.choice(["roundtrip", "map", "jit", "vmap", "update", "update", "sched", "params"]), absent=absent, named=rng.sample(FIELDS, rng.randint(0, 7)), none=rng.sample(["params", "done", "mask", "files"], rng.choice([0, 0, 1, 2])),
                   snamed=rng.sample(SCHED, rng.randint(0, 5)), snone=rng.sample(SCHED[1:], rng.choice([0, 0, 1, 2])), sabsent=[f for f in SCHED[1:] if rng.random() < .35], B=rng.choice([1, 2, 3]), H=rng.choice([2, 3]), flags=rng.choice(["any", "any", "unset", "set"]), host=rng.random() < .4, zeros=rng.random() < .15, nofiles=rng.random() < .5, seed=rng.randrange(10 ** 6))


def run(ctx, c):
    import numpy as np, jax, jax.numpy as jnp
    from synthpix.types import SynthpixBatch, ImageGenerationParameters, SchedulerData
    r = np.random.default_rng(c["seed"])
    B, H = c["B"], c["H"]
    tag = [0]

    def arr(*shape, dtype=np.float32):               # every array distinct, so that a swap shows
        tag[0] += 1
        return place((np.arange(int(np.prod(shape))).reshape(shape) * (not c["zeros"]) + 100 * tag[0] * (not c["zeros"])).astype(dtype))

    def place(a):                                    # in host or device memory
        return np.asarray(a) if c["host"] and c["kind"] not in ("jit", "vmap") else jnp.asarray(a)

    def flags():
        return place(np.zeros(B, bool) if c["flags"] == "unset" else np.ones(B, bool) if c["flags"] == "set" else r.random(B) < .5)

    def params():
        return ImageGenerationParameters(seeding_densities=arr(B), diameter_ranges=arr(B, 2), intensity_ranges=arr(B, 2), rho_ranges=arr(B, 2))

    def value(f):
        tag[0] += 1
        return {"images1": lambda: arr(B, H, H), "images2": lambda: arr(B, H, H), "flow_fields": lambda: arr(B, H, H, 2), "params": params, "done": flags, "mask": flags,
                "files": lambda: tuple("" if c["zeros"] else f"f{tag[0]}_{i}" for i in range(B))}[f]()

    def eq(a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, ImageGenerationParameters) or isinstance(b, ImageGenerationParameters):
            return type(a) is type(b) and all(eq(getattr(a, p), getattr(b, p)) for p in PARAMS)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)

    def compare(got, want, names, kind, what):
        bad = [n for n in names if not eq(getattr(got, n), want[n])]
        ctx.check(not bad, kind, lambda: f"{what}: fields {bad} hold {[str(getattr(got, n))[:80] for n in bad]}, expected {[str(want[n])[:80] for n in bad]}")
        ctx.event("fields", len(names))

    k = c["kind"]
    if k == "sched":
        init = {f: None if f in c["sabsent"] else value(f) for f in SCHED}
        s = SchedulerData(**init)
        compare(s, init, SCHED, "field-lost", "SchedulerData")
        ch = {f: value(f) for f in c["snamed"]}
        ch.update({f: None for f in c["snone"]})
        t = s.update(**ch)
        compare(t, dict(init, **ch), SCHED, "update", f"SchedulerData.update({sorted(ch)}, to nothing {c['snone']}) with {c['sabsent']} absent")
        compare(s, init, SCHED, "original-changed", f"SchedulerData.update({sorted(ch)})")
        ctx.check(type(t) is SchedulerData, "type", str(type(t)))
        ctx.event("sched"); ctx.nontrivial("sched", tuple(c["sabsent"]), tuple(sorted(ch)), tuple(sorted(c["snone"])))
        return
    if k == "params":
        p = params()
        want = {f: getattr(p, f) for f in PARAMS}
        l, td = jax.tree.flatten(p)
        compare(jax.tree.unflatten(td, l), want, PARAMS, "roundtrip", "parameters")
        ctx.check(len(l) == 4, "leaves", f"{len(l)} leaves")
        compare(jax.jit(lambda q: q)(p), want, PARAMS, "jit", "parameters")
        compare(jax.tree.map(lambda x: x + 1, p), {f: want[f] + 1 for f in PARAMS}, PARAMS, "map", "parameters")
        st = jax.tree.map(lambda *x: jnp.stack(x), p, params())
        compare(jax.tree.map(lambda x: x[0], st), want, PARAMS, "map", "stacked parameters")
        ctx.event("params"); ctx.nontrivial("params", B)
        return
    absent = list(c["absent"])
    if k in ("jit", "vmap", "map") and "files" not in absent:
        absent.append("files")
    init = {f: None if f in absent else value(f) for f in FIELDS}
    b = SynthpixBatch(**init)
    compare(b, init, FIELDS, "field-lost", "batch")
    what = f"{k} with {absent} absent"
    num = lambda v, f: None if v is None else ImageGenerationParameters(**{p: f(getattr(v, p)) for p in PARAMS}) if isinstance(v, ImageGenerationParameters) else v if isinstance(v, tuple) else f(v)
    if k == "roundtrip":
        l, td = jax.tree.flatten(b)
        compare(jax.tree.unflatten(td, l), init, FIELDS, "roundtrip", what)
        n = sum(0 if v is None else 4 if isinstance(v, ImageGenerationParameters) else B if isinstance(v, tuple) else 1 for v in init.values())
        ctx.check(len(l) == n, "leaves", lambda: f"{what}: {len(l)} leaves for {n} values")
        ch, aux = b.tree_flatten()
        compare(SynthpixBatch.tree_unflatten(aux, ch), init, FIELDS, "roundtrip", what)
        compare(jax.tree.map(lambda x: x, b), init, FIELDS, "map", what)
    elif k == "map":
        f = lambda x: x * 2 if x.dtype != bool else ~x
        compare(jax.tree.map(f, b), {n: num(v, f) for n, v in init.items()}, FIELDS, "map", what)
        compare(jax.tree.map(lambda x, y: y, b, b), init, FIELDS, "map", what)
        st = jax.tree.map(lambda *x: jnp.stack(x), b, b)
        compare(jax.tree.map(lambda x: x[1], st), init, FIELDS, "map", what)
    elif k == "jit":
        compare(jax.jit(lambda q: q)(b), init, FIELDS, "jit", what)
        o = jax.jit(lambda q: q.update(images1=q.images2, images2=q.images1 + 1))(b)
        compare(o, dict(init, images1=init["images2"], images2=init["images1"] + 1), FIELDS, "jit", what)
        o = jax.lax.scan(lambda q, _: (q.update(flow_fields=q.flow_fields + 1), None), b, None, length=3)[0]
        compare(o, dict(init, flow_fields=init["flow_fields"] + 3), FIELDS, "jit", what)
    elif k == "vmap":
        o = jax.vmap(lambda q: q.update(images1=q.images1 - q.images2))(b)
        compare(o, dict(init, images1=init["images1"] - init["images2"]), FIELDS, "vmap", what)
    else:
        ch = {f: value(f) for f in c["named"]}
        ch.update({f: None for f in c["none"]})
        o = b.update(**ch)
        compare(o, dict(init, **ch), FIELDS, "update", f"update({sorted(ch)}, to nothing {c['none']}) with {absent} absent")
        compare(b, init, FIELDS, "original-changed", f"update({sorted(ch)})")
        ctx.check(type(o) is SynthpixBatch and o is not b, "type", str(type(o)))
        l, td = jax.tree.flatten(o)
        compare(jax.tree.unflatten(td, l), dict(init, **ch), FIELDS, "roundtrip", "updated batch")
    ctx.event(k)
    ctx.nontrivial(k, tuple(sorted(absent)), tuple(sorted(c["named"])) if k == "update" else 0, tuple(sorted(c["none"])) if k == "update" else 0)


main(Spec("V02", cases, run,
          "batches, scheduler data and parameters with every combination of absent fields and unmistakable contents through flatten/unflatten, tree mapping, stacking, jit, scan, vmap and updates (also to nothing), field by field; "
          "non-trivial: distinct (transformation, absent fields, named fields)",
          quick=2500, thorough=30000, workers=(6, 8), quick_s=120, thorough_s=400, floors={"roundtrip": 60, "map": 60, "jit": 60, "vmap": 60, "update": 120, "sched": 60, "params": 60}))
