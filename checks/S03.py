"""S03: spreading a batch over devices does not change what a batch means."""
import random
from vp import Spec, main
import motion


def cases(rng, tier):
    while True:
        dev = rng.choice([None, None, [0, 1], [0, 1, 2], [3, 1], [2], [0, 1, 2, 3], [0, 9, 2]])
        c = motion.random_case(rng, H=34, W=36, B=rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12]), grid=[rng.choice([8, 40]), rng.choice([9, 45])])
        c["F"] = rng.choice([1, c["B"], rng.randint(1, c["B"]), rng.randint(1, c["B"])])
        yield dict(c, devices=dev, mask=rng.random() < .25, steps=rng.choice([3, 5]), reset=rng.random() < .3)


def run(ctx, c):
    import jax
    import numpy as np
    from synth import names
    import jax.numpy as jnp
    if len(jax.devices()) != 4:
        raise RuntimeError(f"{len(jax.devices())} devices")
    m = None
    if c["mask"]:
        m = np.ones((c["H"], c["W"]), np.int32)
        m[:, :3] = 0
    st, s, d = motion.setup(c, devices=c["devices"], mask=None if m is None else jnp.array(m))
    n = 4 if c["devices"] is None else len([x for x in c["devices"] if x < 4])
    B = -(-c["B"] // n) * n
    what0 = f"devices={c['devices']} B={c['B']} F={c['F']} reuse={c['reuse']} res={c['res']} dt={c['dt']} grid={c['grid']}"
    ctx.check(s.batch_size == B, "announced-size", lambda: f"{what0}: batch_size {s.batch_size}, {B} expected")
    used, k = 0, 0
    for step in range(c["steps"]):
        if step == 2 and c["reset"]:
            s.reset()
            used, k = 0, 0
        if used == c["reuse"]:
            used, k = 0, k + 1
        n0 = len(st.log)
        b = next(s)
        what = f"{what0} step {step}"
        ctx.check(len(st.log) - n0 == (1 if used == 0 else 0) and st.log[-1] == (k, c["F"]), "requests", lambda: f"{what}: {st.log[n0:]}")
        used += 1
        i1, i2, fl = np.asarray(b.images1), np.asarray(b.images2), np.asarray(b.flow_fields)
        if not ctx.check(i1.shape == i2.shape == (B, c["H"], c["W"]) and len(fl) == B, "batch-size", lambda: f"{what}: images {i1.shape}, flows {fl.shape}, {B} entries expected"):
            return
        for nm in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"):
            ctx.check(len(np.asarray(getattr(b.params, nm))) == B, "parameters-length", lambda: f"{what}: {nm} {np.asarray(getattr(b.params, nm)).shape}")
        ctx.check(b.files == names(k, c["F"]), "files-of-other-flows", lambda: f"{what}: {b.files}")
        ctx.check(np.asarray(b.mask).astype(bool).tolist() == [(k + i) % 3 > 0 for i in range(c["F"])], "mask-of-other-flows", what)
        shown = set()
        for i in range(B):
            if m is not None:
                ctx.check(not i1[i][m == 0].any() and not i2[i][m == 0].any(), "image-mask", lambda: f"{what} entry {i}")
            p = motion.check_entry(ctx, c, i1[i], i2[i], fl[i], f"{what} entry {i}")
            if p is None:
                return
            shown.add(p)
            ctx.check(p in {tuple(x) for x in d(k)}, "unknown-flow", lambda: f"{what} entry {i}: {p} is none of {d(k)}")
            ctx.check(0 <= i1[i].min() and i1[i].max() <= 255 and np.isfinite(i1[i]).all() and i1[i].max() > 1, "image-content", lambda: f"{what} entry {i}: {i1[i].min()}..{i1[i].max()}")
            for j in range(i):
                ctx.check(not np.array_equal(i1[i], i1[j]), "same-image", lambda: f"{what}: entries {i} and {j}")
        ctx.check(shown == {tuple(x) for x in d(k)}, "flow-not-used", lambda: f"{what}: shown {sorted(shown)}, fetched {sorted(map(tuple, d(k)))}")
        ctx.event("batches")
    ctx.event(f"devices-{n}")
    ctx.event("uneven-flows", c["F"] % n != 0)
    ctx.event("uneven-batch", c["B"] % n != 0)
    ctx.nontrivial(what0, c["seed"])


main(Spec("S03", cases, run,
          "samplers on 1 to 4 virtual CPU devices over recorded flow batches of distinct whole-pixel motions, with batch sizes and flow counts that do and do not divide; motion measured per entry, "
          "all fetched flows must appear, sizes and metadata compared; non-trivial: distinct (devices, counts, geometry)",
          quick=80, thorough=2000, workers=(8, 8), devices=4, quick_s=90, thorough_s=600,
          floors={"entries-measured": 900, "batches": 200, "devices-2": 6, "devices-3": 3, "devices-4": 12, "uneven-flows": 10, "uneven-batch": 10}))
