"""V01: generation settings are validated completely and updated faithfully."""
import random
from vp import Spec, main

# independent table of the documented constraints; values are JSON-encodable descriptions, decoded by dec()
NUM_POS = dict(good=[1, .5, 1e-9, 3, 1e6], bad=[0, 0.0, -1, -1e-12, "nan", "text", None, "list"])
NUM_NONNEG = dict(good=[0, 0.0, .5, 1, 1e-12, 1e6, "-0"], bad=[-1, -1e-12, "nan", "text", None, "list"])
PROB = dict(good=[0, 1, 0.0, 1.0, .5, 1e-12, "1-"], bad=[-1e-9, "1+", 1.5, -1, 2, "nan", "text", None])
TABLE = {
    "batch_size": dict(good=[1, 2, 300, 10 ** 6], bad=[0, -1, 1.0, 2.5, "text", None, "nan", "list"]),
    "image_shape": dict(good=[[1, 1], [256, 1], [7, 1000]], bad=[[0, 5], [5, 0], [-1, 4], [4, -1], [4], [4, 4, 4], [], [4.0, 4], [4, 4.5], "text", None, 5, ["a", 4]]),
    "img_offset": dict(good=[[0, 0], [1.5, 0], [0, 128], [1e-9, 3]], bad=[[-1, 0], [0, -1e-9], [1], [1, 2, 3], ["a", 1], [1, None], "text", None, 4, ["nan", 0]]),
    "seeding_density_range": dict(good=[[0, 0], [0, .1], [.1, .1], [.01, 2], [1, 2]], bad=[[.2, .1], [-.1, .1], [.1, -.1], [.1], [.1, .2, .3], ["a", .1], [None, 1], "text", None, .1, ["nan", .1], [.1, "nan"]]),
    "p_hide_img1": PROB, "p_hide_img2": PROB,
    "diameter_ranges": dict(good=[[[1, 2]], [[.1, .1]], [[1, 2], [.5, 9]], [[1e-6, 1]]], bad=[[], [[0, 1]], [[-1, 1]], [[2, 1]], [[1, 2], [2, 1]], [[1, 2], [0, 2]], [[1]], [[1, 2, 3]], "text", None, 3, [["nan", 1]], [[1, "nan"]], [3], [[1, 2], [1, 2, 3]], [["a", "b"]], [["a", 1]]]),
    "intensity_ranges": dict(good=[[[1, 2]], [[50, 50]], [[1, 255], [100, 900.5]]], bad=[[], [[0, 1]], [[-5, 5]], [[200, 100]], [[1, 2], [5, 4]], [[9]], [[1, 2, 3]], "text", None, 9, [["nan", 9]], [[9, "nan"]], [4]]),
    "rho_ranges": dict(good=[[[0, 0]], [[-.999, .999]], [[-.5, .5], [.9, .9]], [[0, .3]]], bad=[[], [[-1, 0]], [[0, 1]], [[-1, 1]], [[1.0, 1.0]], [[.5, -.5]], [[0, 0], [0, 1.5]], [[0]], [[0, 0, 0]], "text", None, 0, [["nan", 0]], [[0, "nan"]], [[-2, 0]]]),
    "diameter_var": NUM_NONNEG, "intensity_var": NUM_NONNEG, "rho_var": NUM_NONNEG, "noise_uniform": NUM_NONNEG, "noise_gaussian_mean": NUM_NONNEG, "noise_gaussian_std": NUM_NONNEG, "dt": NUM_POS,
}
LISTS = ("diameter_ranges", "intensity_ranges", "rho_ranges")


def dec(field, v):
    if v == "nan":
        return float("nan")
    if v == "1+":
        return 1.0 + 2 ** -52
    if v == "1-":
        return 1.0 - 2 ** -53
    if v == "-0":
        return -0.0
    if v == "list":
        return [1, 2]
    if isinstance(v, list):
        if field in LISTS:
            return [tuple(dec(None, z) for z in x) if isinstance(x, list) else x for x in v]
        return tuple(dec(None, x) for x in v)
    return v


def cases(rng, tier):
    names = list(TABLE)
    every = [(f, q, i) for f in names for q in ("good", "bad") for i in range(len(TABLE[f][q]))]
    k = 0
    while True:                                      # every entry of the table, each through both routes, with random company
        f, q, i = every[k % len(every)]
        k += 1
        v = TABLE[f][q][i]
        if f in LISTS and isinstance(v, list) and v and all(isinstance(x, list) for x in v) and rng.random() < .6:
            good = [x for g in TABLE[f]["good"] for x in g]    # the entry among valid ranges, at any place
            at = rng.randint(0, 3)
            v = [rng.choice(good) for _ in range(at)] + v + [rng.choice(good) for _ in range(rng.randint(0, 3))]
        base = {n: rng.choice(TABLE[n]["good"]) for n in names}
        named = [f] + rng.sample([n for n in names if n != f], rng.choice([0, 0, 1, 3]))
        yield dict(base=base, start={n: rng.choice(TABLE[n]["good"]) for n in names}, field=f, good=q == "good", value=v, route=("construct", "update")[(k + k // len(every)) % 2], named=named, seed=rng.randrange(10 ** 6), chain=rng.randint(1, 4), rand=rng.random() < .5)


def same(a, b):
    return type(a) is type(b) and a == b and repr(a) == repr(b)


def randomise(r, d):
    """Random admissible numbers instead of the table's."""
    d = dict(d)
    up = lambda a, b: tuple(sorted((r.uniform(a, b), r.uniform(a, b))))
    d["seeding_density_range"] = up(0, .2)
    d["diameter_ranges"] = [up(.01, 6) for _ in range(r.randint(1, 4))]
    d["intensity_ranges"] = [up(.01, 600) for _ in range(r.randint(1, 4))]
    d["rho_ranges"] = [up(-.9999, .9999) for _ in range(r.randint(1, 4))]
    d["p_hide_img1"], d["p_hide_img2"] = r.random(), r.random()
    for n in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"):
        d[n] = r.uniform(0, 5)
    d["dt"] = r.uniform(1e-6, 5)
    d["image_shape"] = (r.randint(1, 2000), r.randint(1, 2000))
    d["batch_size"] = r.randint(1, 1000)
    return d


def run(ctx, c):
    from synthpix.types import ImageGenerationSpecification as G
    r = random.Random(c["seed"])
    base, start = ({n: dec(n, v) for n, v in c[k].items()} for k in ("base", "start"))
    if c["rand"]:
        base, start = randomise(r, base), randomise(r, start)
    f, v = c["field"], dec(c["field"], c["value"])
    what = f"{f}={v!r} through {c['route']}"
    if c["route"] == "construct":
        want = dict(base, **{f: v})
        try:
            g = G(**want)
        except Exception as e:
            ctx.check(not c["good"], "valid-rejected", lambda: f"{what}: {type(e).__name__}: {e} (others {base})")
            ctx.event("rejected"); ctx.nontrivial("c", f, str(c["value"]))
            return
        if not ctx.check(c["good"], "invalid-accepted", lambda: f"{what}: accepted"):
            return
        bad = [n for n in want if not same(getattr(g, n), want[n])]
        ctx.check(not bad, "value-changed", lambda: f"{what}: fields {bad} hold {[getattr(g, n) for n in bad]}")
        ctx.event("accepted"); ctx.nontrivial("c", f, str(c["value"]))
        return
    g = G(**start)
    cur = dict(start)
    for step in range(c["chain"]):                   # a chain of valid updates before the one under test
        named = r.sample(list(TABLE), r.choice([1, 1, 2, 5]))
        ch = {n: base[n] for n in named}
        before = {n: getattr(g, n) for n in TABLE}
        h = g.update(**ch)
        cur.update(ch)
        bad = [n for n in TABLE if not same(getattr(h, n), cur[n])]
        ctx.check(not bad, "update-wrong-field", lambda: f"update({ch}) from {before}: fields {bad} hold {[getattr(h, n) for n in bad]}, expected {[cur[n] for n in bad]}")
        ctx.check(type(h) is G and all(same(getattr(g, n), before[n]) for n in TABLE), "original-changed", lambda: f"update({ch}) altered the original")
        g = h
        ctx.event("updates")
    ch = {n: base[n] for n in c["named"] if n != f}
    ch[f] = v
    before = {n: getattr(g, n) for n in TABLE}
    try:
        h = g.update(**ch)
    except Exception as e:
        ctx.check(not c["good"], "valid-rejected", lambda: f"{what}: {type(e).__name__}: {e}")
        ctx.check(all(same(getattr(g, n), before[n]) for n in TABLE), "original-changed", lambda: f"{what}: rejected update altered the original")
        ctx.event("rejected"); ctx.nontrivial("u", f, str(c["value"]))
        return
    if not ctx.check(c["good"], "invalid-accepted", lambda: f"{what}: accepted"):
        return
    want = dict(before, **ch)
    bad = [n for n in TABLE if not same(getattr(h, n), want[n])]
    ctx.check(not bad, "update-wrong-field", lambda: f"{what}: fields {bad} hold {[getattr(h, n) for n in bad]}, expected {[want[n] for n in bad]}")
    ctx.check(all(same(getattr(g, n), before[n]) for n in TABLE), "original-changed", lambda: f"{what}: altered the original")
    ctx.event("accepted"); ctx.nontrivial("u", f, str(c["value"]))


main(Spec("V01", cases, run,
          "every entry of an independent table of valid and invalid values of each of the sixteen settings, by construction and by update, in the company of random valid settings and after random chains of updates; "
          "non-trivial: distinct (route, setting, value)",
          quick=12000, thorough=150000, workers=(4, 8), quick_s=120, thorough_s=300, floors={"accepted": 400, "rejected": 800, "updates": 1000}))
