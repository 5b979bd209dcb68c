"""K01: updating a configuration file changes only the requested keys."""
import random
from vp import Spec, main

WORDS = ["text", "yes", "no", "on", "off", "true", "null", "~", "", " lead", "trail ", "1", "1.5", "1e3", "0x1f", "012", "1_000", "2024-01-02", "a: b", "# no comment", "- item", "[1, 2]", "{a: 1}", "quote\"s", "it's", "multi\nline", "tab\there", "%percent", "@at", "&amp", "*star", "!tag", "|", ">", "ünïcode", "12:30", "nan", ".inf", "=", "<<", "/shared/data/*.h5", "C:\\path", "x" * 120, "word " * 30]
KEYS = ["seed", "batch_size", "image_shape", "dt", "max_speed_x", "min_speed_y", "output_units", "mask", "resolution", "yes", "with space", "key-2", "1", "null_key", "extra", "nested", "file_list", "zeta", "alpha", "diameter_ranges"]


def scalar(r):
    return r.choice([lambda: r.randint(-10 ** 6, 10 ** 6), lambda: r.uniform(-1e3, 1e3), lambda: r.choice([1e-7, 1e22, 0.1, -0.0, 1e16, 123456789.123456, 5e-324, 1.7e308, 0, 10 ** 30]), lambda: r.choice([True, False]), lambda: None, lambda: r.choice(WORDS), lambda: r.choice([float("inf"), float("-inf")])])()


def value(r, depth=0):
    x = r.random()
    if depth < 3 and x < .15:
        return [value(r, depth + 1) for _ in range(r.randint(0, 4))]
    if depth < 3 and x < .25:
        return {r.choice(KEYS + WORDS[:8]): value(r, depth + 1) for _ in range(r.randint(0, 3))}
    if x < .3:
        return [[r.randint(0, 9), r.uniform(0, 9)] for _ in range(r.randint(1, 3))]
    return scalar(r)


def cases(rng, tier):
    while True:
        yield dict(n=rng.randint(0, 10), u=rng.choice([0, 1, 2, 4, 8]), arrays=rng.random() < .4, flist=rng.random() < .6, writer=rng.choice(["ruamel", "pyyaml", "hand"]), times=rng.choice([1, 1, 2, 3]), seed=rng.randrange(10 ** 9))


HAND = """# a commented configuration
seed: 0   # trailing comment
batch_size: 12
image_shape: [128, 256] # flow style
dt: 0.026
diameter_ranges: [[0.1, 1], [2, 3.5]]
mask: null
histogram: ~
empty:
flag: true
output_units: "measure units per second"
text: 'no'
big: 1.0e+20
nested:
  a: [1, 2, {b: null}]
  'on': 'off'
quoted: "007"
file_list:
  - "/data/a.h5"
  - '/data/b c.h5'
tail: last
"""


def equal(a, b):
    """Same value and same type, recursively (order of mapping keys is free)."""
    import math
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a) and {type(k) for k in a} == {type(k) for k in b}
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return type(a) is type(b) and a == b


def run(ctx, c):
    import os, numpy as np, jax.numpy as jnp, yaml as pyyaml
    from ruamel.yaml import YAML
    from synthpix.sanity import update_config_file
    from synthpix.utils import load_configuration
    r = random.Random(c["seed"])
    p = os.path.join(ctx.tmp(), "config.yaml")
    if c["writer"] == "hand":
        open(p, "w").write(HAND)
    else:
        doc = {k: value(r) for k in r.sample([k for k in KEYS if k != "file_list"], c["n"])}
        if c["flist"]:
            items = list(doc.items())
            items.insert(r.randint(0, len(items)), ("file_list", [r.choice(["/d/a.h5", "rel/b.h5", "with space.h5", "~/x.h5", "ü.h5", "no", "1"]) for _ in range(r.randint(0, 5))]))
            doc = dict(items)
        if not doc:
            doc = {"placeholder": 1}
        if c["writer"] == "ruamel":
            y = YAML(typ="safe", pure=True)
            with open(p, "w", encoding="utf-8") as f:
                y.dump(doc, f)
        else:
            with open(p, "w", encoding="utf-8") as f:
                pyyaml.safe_dump(doc, f, allow_unicode=True)
    plain = lambda x: {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else [plain(v) for v in x] if isinstance(x, (list, tuple)) else x
    for t in range(c["times"]):
        before = plain(dict(load_configuration(p)))
        up, want = {}, dict(before)
        for k in r.sample(KEYS, c["u"]):
            if c["arrays"] and r.random() < .6:
                kind = r.randrange(7)
                v = [np.float32(r.uniform(-5, 5)), np.float64(r.uniform(-5, 5)), np.int64(r.randint(-99, 99)), np.arange(4) * .5, jnp.float32(r.uniform(-5, 5)), jnp.arange(3), np.array([[1, 2], [3, 4]])][kind]
                w = [float, float, int, lambda a: a.tolist(), float, lambda a: a.tolist(), lambda a: a.tolist()][kind](v)
                ctx.event("array-values")
            else:
                v = value(r)
                w = plain(v)
            up[k] = v
            want[k] = w
        keep = dict(up)
        what = f"update {t} of a configuration written by {c['writer']} with keys {list(before)}"
        update_config_file(p, up)
        ctx.check(set(up) == set(keep) and all(up[k] is keep[k] for k in up), "argument-changed", what)
        try:
            after = plain(dict(load_configuration(p)))
        except Exception as e:
            ctx.fail("unreadable", f"{what}: the updated file cannot be loaded: {type(e).__name__}: {str(e)[:300]}\n{open(p, errors='replace').read()[:500]}")
            return
        lost, new = set(want) - set(after), set(after) - set(want)
        if not ctx.check(not lost and not new, "keys", lambda: f"{what}: lost {lost}, unexpected {new}"):
            return
        for k in want:
            if not equal(after[k], want[k]):
                ctx.fail("requested-value" if k in up else "file-list" if k == "file_list" else "other-value", f"{what}: {k} is {after[k]!r} ({type(after[k]).__name__}) instead of {want[k]!r} ({type(want[k]).__name__})")
        ctx.event("updates"); ctx.event("kept-values", len(set(want) - set(up))); ctx.event("new-keys", len(set(up) - set(before))); ctx.event("replaced", len(set(up) & set(before)))
        if "file_list" in after:
            ctx.event("file-list")
    ctx.event(c["writer"])
    ctx.nontrivial(c["seed"])


main(Spec("K01", cases, run,
          "random configurations (strings that look like other types, nulls, extreme numbers, nesting, odd keys, file lists) written by two YAML libraries or by hand, one to three random updates incl. NumPy/JAX values, loaded before and after and compared in value and type; "
          "non-trivial: distinct documents",
          quick=2000, thorough=30000, workers=(6, 8), quick_s=120, thorough_s=400, floors={"updates": 300, "kept-values": 800, "new-keys": 150, "replaced": 60, "array-values": 100, "file-list": 80, "hand": 60}))
