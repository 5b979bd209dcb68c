"""T01: data set preparation keeps every complete sample, its motion and its split."""
import contextlib, io, os, random, shutil, struct, sys, types
from vp import Spec, main, REPO


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        H, W = rng.choice([(8, 8), (10, 12), (16, 9), (12, 20)])
        yield dict(kind="class2" if k % 6 == 0 else "class1", hw=[H, W], target=rng.choice([[H, W], [H, W], [2 * H, 2 * W], [H // 2, W // 2], [W, H], [2 * H, W], [16, 24]]),
                   groups=[[rng.choice(["backstep", "cylinder", "DNS", "JHTDB/sub", "uniform", "channel_flow", "JHTDB_flow/set_img1", "shear_img2.d/a_flow"]), rng.choice([None, "Re1000", "Re800"]), rng.randint(2, 7)] for _ in range(rng.randint(1, 3))],
                   bad=rng.choice([0, .2, .4]), flo=rng.choice([1.0, .6, .3]), zips=rng.choice([0, 1, 2]), ratios=rng.choice([[80, 10, 10], [60, 20, 20], [50, 25, 25], [100, 0, 0], [34, 33, 33], [0, 50, 50]]),
                   split_seed=rng.choice([0, 0, 1, 42, rng.randrange(1000)]), style=rng.choice(["triple", "img1", "img2", "flow", "plain"]), seed=rng.randrange(10 ** 6), cli=rng.random() < .35)


_MOD = {}


def script(name):
    if name not in _MOD:
        import importlib.util
        d = os.path.join(REPO, "scripts")
        if d not in sys.path:
            sys.path.insert(0, d)
        try:
            import gdown  # noqa
        except ImportError:
            sys.modules["gdown"] = types.ModuleType("gdown")
        if name == "download_piv_2":
            sys.modules["tensorflow"] = fake_tf()
        s = importlib.util.spec_from_file_location(name, os.path.join(d, name + ".py"))
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        _MOD[name] = m
    return _MOD[name]


def call(ctx, what, f, *a, **k):
    """Runs a function of the scripts; an exception is the scripts' failure."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return f(*a, **k), True
    except Exception as e:
        import traceback
        ctx.fail("failed", f"{what}: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
        return None, False


def program(name, *argv):
    """The script as its user runs it."""
    import runpy
    old, sys.argv = sys.argv, [name] + list(argv)
    try:
        runpy.run_path(os.path.join(REPO, "scripts", name + ".py"), run_name="__main__")
    except SystemExit as e:
        if e.code not in (0, None):
            raise RuntimeError(f"exit status {e.code}")
    finally:
        sys.argv = old


def sample(r, H, W, u):
    """A flow linear in the position, and two images."""
    import numpy as np
    y, x = np.mgrid[0:H, 0:W]
    a = [u + .1 * r.randint(0, 9), r.choice([0, .05, -.03]), r.choice([0, .02]), -u, r.choice([0, .04]), r.choice([0, -.06, .03])]
    f = np.stack([a[0] + a[1] * x + a[2] * y, a[3] + a[4] * x + a[5] * y], -1).astype(np.float32)
    g = np.random.default_rng(u)
    return a, f, g.integers(0, 256, (H, W), dtype=np.uint8), g.integers(0, 256, (H, W), dtype=np.uint8)


def run(ctx, c):
    if c["kind"] == "class2":
        return class2(ctx, c)
    import numpy as np
    import h5py, scipy.io, zipfile
    from PIL import Image
    m = script("download_piv_1")
    r = random.Random(c["seed"])
    tmp = ctx.tmp()
    src, out = os.path.join(tmp, "src"), os.path.join(tmp, "out")
    H, W = c["hw"]
    TH, TW = c["target"]
    full, made, u = {}, [], 0
    for g, re_, n in c["groups"]:
        d = os.path.join(src, g)
        os.makedirs(d, exist_ok=True)
        for i in range(n):
            u += 1
            core = f"{g.split('/')[0].split('_')[0]}_{re_ + '_' if re_ else ''}{u:05d}"
            a, f, i0, i1 = sample(r, H, W, u)
            bad = r.choice(["no-img1", "no-img2", "bad-flow", "bad-img", "odd-flow"]) if r.random() < c["bad"] else None
            p = os.path.join(d, core)
            if r.random() < c["flo"]:
                with open(p + "_flow.flo", "wb") as h:
                    h.write(b"PIEH" + struct.pack("ii", W, H) + f.tobytes())
                    ctx.event("flo-files")
                fp = p + "_flow.flo"
            else:
                fp = p + "_flow.mat"
                key = r.choice(["V", "flow", "uv", "F"])
                scipy.io.savemat(fp, {key: f if r.random() < .6 or H == 2 else np.ascontiguousarray(f.transpose(2, 0, 1))})
                ctx.event("mat-files")
            Image.fromarray(i0).save(p + "_img1.tif")
            Image.fromarray(i1).save(p + "_img2.tif")
            if bad == "no-img1":
                os.remove(p + "_img1.tif")
            elif bad == "no-img2":
                os.remove(p + "_img2.tif")
            elif bad == "bad-flow":
                open(fp, "wb").write(b"PIEX" + b"\0" * 30)
            elif bad == "odd-flow":
                os.remove(fp)
                fp = p + "_flow.mat"
                scipy.io.savemat(fp, {"other": np.zeros((3, 3))})
            elif bad == "bad-img":
                open(p + "_img2.tif", "wb").write(b"not a picture")
            made.append(core)
            if bad:
                ctx.event("bad-triplets")
            else:
                full[os.path.join(g, core + ".mat")] = (a, f, i0, i1)
    # the official lists; some samples are in neither
    names = list(made)
    r.shuffle(names)
    lost = [names.pop() for _ in range(min(len(names) - 1, r.choice([0, 0, 1])))]
    k = max(1, int(len(names) * .75))
    line = {"triple": lambda n: f"x/{n}_img1.tif x/{n}_img2.tif x/{n}_flow.flo", "img1": lambda n: f"data/{n}_img1.tif", "img2": lambda n: f"./{n}_img2.tif", "flow": lambda n: f"{n}_flow.flo", "plain": lambda n: f"{n}.mat"}[c["style"]]
    lists = {"train": [line(n) for n in names[:k]], "test": [line(n) for n in names[k:]]}

    tail = r.choice(["", "\n", "\n\n"])

    def retrieve(url, dest, *a, **kw):
        which = "train" if "train" in url else "test" if "test" in url else None
        if which is None or not url.startswith("http"):
            raise OSError("unknown address " + url)
        with open(dest, "w") as f:
            f.write("\n".join(lists[which]) + tail)
        return str(dest), None
    import urllib.request
    old, urllib.request.urlretrieve = urllib.request.urlretrieve, retrieve

    def folder(url=None, output=None, **kw):
        """The shared folder: archives of the data (or plain files)."""
        if folder.done and c["zips"] < 2:
            return []
        files = [(os.path.relpath(os.path.join(d, f), src), os.path.join(d, f)) for d, _, fs in os.walk(src) for f in sorted(fs)]
        files.sort()
        part = files if c["zips"] < 2 else files[folder.done::2]
        folder.done += 1
        os.makedirs(os.path.join(output, "zips"), exist_ok=True)
        with zipfile.ZipFile(os.path.join(output, "zips", "a.zip"), "w") as z:
            for rel, p in part:
                z.write(p, rel)
        if r.random() < .5:
            open(os.path.join(output, "broken.zip"), "wb").write(b"PK nothing")
        return []
    folder.done = 0
    old_g = getattr(m.gdown, "download_folder", None)
    m.gdown.download_folder = folder
    what = f"{len(made)} triplets of {H}x{W} to {TH}x{TW}, groups {c['groups']}, ratios {c['ratios']}, lists as {c['style']}"
    from pathlib import Path
    try:
        if not c["zips"]:
            shutil.copytree(src, os.path.join(out, "raw_class1"))
        if c["cli"]:
            bad = r.choice(["80/10", "90/10/10", "a/b/c", "80-10-10", "", "50/25/25/0", "80/10/9"])
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    program("download_piv_1", "--out-dir", os.path.join(tmp, "no"), "--split-ratio", bad, "--target-shape", f"{TH}x{TW}")
                ctx.fail("bad-shares-accepted", f"--split-ratio {bad!r}")
            except RuntimeError:
                ctx.check(not any(os.path.isdir(os.path.join(tmp, "no", s)) for s in ("train", "val", "test", "tune")), "bad-shares-accepted", f"--split-ratio {bad!r} split the data")
            shutil.rmtree(os.path.join(tmp, "no"), ignore_errors=True)
            _, ok = call(ctx, what, program, "download_piv_1", "--out-dir", out, "--split-seed", str(c["split_seed"]), "--split-ratio", "/".join(map(str, c["ratios"])), "--target-shape", f"{TH}x{TW}")
            ctx.event("programs")
        else:
            _, ok = call(ctx, what, m.fetch_splits, Path(out) / "splits", c["split_seed"], list(c["ratios"]))
        if not ok:
            return
        split = {s: open(os.path.join(out, "splits", s + ".txt")).read().split("\n") for s in ("train", "val", "test", "tune")}
        split = {s: [x for x in v if x] for s, v in split.items()}
        n = len(lists["train"])
        nv, nt = n * c["ratios"][1] // 100, n * c["ratios"][2] // 100
        ctx.check(sorted(split["train"] + split["val"] + split["tune"]) == sorted(lists["train"]), "split-not-a-partition", lambda: f"{what}: {split} of {lists['train']}")
        ctx.check([len(split["train"]), len(split["val"]), len(split["tune"])] == [n - nv - nt, nv, nt], "split-sizes", lambda: f"{what}: {[len(split[s]) for s in ('train', 'val', 'tune')]} of {n}")
        ctx.check(split["test"] == lists["test"], "test-list-changed", lambda: f"{what}: {split['test']} for {lists['test']}")
        again = Path(out) / "again"
        random.seed(r.random())
        _, ok = call(ctx, what, m.fetch_splits, again, c["split_seed"], list(c["ratios"]))
        for s in split:
            ctx.check(ok and (again / f"{s}.txt").read_text() == (Path(out) / "splits" / f"{s}.txt").read_text(), "split-not-reproducible", lambda: f"{what}: {s} differs for the same seed")
        shutil.rmtree(again, ignore_errors=True)
        ctx.event("splits")
        if not c["cli"]:
            _, ok = call(ctx, what, m.main, out, f"{TH}x{TW}")
        if not ok:
            return
    finally:
        urllib.request.urlretrieve = old
        if old_g is not None:
            m.gdown.download_folder = old_g
    packed = os.path.join(out, "packed_class1")
    got = {os.path.relpath(os.path.join(d, f), packed) for d, _, fs in os.walk(packed) for f in fs}
    if not ctx.check(got == set(full), "samples-lost-or-invented", lambda: f"{what}: missing {sorted(set(full) - got)[:4]}, unexpected {sorted(got - set(full))[:4]}"):
        return
    from synthpix.scheduler import MATFlowFieldScheduler
    order = sorted(full)
    if order:
        same = (TH, TW) == (H, W)
        sch = MATFlowFieldScheduler([os.path.join(packed, k) for k in order], include_images=same, output_shape=(TH, TW))
        for k in order:
            a, f, i0, i1 = full[k]
            b = sch.get_batch(1)
            if not ctx.check(b.files is not None and b.files[0].endswith(k), "unreadable-sample", lambda: f"{what}: {k} cannot be read back (got {b.files})"):
                return
            V = np.asarray(b.flow_fields[0])
            if same:
                ctx.check(np.array_equal(V, f), "flow-changed", lambda: f"{what}: flow of {k} differs")
                ctx.check(np.array_equal(np.asarray(b.images1[0]), i0) and np.array_equal(np.asarray(b.images2[0]), i1), "images-changed", lambda: f"{what}: images of {k}")
            else:
                y = (np.arange(TH) + .5) * H / TH - .5
                x = (np.arange(TW) + .5) * W / TW - .5
                want = np.stack([(a[0] + a[1] * x[None] + a[2] * y[:, None]) * TW / W, (a[3] + a[4] * x[None] + a[5] * y[:, None]) * TH / H], -1)
                e = np.abs(V - want)[2:-2, 2:-2]
                # the filter is exact for constant fields, and centred to within a fraction of a grid step
                tol = 1e-3 * (1 + abs(a[0])) + .35 * max(abs(q) for q in (a[1], a[2], a[4], a[5])) * max(TW / W, TH / H)
                ctx.check(V.shape == (TH, TW, 2) and (e.size == 0 or e.max() < tol), "flow-not-rescaled", lambda: f"{what}: flow of {k} off by up to {e.max() if e.size else V.shape}")
                with h5py.File(os.path.join(packed, k), "r") as h:
                    ctx.check(h["I0"].size > 0 and h["I1"].size > 0, "images-changed", lambda: f"{what}: images of {k}")
                    if h["I0"].shape == i0.shape:
                        ctx.check(np.array_equal(h["I0"][...], i0) and np.array_equal(h["I1"][...], i1), "images-changed", lambda: f"{what}: images of {k}")
            ctx.event("samples-read-back")
    # distribution over the splits
    base = lambda l: l.split()[0].split("/")[-1].replace("_img1.tif", "").replace("_img2.tif", "").replace("_flow.flo", "").replace(".mat", "")
    for s in split:
        want = set()
        mine = {base(l) for l in split[s]}
        for k in full:
            core = os.path.basename(k)[:-4]
            if core in mine:
                re_ = next((p for p in core.split("_")[1:-1] if p.startswith("Re")), None)
                want.add(os.path.join(s, os.path.dirname(k), *([re_] if re_ else []), core + ".mat"))
        have = {os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(os.path.join(out, s)) for f in fs} if os.path.isdir(os.path.join(out, s)) else set()
        ctx.check(have == want, "split-content", lambda: f"{what}: {s}: missing {sorted(want - have)[:4]}, unexpected {sorted(have - want)[:4]}")
        for h in have & want:
            core = os.path.basename(h)
            k = next(k for k in full if os.path.basename(k) == core)
            ctx.check(open(os.path.join(out, h), "rb").read() == open(os.path.join(packed, k), "rb").read(), "copy-differs", lambda: f"{what}: {h}")
            ctx.event("copies")
    ctx.nontrivial(c["hw"], c["target"], c["groups"], c["ratios"], c["style"], c["zips"])


RECORDS = {}


def fake_tf():
    """The few TensorFlow calls the second script makes, over records kept in memory."""
    tf = types.ModuleType("tensorflow")

    class T:
        def __init__(self, b):
            self.b = b

        def numpy(self):
            return self.b

        def __eq__(self, o):
            return self.b == (o.b if isinstance(o, T) else o)
        __hash__ = None
    tf.Tensor, tf.string = T, "string"
    tf.data = types.SimpleNamespace(TFRecordDataset=lambda p: list(RECORDS[os.path.basename(str(p))]))
    tf.io = types.SimpleNamespace(FixedLenFeature=lambda shape, dtype, default_value=None: default_value,
                                  parse_single_example=lambda ex, d: {k: T(ex.get(k, v.encode() if isinstance(v, str) else v)) for k, v in d.items()})
    return tf


def class2(ctx, c):
    import numpy as np
    import zipfile
    m = script("download_piv_2")
    r = random.Random(c["seed"])
    out = os.path.join(ctx.tmp(), "out")
    raw = os.path.join(out, "raw_class2")
    os.makedirs(raw)
    full = {}
    RECORDS.clear()
    names = ["Training_Dataset_RAFT256_PIV.tfrecord-00000-of-00001", "Validation_Dataset_RAFT256_PIV.tfrecord-00000-of-00001", "Test_RAFT256.tfrecord", "Training_other.tfrecord"]
    with zipfile.ZipFile(os.path.join(raw, "Data_ProblemClass2_RAFT-PIV.zip"), "w") as z:
        for name in names:
            z.writestr(name, b"records")
            recs, k = [], 0
            for i in range(r.randint(1, 4)):
                g = np.random.default_rng(r.randrange(10 ** 6))
                t, f = g.random((256, 256, 2), np.float32), g.random((256, 256, 2), np.float32)
                bad = r.choice([None, None, "short", "missing", "flow"])
                rec = {"target": t.tobytes(), "flow": f.tobytes(), "label": b"x"}
                if bad == "short":
                    rec["target"] = rec["target"][:1000]
                elif bad == "missing":
                    del rec["flow"]
                elif bad == "flow":
                    rec["flow"] = rec["flow"] + b"\0" * 8
                elif "RAFT256" in name:
                    sub = "train" if "Training" in name else "val" if "Validation" in name else "other"
                    full[f"{sub}/sample_{k:05d}.mat"] = (t, f)
                    k += 1
                if bad:
                    ctx.event("bad-triplets")
                recs.append(rec)
            RECORDS[name] = recs
    _, ok = call(ctx, "class 2", program, "download_piv_2", "--out-dir", out) if c["cli"] else call(ctx, "class 2", m.main, out)
    if not ok:
        return
    packed = os.path.join(out, "packed_class2")
    got = {os.path.relpath(os.path.join(d, f), packed) for d, _, fs in os.walk(packed) for f in fs}
    if not ctx.check(got == set(full), "samples-lost-or-invented", lambda: f"class 2: missing {sorted(set(full) - got)[:4]}, unexpected {sorted(got - set(full))[:4]}"):
        return
    from synthpix.scheduler import MATFlowFieldScheduler
    for k, (t, f) in sorted(full.items()):
        b = MATFlowFieldScheduler([os.path.join(packed, k)], include_images=True, output_shape=(256, 256)).get_batch(1)
        ctx.check(np.array_equal(np.asarray(b.flow_fields[0]), f), "flow-changed", lambda: f"class 2: {k}")
        import h5py
        with h5py.File(os.path.join(packed, k), "r") as h:
            ctx.check(np.array_equal(h["I0"][...], t[..., 0]) and np.array_equal(h["I1"][...], t[..., 1]), "images-changed", lambda: f"class 2: {k}")
        ctx.event("samples-read-back")
    ctx.event("class-2")
    ctx.nontrivial("class2", sorted(full), c["seed"])


main(Spec("T01", cases, run,
          "the preparation scripts run end to end in scratch directories on synthetic raw data (nested folders, archives, both flow formats, damaged and incomplete triplets, all list styles), results read back through the "
          "scheduler; downloads are replaced by local files; non-trivial: distinct (shapes, groups, ratios, list style, archives)",
          quick=240, thorough=6000, workers=(6, 8), quick_s=90, thorough_s=400,
          assumptions=["network downloads and TensorFlow record parsing are replaced by local stand-ins"],
          floors={"samples-read-back": 1000, "splits": 150, "copies": 700, "bad-triplets": 200, "flo-files": 500, "mat-files": 300, "class-2": 30, "programs": 40}))
