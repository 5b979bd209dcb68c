"""C01: the command-line tools show the pipeline's own batches and judge configurations rightly."""
import io, json, os, random, subprocess, sys
from vp import Spec, main, REPO


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 3 == 0:
            yield dict(kind="judge", seed=rng.randrange(10 ** 6), n=14)
            continue
        B = rng.choice([1, 2, 3, 4])
        fmt = rng.choice(["h5", "h5", "npy", "mat", "mat"])
        yield dict(kind="show", fmt=fmt, images=fmt == "mat" and rng.random() < .7, B=B, F=rng.choice([1, B, rng.randint(1, B)]), reuse=rng.choice([1, 1, 2]), hw=[rng.choice([34, 40, 64, 65, 70]), rng.choice([33, 50, 66, 97, 100])],
                   files=rng.randint(1, 4), slices=rng.choice([1, 2, 3]), loop=rng.random() < .3, buffer=rng.choice([0, 0, 1, 3]), show=rng.choice([0, 1, 1, 2, B, B + 3]), stop=rng.choice(["n", "n", "", "no", "q", "yes", "yy", "y n", None, None, None]),
                   after=rng.randint(0, 4), yes=rng.choice(["y", "y", "Y"]), shuffle=rng.random() < .3, seed=rng.randrange(1000), deep=rng.random() < .3)


def files(root, c, r):
    """Flow fields linear in the position, so that a transposed or displaced arrow shows."""
    import numpy as np
    from data import write_h5, write_npy, write_mat, gray
    H, W = c["hw"]
    if not c["images"]:
        H, W = (256, 256) if c["fmt"] == "mat" else (H + 16, W + 16)
    y, x = np.mgrid[0:H, 0:W]
    out, u = [], 0
    for i in range(c["files"]):
        sl = []
        for _ in range(c["slices"] if c["fmt"] == "h5" else 1):
            u += 1
            sl.append(np.stack([.1 * u + .002 * x - .001 * y, -.05 * u + .0005 * x + .003 * y], -1).astype(np.float32))
        p = os.path.join(root, f"flow_{i + 1}.{c['fmt']}")
        if c["fmt"] == "h5":
            write_h5(p, np.stack(sl, 1))
        elif c["fmt"] == "npy":
            write_npy(p, sl[0])
        elif c["images"]:
            write_mat(p, False, V=sl[0], I0=gray((H, W), 2 * u), I1=gray((H, W), 2 * u + 1))
        else:
            write_mat(p, False, V=sl[0])
        out.append(p)
    return out, (H, W)


def run(ctx, c):
    if c["kind"] == "judge":
        return judge(ctx, c)
    import numpy as np
    import pipes
    from PIL import Image
    from ruamel.yaml import YAML
    r = random.Random(c["seed"])
    root = ctx.tmp()
    fl, (H, W) = files(root, c, r)
    h, w = c["hw"]
    cfg = dict(scheduler_class="." + c["fmt"], file_list=fl, batch_size=c["B"], flow_fields_per_batch=c["F"], batches_per_flow_batch=c["reuse"], seed=c["seed"], loop=c["loop"], randomize=c["shuffle"])
    if c["images"]:
        cfg.update(include_images=True, image_shape=[h, w])
    else:
        cfg.update(image_shape=[h, w], img_offset=[6.0, 7.0], seeding_density_range=[0.02, 0.03], p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[[1.0, 2.0]], diameter_var=0.0, intensity_ranges=[[100.0, 250.0]], intensity_var=0.0,
                   rho_ranges=[[-.2, .2]], rho_var=0.0, dt=1.0, noise_uniform=r.choice([0.0, 10.0]), noise_gaussian_mean=0.0, noise_gaussian_std=0.0, flow_field_size=[float(H), float(W)], resolution=1.0, velocities_per_pixel=1.0,
                   max_speed_x=2.0, max_speed_y=1.5, min_speed_x=-1.0, min_speed_y=-1.0, output_units="pixels")
    if c["buffer"]:
        cfg["buffer_size"] = c["buffer"]
    show, stop = c["show"], c["stop"]
    if c["loop"] and stop is None:
        stop = "n"
    if c["loop"] and show == 0:
        show = 1
    # what the pipeline yields
    s = pipes.make(cfg)
    want = []
    try:
        for k, b in enumerate(s):
            want.append([np.asarray(b.images1), np.asarray(b.images2), np.asarray(b.flow_fields)])
            if (show and stop is not None and k >= c["after"]) or k >= 40:
                break
    finally:
        s.shutdown()
    stopped = show and stop is not None and len(want) == c["after"] + 1
    conf = os.path.join(root, "conf.yaml")
    with open(conf, "w") as f:
        YAML(typ="safe", pure=True).dump(cfg, f)
    text, before = open(conf).read(), sorted(os.listdir(root))
    out = os.path.join(ctx.tmp(), "pictures", "of", "this run") if c["deep"] else os.path.join(ctx.tmp(), "out")
    answers = [c["yes"]] * c["after"] + ([stop] if stop is not None else [c["yes"]] * 60)
    rec = child(ctx, os.path.join(REPO, "src", "main.py"), ["--config", conf, "--output_dir", out, "--visualize", str(show)], "\n".join(answers) + "\n")
    what = f"main.py --visualize {show}, {c['fmt']}{' with images' if c['images'] else ''} {cfg['image_shape']} batch {c['B']} buffer {c['buffer']} loop {c['loop']}, answers {answers[:6]}"
    if rec is None:
        ctx.fail("no-end", f"{what}: the program did not end")
        return
    ctx.event("runs")
    if not ctx.check(rec["code"] == 0, "failed", lambda: f"{what}: exit status {rec['code']} {rec.get('error')}\n{rec['stderr'][-1200:]}"):
        return
    ctx.check(not rec["left"], "left-running", lambda: f"{what}: background threads {rec['left']} still run after the end")
    ctx.event("background-threads", rec["started"])
    n = min(show, c["B"])
    have = sorted(os.listdir(out)) if os.path.isdir(out) else []
    expect = sorted(f"batch_{i}_sample_{j}_{x}.png" for i in range(len(want)) for j in range(n) for x in ("image1", "image2", "quiver"))
    ctx.check(have == expect, "pictures", lambda: f"{what}: {len(want)} batches, {'stopped by the user' if stopped else 'to the end'}; missing {sorted(set(expect) - set(have))[:4]}, unexpected {sorted(set(have) - set(expect))[:4]}")
    asked = rec["stdout"].count("continue generating")
    ctx.check(asked == (len(want) if show else 0), "prompts", lambda: f"{what}: asked {asked} times for {len(want)} batches")
    ctx.check(open(conf).read() == text and sorted(os.listdir(root)) == before, "changes-inputs", lambda: f"{what}: {sorted(set(os.listdir(root)) ^ set(before))}")
    for i, b in enumerate(want):
        for j in range(n):
            for x in (0, 1):
                p = os.path.join(out, f"batch_{i}_sample_{j}_image{x + 1}.png")
                if not os.path.exists(p):
                    continue
                g = np.asarray(Image.open(p).convert("RGB")).astype(float)
                im = b[x][j].astype(float)
                lo, hi = im.min(), im.max()
                ref = (im - lo) / (hi - lo) * 255 if hi > lo else None
                bad = g.shape[:2] != im.shape or (g != g[..., :1]).any()
                err = None
                if not bad and ref is not None:
                    # any increasing linear grey scale will do
                    A = np.stack([ref.ravel(), np.ones(ref.size)], -1)
                    (m, q), *_ = np.linalg.lstsq(A, g[..., 0].ravel(), rcond=None)
                    err = float(np.abs(A @ np.array([m, q]) - g[..., 0].ravel()).max()) if m > .2 else 999.0
                ctx.event("pictures")
                ctx.check(not bad and (err is None or err < 2.5), "picture", lambda: f"{what}: {os.path.basename(p)}: size {g.shape} for an image of {im.shape}; off by {err} grey levels")
            p = os.path.abspath(os.path.join(out, f"batch_{i}_sample_{j}_quiver.png"))
            a = rec["arrows"].get(p)
            if not os.path.exists(p) or a is None:
                ctx.check(not os.path.exists(p), "arrows", lambda: f"{what}: {p} holds no arrows")
                continue
            X, Y, U, V = map(np.asarray, a)
            fl_ = b[2][j]
            fh, fw = fl_.shape[:2]
            ok = len(X) > 0 and len(X) == len(Y) == len(U) == len(V) and (X >= 0).all() and (Y >= 0).all() and (X < fw).all() and (Y < fh).all() and (X == np.round(X)).all() and (Y == np.round(Y)).all()
            off = None
            if ok:
                ref = fl_[Y.astype(int), X.astype(int)]
                off = float(np.abs(ref - np.stack([U, V], -1)).max())
            ctx.event("arrows", len(X))
            ctx.check(ok and off < 1e-5, "arrows", lambda: f"{what}: batch {i} entry {j}: {len(X)} arrows at x {X[:6]}, y {Y[:6]} differ from the flow there by {off}")
            Image.open(p).load()
    ctx.nontrivial("show", c["fmt"], c["images"], show, c["B"], stop, c["after"], c["loop"], c["buffer"])


def child(ctx, script, args, answers):
    lib = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")
    d = ctx.tmp()
    with open(d + "/in", "w") as f:
        f.write(answers)
    with open(d + "/in") as i, open(d + "/o", "w") as o, open(d + "/e", "w") as e:
        try:
            subprocess.run([sys.executable, lib + "/clirun.py", script, d + "/rec.json", *args], cwd=d, env=dict(os.environ, MPLCONFIGDIR=d), stdin=i, stdout=o, stderr=e, timeout=200)
        except subprocess.TimeoutExpired:
            return None
    err = open(d + "/e").read()
    if not os.path.exists(d + "/rec.json"):
        raise RuntimeError("child process failed:\n" + err[-2500:])
    rec = json.load(open(d + "/rec.json"))
    rec["stdout"], rec["stderr"] = open(d + "/o").read(), err
    return rec


# changes no configuration survives (each stated in the documentation or by the constructors' own messages)
SPOIL = {
    "batch_size 0": dict(batch_size=0), "batch_size text": dict(batch_size="four"), "negative flows per batch": dict(flow_fields_per_batch=-1), "more flows than pairs": dict(flow_fields_per_batch=99),
    "zero reuse": dict(batches_per_flow_batch=0), "empty image": dict(image_shape=[0, 9]), "image of 3": dict(image_shape=[5, 5, 5]), "negative offset": dict(img_offset=[-1.0, 2.0]), "negative density": dict(seeding_density_range=[-.1, .1]),
    "reversed density": dict(seeding_density_range=[.2, .1]), "hide 2": dict(p_hide_img1=2.0), "hide -1": dict(p_hide_img2=-1.0), "reversed diameters": dict(diameter_ranges=[[2.0, 1.0]]), "diameter 0": dict(diameter_ranges=[[0.0, 0.0]]),
    "negative variance": dict(diameter_var=-1.0), "reversed intensities": dict(intensity_ranges=[[90.0, 30.0]]), "rho 2": dict(rho_ranges=[[-2.0, 2.0]]), "dt text": dict(dt="soon"), "negative noise": dict(noise_uniform=-1.0),
    "negative std": dict(noise_gaussian_std=-1.0), "field 0": dict(flow_field_size=[0.0, 14.0]), "resolution 0": dict(resolution=0.0), "resolution -1": dict(resolution=-1.0), "vpp 0": dict(velocities_per_pixel=0.0), "units": dict(output_units="furlongs"),
    "speeds reversed x": dict(max_speed_x=-3.0), "speeds reversed y": dict(max_speed_y=-3.0), "missing image_shape": dict(image_shape=None), "missing dt": dict(dt=None), "missing resolution": dict(resolution=None), "missing batch_size": dict(batch_size=None),
    "missing diameters": dict(diameter_ranges=None), "image outside the field": dict(image_shape=[90, 90]),
}


def judge(ctx, c):
    """The sanity script's verdict on valid and spoilt configurations."""
    import contextlib
    import numpy as np
    import pipes
    from data import write_h5
    from ruamel.yaml import YAML
    from synthpix import sanity
    r = random.Random(c["seed"])
    root = ctx.tmp()
    fl = []
    for i in range(r.randint(1, 3)):
        fl.append(os.path.join(root, f"f{i}.h5"))
        write_h5(fl[-1], np.random.default_rng(c["seed"] + i).uniform(-1, 1, (24, r.randint(1, 3), 26, 2)).astype(np.float32))
    tried = False
    for k in range(c["n"]):
        B = r.choice([1, 2, 4])
        cfg = dict(batch_size=B, image_shape=[r.randint(5, 9), r.randint(5, 9)], img_offset=[6.0, 7.5], flow_field_size=[24.0, 26.0], seeding_density_range=[.01, .1], p_hide_img1=.1, p_hide_img2=0.0, diameter_ranges=[[.5, 1.0]], diameter_var=r.choice([0, .5]),
                   intensity_ranges=[[80.0, 100.0]], intensity_var=0, rho_ranges=[[-.1, .1]], rho_var=0, dt=r.choice([.5, 1, 2.0]), noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=r.choice([0.0, 2.0]), batches_per_flow_batch=r.choice([1, 3]),
                   flow_fields_per_batch=r.choice([1, B]), resolution=r.choice([1.0, 1]), velocities_per_pixel=r.choice([1.0, 2.0, .5]), seed=r.choice([0, 5]), output_units=r.choice(["pixels", "measure units per second"]), scheduler_class=".h5",
                   max_speed_x=1.0, max_speed_y=1, min_speed_x=-1, min_speed_y=-1.0, file_list=list(fl))
        spoil = r.choice([None, None, None, "config", "h5", *r.sample(sorted(SPOIL), 4)])
        conf = os.path.join(root, f"c{k}.yaml")
        if spoil == "h5":
            bad = r.choice(["gone", "ext", "text"])
            spoil = f"file {bad}"
            if bad == "gone":
                cfg["file_list"].insert(r.randrange(len(fl) + 1), os.path.join(root, "gone.h5"))
            elif bad == "ext":
                open(os.path.join(root, "a.npy"), "w").write("x")
                cfg["file_list"].append(os.path.join(root, "a.npy"))
            else:
                cfg["file_list"] = []
        elif spoil in SPOIL:
            for a, b in SPOIL[spoil].items():
                if b is None:
                    del cfg[a]
                else:
                    cfg[a] = b
        if spoil != "config":
            with open(conf, "w") as f:
                YAML(typ="safe", pure=True).dump(cfg, f)
        text = open(conf).read() if spoil != "config" else None
        listing = sorted(os.listdir(root))
        argv, sys.argv = sys.argv, ["sanity", "--config", conf]
        keep = sys.stdin
        sys.stdin = io.StringIO("")
        o = io.StringIO()
        try:
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
                try:
                    sanity.main()
                    code, err = 0, None
                except SystemExit as e:
                    code, err = (0 if e.code in (0, None) else 1), e.code
                except Exception as e:
                    code, err = 1, f"{type(e).__name__}: {e}"
        finally:
            sys.argv, sys.stdin = argv, keep
        what = f"sanity on {'a valid configuration' if spoil is None else 'a configuration spoilt by ' + repr(spoil)} {cfg}"
        if spoil is None:
            ctx.check(code == 0, "valid-rejected", lambda: f"{what}: {err}\n{o.getvalue()[-600:]}")
            if code == 0 and not tried:
                tried = True
                s = pipes.make(conf)
                try:
                    b = next(s)
                    ctx.check(tuple(b.images1.shape) == (B, *cfg["image_shape"]), "valid-but-unusable", lambda: f"{what}: {b.images1.shape}")
                finally:
                    s.shutdown()
            ctx.event("valid")
        else:
            ctx.check(code != 0, "spoilt-accepted", lambda: f"{what}: accepted")
            ctx.event("spoilt")
        ctx.check((not os.path.exists(conf) if text is None else open(conf).read() == text) and sorted(os.listdir(root)) == listing, "changes-files", lambda: f"{what}: {sorted(set(os.listdir(root)) ^ set(listing))}")
        ctx.nontrivial("judge", str(spoil))


main(Spec("C01", cases, run,
          "src/main.py run as a process over random pipelines (formats, sizes, buffering, looping) with scripted answers: every picture, arrow, prompt, file and background thread compared with the batches the same configuration yields; "
          "the sanity script's verdict on valid and spoilt configurations; non-trivial: distinct dialogues and spoilings",
          quick=60, thorough=700, workers=(6, 8), case_timeout=320, quick_s=100, thorough_s=700,
          floors={"runs": 12, "pictures": 60, "arrows": 200, "valid": 20, "spoilt": 40}))
