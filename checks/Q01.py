"""Q01: reading never changes the data set and never holds on to it."""
import gc, hashlib, os, random, stat, sys
from vp import Spec, main

DAMAGE = {"h5": [None, None, "truncate", "garbage", "empty"], "npy": [None, None, "truncate", "garbage", "empty", "noimg1", "badimg", "cutimg"],
          "mat": [None, None, "truncate", "garbage", "empty", "noV", "flat", "text"]}


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        fmt = ("npy", "h5", "mat")[k % 3]
        how = ("files", "files", "prefetch", "episodic" if fmt == "mat" else "files", "speeds" if fmt == "h5" else "prefetch", "pipeline")[(k // 3) % 6]
        nf = rng.randint(9, 16)
        bad = {i: rng.choice(DAMAGE[fmt]) for i in range(nf) if rng.random() < .3} if how in ("files", "prefetch") else {}
        yield dict(fmt=fmt, how=how, nf=nf, sl=rng.choice([1, 1, 2, 3]), images=(fmt == "mat" or fmt == "npy" and how != "pipeline") and (rng.random() < .5 or how == "episodic"),
                   bad={str(i): d for i, d in bad.items() if d}, readonly=how in ("files", "prefetch", "speeds", "episodic") and rng.random() < .5, v73=rng.choice([True, False, "mix"]),
                   chop=[rng.choice([1, 2, 3, 5]) for _ in range(4)], loop=rng.random() < .3, shuffle=rng.random() < .4, buf=rng.choice([1, 2, 4]),
                   stop=rng.choice(["end", "end", "middle"]), resets=rng.choice([0, 1]), seed=rng.randrange(10 ** 6))


class Watch:
    """What the process does to the files below `root` (audit events of the interpreter, open modes of HDF5 files)."""
    root, events = None, []
    installed = False
    MUT = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.utime", "os.truncate", "os.link", "os.symlink", "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.setxattr"}

    @classmethod
    def install(cls):
        if cls.installed:
            return
        cls.installed = True
        sys.addaudithook(cls.hook)
        import h5py
        init = h5py.File.__init__

        def traced(self, name, mode="r", *a, **k):
            cls.opened(name, mode)
            return init(self, name, mode, *a, **k)
        h5py.File.__init__ = traced

    @classmethod
    def below(cls, p):
        try:
            return cls.root is not None and os.path.abspath(os.fsdecode(p)).startswith(cls.root)
        except Exception:
            return False

    @classmethod
    def opened(cls, name, mode):
        if cls.below(name):
            cls.events.append(("h5-open", mode, os.path.basename(os.fsdecode(name))))

    @classmethod
    def hook(cls, ev, args):
        if cls.root is None:
            return
        if ev == "open":
            path, mode, flags = args
            if isinstance(path, (str, bytes, os.PathLike)) and cls.below(path):
                w = (flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or (mode and any(ch in mode for ch in "wxa+"))
                cls.events.append(("open-write" if w else "open", mode, os.path.basename(os.fsdecode(path))))
        elif ev in cls.MUT and any(isinstance(a, (str, bytes)) and cls.below(a) for a in args):
            cls.events.append(("change", ev, str(args)[:200]))


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            row = [stat.filemode(st.st_mode), st.st_size if not os.path.isdir(p) else None, st.st_mtime_ns, st.st_ino]
            if os.path.isfile(p):
                row.append(hashlib.sha1(open(p, "rb").read()).hexdigest())
            out[os.path.relpath(p, root)] = row
    st = os.lstat(root)
    out["."] = [stat.filemode(st.st_mode), None, st.st_mtime_ns, st.st_ino]
    return out


def held(root):
    """Descriptors and mappings of this process below root."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(root):
            out.append(f"fd {fd} " + os.path.relpath(p, root))
    with open("/proc/self/maps") as f:
        for line in f:
            if root in line:
                out.append("mapping " + os.path.relpath(line.rstrip("\n").split(None, 5)[5], root))
    return sorted(set(out))


def run(ctx, c):
    Watch.install()
    from damage import damage
    from world import World, name
    r = random.Random(c["seed"])
    tmp = ctx.tmp()
    root = os.path.join(tmp, "data")
    os.mkdir(root)
    root = os.path.realpath(root)
    fmt = c["fmt"]
    if c["how"] == "episodic":
        from tree import Tree
        t = Tree(root, [c["nf"] // 2 + 2, c["nf"] // 2 + 3], images=c["images"])
        files, hw, w = t.files, t.hw, None
    elif c["how"] == "pipeline":
        import pipes
        ds = pipes.Dataset(root, fmt, [("d", c["nf"], c["sl"])], images=c["images"])
        files, w = ds.files, None
    else:
        w = World(root, fmt, (4, 5), images=c["images"], v73=c["v73"], rng=r)
        files = [w.add("d/" + name(fmt, 3 * k + 1), c["sl"] if fmt == "h5" else 1) for k in range(c["nf"])]
        for i, k in c["bad"].items():
            if k in ("noimg1",) or (not c["images"] and k in ("badimg", "cutimg")):
                continue
            damage(files[int(i)], k, dict(fmt=fmt), r, w)
            ctx.event("damaged-files")
    # settle the timestamps a careless reader could leave unchanged
    for d, ds_, fs in os.walk(root, topdown=False):
        for n in fs + ds_:
            p = os.path.join(d, n)
            if c["readonly"]:
                os.chmod(p, 0o555 if os.path.isdir(p) else 0o444)
            os.utime(p, ns=(10 ** 18, 10 ** 18))
    os.utime(root, ns=(10 ** 18, 10 ** 18))
    before = snapshot(root)
    d = root
    while c["readonly"] and d != "/tmp" and len(d) > 4:
        if os.stat(d).st_uid == os.getuid() and d != root:
            os.chmod(d, os.stat(d).st_mode | 0o755)
        d = os.path.dirname(d)
    what = lambda: f"{fmt} {c['how']} images={c['images']} damage={c['bad']} readonly={c['readonly']} loop={c['loop']}"
    Watch.events.clear()
    Watch.root = root
    most, delivered = 0, 0
    as_user = c["readonly"] and os.getuid() == 0
    if as_user:
        os.setegid(65534)
        os.seteuid(65534)
    try:
        if c["how"] == "speeds":
            from synthpix import sanity
            sanity.calculate_min_and_max_speeds(list(files))
            delivered = 1
        else:
            delivered, most = read(ctx, c, files, w, root, locals().get("ds"), r)
    finally:
        if as_user:
            os.seteuid(0)
            os.setegid(0)
        Watch.root = None
    gc.collect()
    left = held(root)
    ctx.check(not left, "still-held-at-the-end", lambda: f"{what()}: {left[:5]} ({len(left)}) after everything was shut down and released")
    ctx.check(most <= 4, "files-pile-up", lambda: f"{what()}: up to {most} files of the data set open or mapped at once while reading {len(files)} files")
    bad = [e for e in Watch.events if e[0] in ("open-write", "change") or (e[0] == "h5-open" and e[1] != "r")]
    ctx.check(not bad, "opened-for-writing", lambda: f"{what()}: {bad[:4]}")
    after = snapshot(root)
    diff = {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)}
    ctx.check(not diff, "data-set-changed", lambda: f"{what()}: {dict(list(diff.items())[:3])}")
    ctx.event("files-watched", len(before))
    ctx.event("open-events", len(Watch.events))
    ctx.event("batches", delivered)
    if as_user:
        ctx.event("read-only-runs")
        if w is not None and not c["bad"]:
            ctx.check(delivered > 0, "read-only-data-unreadable", lambda: f"{what()}: nothing was delivered from readable files without write permission")
    ctx.nontrivial(fmt, c["how"], c["images"], c["readonly"], sorted(c["bad"].values()), c["loop"], c["chop"])


def read(ctx, c, files, w, root, ds, r):
    fmt, most, n = c["fmt"], 0, 0
    lst = list(files)
    if fmt != "npy" and c["how"] != "pipeline" and r.random() < .5 and not c["images"]:
        lst = [os.path.join(root, "d")] if c["how"] != "episodic" else lst

    def look():
        nonlocal most
        k = len(held(root))
        if k > 2:
            gc.collect()
            k = len(held(root))
        most = max(most, k)

    if c["how"] == "pipeline":
        import pipes
        kw = dict(batch_size=2) if ds.images else dict(batch_size=3)
        s = pipes.make(pipes.config(ds, flow_fields_per_batch=2, buffer_size=c["buf"], seed=c["seed"], randomize=c["shuffle"], **kw))
        try:
            for b in s:
                n += 1
                look()
        finally:
            s.shutdown()
        return n, most
    if c["how"] == "episodic":
        from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler
        from synthpix.scheduler.protocol import EpisodeEnd
        import jax
        base = MATFlowFieldScheduler(lst, include_images=c["images"], output_shape=(3, 4), loop=True)
        s = EpisodicFlowFieldScheduler(base, 2, 3, jax.random.PRNGKey(c["seed"] % 99))
        for k in range(4):
            try:
                while True:
                    s.get_batch(2)
                    n += 1
                    look()
            except EpisodeEnd:
                s.next_episode()
        s.shutdown()
        return n, most
    s = w.scheduler(lst, loop=c["loop"], randomize=c["shuffle"])
    B = c["chop"][0]
    if c["how"] == "prefetch":
        from synthpix.scheduler import PrefetchingFlowFieldScheduler
        s = PrefetchingFlowFieldScheduler(s, batch_size=B, buffer_size=c["buf"], startup_timeout=20, steady_state_timeout=20)
    limit = 25 if c["stop"] == "end" else 4
    for p in range(1 + c["resets"]):
        for k in range(limit):
            try:
                s.get_batch(B if c["how"] == "prefetch" else c["chop"][k % 4])
            except StopIteration:
                break
            n += 1
            look()
        s.reset()
    s.shutdown()
    return n, most


main(Spec("Q01", cases, run,
          "data sets (with damaged files, read-only and read by an unprivileged user in part) watched while schedulers, episodes, prefetching, speed calculation and whole pipelines read them: contents, times, modes, "
          "open modes, descriptors and mappings; non-trivial: distinct (format, reader, images, read-only, damage, options)",
          quick=180, thorough=4000, workers=(6, 8), quick_s=100, thorough_s=500,
          floors={"batches": 600, "files-watched": 1500, "read-only-runs": 30, "damaged-files": 60}))
