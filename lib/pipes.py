"""Whole pipelines: data sets on disk, configurations for synthpix.make, and stream digests."""
import contextlib, hashlib, io, json, os, random
import numpy as np
from data import write_h5, write_npy, write_mat, write_jpg, gray

STEP = 0.01          # constant velocity of sample u is (STEP * u, STEP * u / 2), measure units per second


def velocity(u):
    return STEP * u, STEP * u / 2


class Dataset:
    """Constant flow fields that identify their sample: samples[path] = [u, ...]; u counts from 1."""

    def __init__(self, root, fmt, layout, hw=(24, 24), images=False, order=None):
        """layout: list of (directory, number of files, slices per file)."""
        self.root, self.fmt, self.images = root, fmt, images
        self.hw = (256, 256) if fmt == "mat" and not images else tuple(hw)
        self.samples, self.files, todo = {}, [], []
        u = 0
        for d, n, sl in layout:
            os.makedirs(os.path.join(root, d), exist_ok=True)
            for i in range(n):
                p = os.path.join(root, d, f"flow_{i + 1:03d}.npy" if fmt == "npy" else f"{i:03d}.{fmt}")
                us = list(range(u + 1, u + 1 + (sl if fmt == "h5" else 1)))
                u = us[-1]
                self.samples[p] = us
                self.files.append(p)
                todo.append(p)
        for p in (todo if order is None else [todo[k] for k in order(len(todo))]):
            self.write(p)
        self.total = u

    def write(self, p):
        H, W = self.hw
        us = self.samples[p]
        if self.fmt == "h5":
            a = np.zeros((H, len(us), W, 2), np.float32)
            for k, u in enumerate(us):
                a[:, k, :, 0], a[:, k, :, 1] = velocity(u)
            write_h5(p, a)
            return
        a = np.zeros((H, W, 2), np.float32)
        a[..., 0], a[..., 1] = velocity(us[0])
        if self.fmt == "npy":
            write_npy(p, a)
        elif self.images:
            write_mat(p, False, V=a, I0=gray((H, W), 2 * us[0]), I1=gray((H, W), 2 * us[0] + 1))
        else:
            write_mat(p, False, V=a)


def config(ds, **kw):
    """A valid configuration over the data set, in pixels = measure units."""
    c = dict(scheduler_class="." + ds.fmt, file_list=list(ds.files), batch_size=4, flow_fields_per_batch=2, batches_per_flow_batch=1, seed=0, loop=False, randomize=False)
    if ds.images:
        c.update(include_images=True, image_shape=list(ds.hw))
    else:
        c.update(image_shape=[9, 11], img_offset=[6.0, 6.0], seeding_density_range=[0.03, 0.03], p_hide_img1=0.0, p_hide_img2=0.0,
                 diameter_ranges=[[1.0, 1.0]], diameter_var=0.0, intensity_ranges=[[100.0, 100.0]], intensity_var=0.0, rho_ranges=[[0.0, 0.0]], rho_var=0.0, dt=1.0,
                 noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0, flow_field_size=[float(ds.hw[0]), float(ds.hw[1])], resolution=1.0,
                 velocities_per_pixel=1.0, max_speed_x=1.0, max_speed_y=1.0, min_speed_x=0.0, min_speed_y=0.0, output_units="pixels")
    c.update(kw)
    return c


def make(cfg, patience=20.0):
    import synthpix
    with contextlib.redirect_stdout(io.StringIO()):
        s = synthpix.make(cfg)
    # a slow machine is no end of data: wait longer for background reads than the defaults of 2 and 30 seconds
    o = getattr(s, "scheduler", None)
    for _ in range(4):
        for n in ("startup_timeout", "steady_state_timeout"):
            if hasattr(o, n):
                setattr(o, n, max(patience, getattr(o, n)))
        o = getattr(o, "scheduler", None)
    return s


def dig_batch(b, root):
    h = hashlib.sha1()
    for f in ("images1", "images2", "flow_fields", "done", "mask"):
        v = getattr(b, f)
        if f == "done" and v is None:          # no episodes: the prefetching wrapper reports "not done" for every entry
            v = np.zeros(len(b.images1), bool)
        a = None if v is None else np.asarray(v)
        h.update(f"{f}:{None if a is None else (a.shape, str(a.dtype))}".encode())
        if a is not None:
            h.update(np.ascontiguousarray(a).tobytes())
    if b.params is not None:
        for f in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"):
            h.update(np.ascontiguousarray(np.asarray(getattr(b.params, f))).tobytes())
    h.update(repr(None if b.files is None else [os.path.relpath(x, root) if x else x for x in b.files]).encode())
    return h.hexdigest()[:16]


def stream(s, root, n, ops=()):
    """Digests of up to n batches; at step k the operation ops[k] ('reset'/'next') comes first."""
    from synthpix.scheduler.protocol import EpisodeEnd
    out = []
    ops = dict(ops)
    for k in range(n):
        o = ops.get(k)
        if o == "reset":
            s.reset()
            out.append("reset")
        elif o == "next":
            s.next_episode()
            out.append("next")
        try:
            out.append(dig_batch(next(s), root))
        except EpisodeEnd:
            out.append("episode-end")
            s.next_episode()
        except StopIteration:
            out.append("end")
            break
    return out


def build(job):
    """job: dict(root, fmt, layout, hw, images, cfg, n, ops, create) -> digests."""
    order = None
    if job.get("reverse"):
        order = lambda n: list(range(n))[::-1]
    ds = Dataset(job["root"], job["fmt"], [tuple(x) for x in job["layout"]], images=job["images"], order=order) if job.get("create", True) else \
        _describe(job)
    cfg = config(ds, **job["cfg"])
    if job.get("dirs"):
        cfg["file_list"] = sorted({os.path.dirname(f) for f in ds.files})
    s = make(cfg)
    try:
        return stream(s, job["root"], job["n"], [tuple(o) for o in job.get("ops", [])])
    finally:
        s.shutdown()


def _describe(job):
    d = Dataset.__new__(Dataset)
    d.write = lambda p: None
    Dataset.__init__(d, job["root"], job["fmt"], [tuple(x) for x in job["layout"]], images=job["images"])
    return d


if __name__ == "__main__":
    import sys, quietbus
    quietbus.install()
    jobs = json.load(open(sys.argv[1]))
    out = []
    for j in jobs:
        out.append(build(j))
    with open(sys.argv[2], "w") as f:
        json.dump(out, f)
    sys.stdout.flush()
    os._exit(0)
