"""On-disk data sets for the file schedulers, and what they must deliver."""
import os, random
import numpy as np
from data import *


class World:
    """files: list of absolute paths; samples[path] = list of dict(flow, im1, im2, uid)."""

    def __init__(self, root, fmt, hw, images=False, v73="mix", dtype="float32", chfirst=False, rng=None, channels=2):
        self.root, self.fmt, self.hw = root, fmt, tuple(hw)
        self.images, self.v73, self.dtype, self.chfirst, self.channels = images, v73, dtype, chfirst, channels
        self.rng = rng or random.Random(0)
        self.samples, self.order, self._uid = {}, [], 1

    def _flow(self, shape):
        self._uid += 1
        return coded(shape, self._uid, self.dtype), self._uid

    def add(self, rel, nslices=1):
        path = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        H, W = self.hw
        out = []
        if self.fmt == "h5":
            vol = np.zeros((H, nslices, W, self.channels), self.dtype)
            for s in range(nslices):
                f, u = self._flow((H, W, self.channels))
                vol[:, s] = f
                out.append(dict(flow=f, im1=None, im2=None, uid=u))
            write_h5(path, vol, self.rng.choice(["flow", "V", "data", "a"]))
        elif self.fmt == "npy":
            f, u = self._flow((H, W, 2))
            write_npy(path, f)
            out.append(dict(flow=f, im1=None, im2=None, uid=u))
            if self.images:
                t = int(os.path.basename(path)[5:-4])
                d = os.path.dirname(path)
                for tt in (t - 1, t):
                    p = f"{d}/img_{tt}.jpg"
                    if not os.path.exists(p):
                        self._uid += 1
                        write_jpg(p, gray((H, W, 3), self._uid))
                out[0]["im1"], out[0]["im2"] = read_jpg(f"{d}/img_{t-1}.jpg"), read_jpg(f"{d}/img_{t}.jpg")
        else:
            f, u = self._flow((H, W, 2))
            v73 = self.rng.random() < 0.5 if self.v73 == "mix" else self.v73
            cf = self.rng.random() < 0.5 if self.chfirst == "mix" else self.chfirst
            st = np.ascontiguousarray(np.transpose(f, (2, 0, 1))) if cf else f
            i1, i2 = gray((H, W), 2 * u), gray((H, W), 2 * u + 1)
            arrs = dict(V=st, I0=i1, I1=i2) if self.images else dict(V=st)
            write_mat(path, v73, **arrs)
            out.append(dict(flow=f, im1=i1 if self.images else None, im2=i2 if self.images else None, uid=u))
        self.samples[path] = out
        self.order.append(path)
        return path

    def scheduler(self, file_list, **kw):
        cls = sched_class(self.fmt)
        if self.fmt == "mat":
            kw.setdefault("output_shape", self.hw)
        if self.fmt != "h5":
            kw.setdefault("include_images", self.images)
        return cls(file_list, **kw)

    def expand(self, file_list):
        """Independent reading of 'directories expanded in sorted order'."""
        out = []
        for e in file_list:
            if os.path.isdir(e):
                found = []
                for d, dirs, fs in os.walk(e):
                    for f in fs:
                        if self.fmt == "npy":
                            if d == e and f.startswith("flow_") and f.endswith(".npy"):
                                found.append(os.path.join(d, f))
                        elif f.endswith("." + self.fmt):
                            found.append(os.path.join(d, f))
                out += sorted(found)
            else:
                out.append(e)
        return out

    def stream(self, paths):
        return [(p, k, s) for p in paths for k, s in enumerate(self.samples[p])]


def name(fmt, k, rng=None):
    return f"flow_{k}.npy" if fmt == "npy" else f"f{k:03d}.{fmt}"


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def check_batch(ctx, batch, n, expect, what, images=False):
    """batch must hold exactly the samples in `expect` (<= n), then zero padding."""
    fl = np.asarray(batch.flow_fields)
    if not ctx.check(fl.shape[0] == n, "batch-size", f"{what}: {fl.shape[0]} flow fields for batch size {n}"):
        return False
    mask = None if batch.mask is None else np.asarray(batch.mask)
    if not ctx.check(mask is not None and mask.shape == (n,), "mask-shape", f"{what}: mask {None if mask is None else mask.shape} for batch size {n}"):
        return False
    real = [True] * len(expect) + [False] * (n - len(expect))
    ok = ctx.check(mask.astype(bool).tolist() == real, "mask-wrong", lambda: f"{what}: mask {mask.tolist()} but {len(expect)} real samples were due")
    ok &= ctx.check(batch.files is not None and len(batch.files) == n, "files-length", lambda: f"{what}: files {batch.files}")
    if not ok:
        return False
    for i, (p, k, s) in enumerate(expect):
        if not ctx.check(same(fl[i], s["flow"]), "wrong-sample",
                         lambda: f"{what}: entry {i} should be sample {k} of {os.path.basename(p)} (uid {s['uid']}), got uid {uid_of(fl[i])}, shape {fl[i].shape}"):
            return False
        ok &= ctx.check(os.path.normpath(batch.files[i]) == os.path.normpath(p), "wrong-file-name", lambda: f"{what}: entry {i} comes from {p}, named {batch.files[i]}")
        if images:
            for nm in ("im1", "im2"):
                im = getattr(batch, "images" + nm[2])
                if not ctx.check(im is not None and len(im) == n, "images-missing", lambda: f"{what}: images{nm[2]} missing or of wrong length"):
                    return False
                ok &= ctx.check(same(im[i], s[nm]), "wrong-image", lambda: f"{what}: image {nm} of entry {i} is not the one stored with {p}")
    for i in range(len(expect), n):
        ok &= ctx.check(not np.any(fl[i]), "padding-not-zero", lambda: f"{what}: padded entry {i} is not zero")
        ok &= ctx.check(not batch.files[i], "padding-file-name", lambda: f"{what}: padded entry {i} has file name {batch.files[i]}")
        if images and batch.images1 is not None:
            ok &= ctx.check(not np.any(batch.images1[i]) and not np.any(batch.images2[i]), "padding-not-zero", lambda: f"{what}: padded images {i} not zero")
    return ok


def ended(s, n):
    """True if a request for n samples signals exhaustion (else the batch)."""
    try:
        return s.get_batch(n)
    except StopIteration:
        return None
