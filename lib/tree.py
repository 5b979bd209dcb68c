"""Directory trees of numbered MATLAB frames for episode checks."""
import os
import numpy as np
from data import write_mat, coded, gray


class Tree:
    def __init__(self, root, lens, hw=(3, 4), images=False, nested=False, skip=0, value=None, samename=False, odd=None, dirs=None):
        """lens: frames per sequence; odd: random source for frame names of different lengths; dirs: random source for
        directory names that begin with, or sort apart from, one another's. tag[path] = (sequence, frame)."""
        self.root, self.hw, self.tag, self.flow, self.im = root, hw, {}, {}, {}
        self.seqs = []
        u = 1
        seq = [f"seq_{k:02d}" for k in range(len(lens))]
        if dirs is not None:
            seq = [["s", "seq", "seq_", "seq1", "seq10", "seq-1", "seq 2", "seq.2", "Seq1", "0", "01", "010", "run,v", "_s"][k] if k < 14 else f"seq1{k}" for k in dirs.sample(range(max(14, len(lens))), len(lens))]
        for k, n in enumerate(lens):
            d = os.path.join(root, f"grp{k % 2}" if nested else "", seq[k], *(["frames"] if samename else []))
            os.makedirs(d)
            fs = []
            names = [f"{i + skip:04d}" for i in range(n)]
            if odd is not None:
                names = set()
                while len(names) < n:
                    names.add("".join(odd.choice("01289abXY_-") for _ in range(odd.choice([1, 2, 3, 5]))))
                names = sorted(names, key=lambda b: b + ".mat")
            for i in range(n):
                p = os.path.join(d, names[i] + ".mat")
                u += 1
                V = coded(hw + (2,), u) if value is None else np.full(hw + (2,), value(k, i), np.float32)
                arrs = dict(V=V)
                if images:
                    self.im[p] = (gray(hw, 2 * u), gray(hw, 2 * u + 1))
                    arrs.update(I0=self.im[p][0], I1=self.im[p][1])
                write_mat(p, False, **arrs)
                self.tag[p], self.flow[p] = (k, i), V
                fs.append(p)
            self.seqs.append(fs)
        self.files = [f for s in self.seqs for f in s]

    def lookup(self, f):
        return self.tag.get(os.path.normpath(f))


class EpisodeMonitor:
    """Online monitor of one lane-parallel episode stream."""

    def __init__(self, ctx, tree, L, B, listed=None, images=False):
        self.ctx, self.tree, self.L, self.B, self.images = ctx, tree, L, B, images
        self.listed = None if listed is None else {os.path.normpath(f) for f in listed}
        self.cmp = lambda got, want: np.array_equal(got, want.astype(got.dtype))
        self.new("start")

    def new(self, why):
        self.why, self.t, self.lanes = why, 0, None

    def step(self, flow, files, mask, im1=None, im2=None, cast=False):
        ctx, what = self.ctx, f"step {self.t} of episode (L={self.L}) after {self.why}"
        B = self.B
        if not ctx.check(len(flow) == B and files is not None and len(files) == B, "batch-size", f"{what}: {len(flow)} flows, files {files}"):
            return False
        ctx.check(mask is None or bool(np.all(np.asarray(mask))), "masked-entries", f"{what}: mask {mask}")
        tags = [self.tree.lookup(f) for f in files]
        if not ctx.check(None not in tags, "unknown-file", f"{what}: files {files}"):
            return False
        for i, (f, tg) in enumerate(zip(files, tags)):
            f = os.path.normpath(f)
            if self.listed is not None and not ctx.check(f in self.listed, "unlisted-file", f"{what}: {f}"):
                return False
            want = self.tree.flow[f]
            got = np.asarray(flow[i])
            if not ctx.check(self.cmp(got, want), "content-not-of-file", f"{what}: lane {i} names {f} but holds other data"):
                return False
            if self.images and im1 is not None:
                a, b = self.tree.im[f]
                ctx.check(np.array_equal(np.asarray(im1[i]), a) and np.array_equal(np.asarray(im2[i]), b), "image-not-of-file", f"{what}: lane {i}, {f}")
        if self.lanes is None:
            self.lanes = tags
            for i, (k, a) in enumerate(tags):
                last = len(self.tree.seqs[k]) - self.L
                if self.listed is None:
                    ctx.check(a <= last, "inadmissible-start", f"{what}: lane {i} starts at frame {a} of {last + self.L}")
            if len(set(tags)) < B:
                ctx.event("colliding-starts")
        else:
            for i, (k, a) in enumerate(tags):
                k0, a0 = self.lanes[i]
                if not ctx.check((k, a) == (k0, a0 + self.t), "not-consecutive", f"{what}: lane {i} started at {(k0, a0)}, now delivers {(k, a)}; all lanes {tags}"):
                    return False
        self.t += 1
        ctx.event("lane-steps", B)
        if self.t == self.L:
            ctx.event("complete-episodes")
        return ctx.check(self.t <= self.L, "episode-too-long", what)
