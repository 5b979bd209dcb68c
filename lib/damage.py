"""Damage to files of a data set."""
import os


def damage(path, kind, c, r, w):
    fmt = c["fmt"]
    d, b = os.path.split(path)
    if kind == "deleted":
        os.remove(path)
    elif kind == "empty":
        open(path, "wb").close()
    elif kind in ("garbage", "text"):
        open(path, "wb").write(b"hello world\n" * 20 if kind == "text" else bytes(r.randrange(256) for _ in range(300)))
    elif kind == "objects":                         # an array of Python objects instead of numbers
        import numpy as np
        o = np.empty(w.hw + (2,), object)
        o[...] = r.choice([None, 1.5, "x"])
        np.save(path, o, allow_pickle=True)
    elif kind == "pickle":
        import pickle
        open(path, "wb").write(pickle.dumps([1.0] * 20))
    elif kind == "truncate":
        n = os.path.getsize(path)
        data = open(path, "rb").read()
        open(path, "wb").write(data[: max(1, int(n * r.choice([.1, .2, .3] + ([.5, .8, .97] if fmt != "mat" else []))))])
    elif kind == "group":
        import h5py
        with h5py.File(path, "w") as f:
            f.create_group("a").create_dataset("x", data=[1.0])
    elif kind == "nofield":
        import h5py
        h5py.File(path, "w").close()
    elif kind in ("noV", "noI1", "flat"):
        import numpy as np, data
        H, W = w.hw
        V = np.zeros((H, W, 2), np.float32) + 7777
        I = np.zeros((H, W), np.uint8)
        arrs = dict(V=V, I0=I, I1=I)
        if kind == "noV":
            del arrs["V"]
        elif kind == "noI1":
            del arrs["I1"]
        else:
            arrs["V"] = V[..., 0]
        os.remove(path)
        data.write_mat(path, r.random() < .5, **arrs)
    elif kind in ("noimg1", "noimg2", "badimg", "cutimg"):
        t = int(b[5:-4])
        p = f"{d}/img_{t - 1 if kind != 'noimg2' else t}.jpg"
        if kind == "badimg":
            open(p, "wb").write(b"not a jpeg")
        elif kind == "cutimg":                      # ends in the middle of the coefficients
            data = open(p, "rb").read()
            k = data.rindex(b"\xff\xda") + 14
            open(p, "wb").write(data[: k + max(1, int((len(data) - k) * r.choice([.1, .3, .6])))])
        elif os.path.exists(p):
            os.remove(p)
