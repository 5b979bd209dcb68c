"""Independent writers of the supported file formats, with unique, recognisable contents."""
import os
import numpy as np


def write_h5(path, arr, name="flow"):
    import h5py
    with h5py.File(path, "w") as f:
        f.create_dataset(name, data=arr)


def write_npy(path, arr):
    np.save(path, arr)


def write_jpg(path, arr, quality=95):
    from PIL import Image
    Image.fromarray(arr).save(path, format="JPEG", quality=quality)


def read_jpg(path):
    from PIL import Image
    return np.array(Image.open(path).convert("RGB"))


def write_mat(path, v73, **arrays):
    """MATLAB level 5 through SciPy, or a v7.3 (HDF5) layout as this project's tests and data use it."""
    if v73:
        import h5py
        with h5py.File(path, "w") as f:
            for k, a in arrays.items():
                f.create_dataset(k, data=a)
    else:
        import scipy.io
        scipy.io.savemat(path, arrays)


def coded(shape, uid, dtype=np.float32):
    """Array of the given shape whose entries identify the sample (uid) and the position."""
    n = int(np.prod(shape))
    return (np.arange(n, dtype=np.float64).reshape(shape) / (4 * max(n, 1)) + uid).astype(dtype)


def uid_of(arr):
    """uid written by coded(), from the first entry (None if not recognisable)."""
    v = float(np.asarray(arr).ravel()[0])
    u = int(np.floor(v + 1e-3))
    return u if abs(v - u) < 1e-3 else None


def gray(shape, seed):
    return np.random.default_rng(seed).integers(0, 256, shape, dtype=np.uint8)


def sched_class(fmt):
    from synthpix.scheduler import HDF5FlowFieldScheduler, MATFlowFieldScheduler, NumpyFlowFieldScheduler
    return {"h5": HDF5FlowFieldScheduler, "mat": MATFlowFieldScheduler, "npy": NumpyFlowFieldScheduler}[fmt]
