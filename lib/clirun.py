"""Runs one of the project's scripts as the user does (runpy, __main__), recording what it draws and what it leaves running.

argv: script, output json, then the script's own arguments.  Standard input holds the user's answers."""
import json, os, runpy, sys, threading, time


def install(rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.axes
    import matplotlib.figure
    import numpy as np
    quiver, save, imsave = matplotlib.axes.Axes.quiver, matplotlib.figure.Figure.savefig, None

    def q(self, *a, **k):
        args = [np.asarray(x) for x in a]
        if len(args) >= 4:
            X, Y, U, V = (x.astype(float).ravel().tolist() for x in args[:4])
            self.figure._arrows = [X, Y, U, V]
        return quiver(self, *a, **k)

    def s(self, fname, *a, **k):
        rec["arrows"][os.path.abspath(str(fname))] = getattr(self, "_arrows", None)
        return save(self, fname, *a, **k)
    matplotlib.axes.Axes.quiver, matplotlib.figure.Figure.savefig = q, s
    start = threading.Thread.start
    started = []

    def st(self, *a, **k):
        f = sys._getframe(1)
        for _ in range(8):
            if f is None:
                break
            if "/synthpix/" in f.f_code.co_filename:
                started.append(self)
                break
            f = f.f_back
        return start(self, *a, **k)
    threading.Thread.start = st
    return started


def main():
    script, out = sys.argv[1:3]
    import quietbus
    quietbus.install()
    rec = dict(arrows={}, code=None, left=[], started=0)
    started = install(rec)
    sys.argv = [script] + sys.argv[3:]
    sys.path.insert(0, os.path.dirname(script))
    try:
        runpy.run_path(script, run_name="__main__")
        rec["code"] = 0
    except SystemExit as e:
        rec["code"] = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException as e:
        rec["code"] = 1
        rec["error"] = f"{type(e).__name__}: {e}"[:600]
    t = time.time()
    while any(x.is_alive() for x in started) and time.time() - t < 15:
        time.sleep(.05)
    rec["started"] = len(started)
    rec["left"] = [x.name for x in started if x.is_alive()]
    with open(out + ".part", "w") as f:
        json.dump(rec, f)
    os.replace(out + ".part", out)
    sys.stdout.flush()
    os._exit(0)


main()
