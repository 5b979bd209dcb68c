"""Harness shared by all checks: case generation, sharding, monitors' verdicts, evidence.

A check is a script in checks/ that calls main(Spec(...)).  The parent process never
imports the code under test: it starts W shard processes which do, each with its
standard output in a log file (the code under test prints), collects their
observations and decides.  Verdicts are three-valued: exit 0 (held on everything
observed), exit 1 (violated, with a replay file), exit 2 (inconclusive: a monitor was not
reached often enough, or the harness itself failed).
"""
from __future__ import annotations
import argparse, collections, hashlib, json, os, random, shutil, signal, socket, subprocess, sys
import tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "synthpix")


class Hang(BaseException):
    pass


class HarnessError(BaseException):
    """The harness (a stub, a writer, ...) failed: never blamed on the code under test."""


class Spec:
    def __init__(self, pid, cases, run, rule, *, floors=None, quick=200, thorough=4000,
                 quick_s=60, thorough_s=420, workers=(6, 8), case_timeout=120, devices=1,
                 min_evals=None, min_nontrivial=None, assumptions=(), env=None, final=None,
                 level="exploration"):
        self.pid, self.cases, self.run, self.rule = pid, cases, run, rule
        self.floors = floors or {}
        self.quick, self.thorough = quick, thorough
        self.quick_s, self.thorough_s = max(300, quick_s), thorough_s
        self.workers = workers
        self.case_timeout = case_timeout
        self.devices = devices
        self.min_evals, self.min_nontrivial = min_evals, min_nontrivial
        self.assumptions = list(assumptions)
        self.env = env or {}
        self.final = final          # final(agg, fail): verdict over merged statistics
        self.level = level


def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


class Ctx:
    """What a monitor reports to, for one case."""

    def __init__(self, shard_dir, case):
        self.case = case
        self.fails = []
        self.events = collections.Counter()
        self.keys = set()
        self.acc = []               # rows for Spec.final (offline checking of the merged log)
        self._dirs = []
        self.base = shard_dir

    def fail(self, kind, msg):
        self.fails.append((kind, str(msg)[:1500]))

    def check(self, ok, kind, msg):
        if not ok:
            self.fail(kind, msg() if callable(msg) else msg)
        return bool(ok)

    def event(self, name, n=1):
        self.events[name] += int(n)

    def nontrivial(self, *key):
        self.keys.add(dig(key) if key else dig(self.case))

    def row(self, name, value):
        self.acc.append((name, value))

    def tmp(self):
        d = tempfile.mkdtemp(dir=self.base)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def in_synthpix(tb):
    return any(os.path.abspath(f.filename).startswith(SRC) for f in traceback.extract_tb(tb))


def run_case(spec, ctx):
    """Runs one case under the watchdog. Returns None or a harness error text."""
    def on_alarm(*_):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(spec.case_timeout)
    try:
        spec.run(ctx, ctx.case)
        return None
    except Hang:
        tb = traceback.format_exc(limit=-6)
        if in_synthpix(sys.exc_info()[2]):
            ctx.fail("no-progress", f"no result within {spec.case_timeout} s:\n{tb}")
            return None
        return f"case did not finish within {spec.case_timeout} s outside the code under test:\n{tb}"
    except HarnessError:
        return traceback.format_exc()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if in_synthpix(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__)
                    if os.path.abspath(f.filename).startswith(SRC)][-1]
            ctx.fail("unexpected-" + type(e).__name__,
                     f"{type(e).__name__}: {e} in {os.path.basename(last.filename)}:{last.name} "
                     f"on an input the property covers\n{traceback.format_exc(limit=-8)}")
            return None
        return traceback.format_exc()
    finally:
        signal.alarm(0)
        ctx.cleanup()


def shard_main(spec, args):
    i, w = map(int, args.shard.split("/"))
    out = args.out
    base = tempfile.mkdtemp(prefix="s%d_" % i, dir=os.path.dirname(out))
    import quietbus
    quietbus.install()
    import synthpix
    got = os.path.dirname(os.path.abspath(synthpix.__file__))
    if got != SRC:
        raise SystemExit(f"synthpix imported from {got}, expected {SRC}")
    rng = random.Random(f"{args.seed}-{spec.pid}")
    n = getattr(spec, args.tier)
    limit = spec.quick_s if args.tier == "quick" else spec.thorough_s
    t0 = time.monotonic()
    res = dict(evals=0, events=collections.Counter(), keys=set(), viol=[], harness=[], samples=[], rows=[], cut=False)
    for k, case in enumerate(spec.cases(rng, args.tier)):
        if k >= n:
            break
        if k % w != i:
            continue
        if time.monotonic() - t0 > limit:
            res["cut"] = True
            break
        ctx = Ctx(base, json.loads(json.dumps(case)))
        err = run_case(spec, ctx)
        res["evals"] += 1
        res["events"].update(ctx.events)
        res["keys"] |= ctx.keys
        res["rows"].extend(ctx.acc)
        if err:
            res["harness"].append(dict(case=case, error=err))
        seen = {v["kind"] for v in res["viol"]}
        for kind, msg in ctx.fails:
            if kind not in seen:
                seen.add(kind)
                res["viol"].append(dict(kind=kind, msg=msg, case=case))
        if len(res["samples"]) < 3 and ctx.keys:
            res["samples"].append(dict(case=case, observed=dict(ctx.events)))
        if len(res["harness"]) > 5:
            break
        if os.environ.get("VERIF_FAILFAST"):        # mutation sweeps (tools/mutate.py): one violation is enough
            stop = os.path.join(os.path.dirname(out), "stop")
            if res["viol"]:
                open(stop, "w").close()
            if os.path.exists(stop):
                res["cut"] = True
                break
    shutil.rmtree(base, ignore_errors=True)
    res["events"] = dict(res["events"])
    res["keys"] = sorted(res["keys"])
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=_js)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def _js(x):
    try:
        return x.item()
    except Exception:
        try:
            return x.tolist()
        except Exception:
            return str(x)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                d = dict(t.split("=", 1) for t in line.split()[1:3])
                out.append((d["property"], d["kind"], line.split(None, 3)[3].strip()))
    return out


def child_env(spec, cache):
    e = dict(os.environ)
    e["GOGGLES_PORT"] = str(free_port())
    if spec.devices > 1:
        e["XLA_FLAGS"] = f"--xla_force_host_platform_device_count={spec.devices}"
    e.setdefault("OMP_NUM_THREADS", "1")
    e["JAX_COMPILATION_CACHE_DIR"] = cache
    e["JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS"] = "0"
    e["JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES"] = "0"
    e.update(spec.env)
    return e


def main(spec):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--shard"); ap.add_argument("--out"); ap.add_argument("--replay")
    args = ap.parse_args()
    if args.replay and args.shard is None:
        return replay(spec, args)
    if args.shard:
        if args.replay:
            data = json.load(open(args.replay))
            cs = data["case"]
            spec.cases = lambda rng, tier: iter([cs])
        try:
            return shard_main(spec, args)
        except SystemExit as e:
            print(e, file=sys.stderr)
            sys.stderr.flush()
            os._exit(3)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(3)
    return parent(spec, args)


def parent(spec, args, replaying=None):
    t0 = time.monotonic()
    w = spec.workers[0 if args.tier == "quick" else 1]
    if replaying:
        w = 1
    tmp = tempfile.mkdtemp(prefix=f"vp_{spec.pid}_")
    procs = []
    try:
        for i in range(w):
            out = os.path.join(tmp, f"r{i}.json")
            log = open(os.path.join(tmp, f"log{i}"), "wb")
            cmd = [sys.executable, "-u", os.path.abspath(sys.argv[0]), "--tier", args.tier, "--seed", str(args.seed),
                   "--shard", f"{i}/{w}", "--out", out]
            if replaying:
                cmd += ["--replay", replaying]
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                           env=dict(child_env(spec, os.path.join(tmp, "jaxcache")), TMPDIR=tmp), start_new_session=True),
                          out, log.name))
        hard = 820 if args.tier == "quick" else 3000
        res, problems = [], []
        for p, out, log in procs:
            left = hard - (time.monotonic() - t0)
            try:
                p.wait(timeout=max(1, left))
            except subprocess.TimeoutExpired:
                problems.append("a shard did not finish in time")
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            if os.path.exists(out):
                res.append(json.load(open(out)))
            else:
                tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
                problems.append(f"a shard ended with status {p.returncode} and no result:\n{tail}")
        return decide(spec, args, res, problems, time.monotonic() - t0, replaying)
    finally:
        for p, _, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def decide(spec, args, res, problems, wall, replaying):
    events = collections.Counter()
    keys, viol, samples, rows, evals, cut = set(), {}, [], collections.defaultdict(list), 0, False
    for r in res:
        evals += r["evals"]
        events.update(r["events"])
        keys |= set(r["keys"])
        cut |= r["cut"]
        samples += r["samples"][:2]
        for name, v in r["rows"]:
            rows[name].append(v)
        for v in r["viol"]:
            viol.setdefault(v["kind"], v)
        for h in r["harness"]:
            problems.append("harness error in case %s:\n%s" % (json.dumps(h["case"], default=str)[:600], h["error"][-2500:]))
    if spec.final and not replaying:
        def fail(kind, msg):
            viol.setdefault(kind, dict(kind=kind, msg=str(msg)[:1500], case=dict(merged_log=True)))
        try:
            spec.final(rows, events, fail)
        except Exception:
            problems.append("offline checker failed:\n" + traceback.format_exc())
    known = known_findings()
    lines, n_viol = [], 0
    for kind, v in sorted(viol.items()):
        hit = [k for k in known if k[0] == spec.pid and k[1] == kind]
        if hit:
            lines.append(f"KNOWN-FINDING: property={spec.pid} {hit[0][2]}")
            continue
        n_viol += 1
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in kind)[:60]
        path = os.path.join(d, f"{spec.pid}-{safe}.json")
        with open(path, "w") as f:
            json.dump(dict(property=spec.pid, kind=kind, message=v["msg"], case=v["case"], tier=args.tier, seed=args.seed),
                      f, indent=1, default=_js)
        lines.append(f"VIOLATION property={spec.pid} replay={path}")
        lines.append(f"  {kind}: {v['msg'][:700]}")
    if not replaying:
        ev = dict(property=spec.pid, tier=args.tier, seed=int(args.seed) if str(args.seed).lstrip("-").isdigit() else 0,
                  level=spec.level,
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=spec.rule,
                                samples=samples[:6] or [dict(note="no case completed")],
                                observed={k: int(v) for k, v in sorted(events.items())}, cut_short_by_time=cut),
                  assumptions=spec.assumptions, wall_s=round(wall, 2), violations=n_viol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", spec.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        os.replace(p + ".tmp", p)
        if not n_viol:
            scale = 1 if args.tier == "quick" else 1
            for k, v in spec.floors.items():
                if events.get(k, 0) < v * scale:
                    problems.append(f"coverage floor missed: observed {events.get(k, 0)} '{k}' events, need {v}")
            if len(keys) < (spec.min_nontrivial or 3):
                problems.append(f"only {len(keys)} distinct non-trivial cases")
    print(f"{spec.pid} {args.tier} seed={args.seed}: {evals} cases, {len(keys)} distinct non-trivial, "
          f"{n_viol} violation kinds, {wall:.1f} s", flush=True)
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(events.items())), flush=True)
    if lines:
        print("\n".join(lines), flush=True)
    if n_viol:
        for p in problems[:3]:
            print("  note: " + p[:800], file=sys.stderr, flush=True)
        sys.exit(1)
    if problems:
        for p in problems[:5]:
            print("INCONCLUSIVE " + p, flush=True)
        sys.exit(2)
    sys.exit(0)


def replay(spec, args):
    data = json.load(open(args.replay))
    args.seed, args.tier = data["seed"], data["tier"]
    if data["case"].get("merged_log"):
        return parent(spec, args)
    return parent(spec, args, replaying=os.path.abspath(args.replay))
