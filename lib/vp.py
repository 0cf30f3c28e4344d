"""Check framework: builds cbindgen from /repo, drives Hypothesis in several
worker processes, shrinks failures into JSON replay files, writes evidence.

A check module (checks/cNN.py) provides:
  PROP         property id
  strategy(tier)   -> Hypothesis strategy yielding JSON-able cases
  check(case, ctx)  raises Violation when the property does not hold
  RULE         text: how cases are made and what is non-trivial
  N            {"quick": cases, "thorough": cases}
optional: ASSUMPTIONS, prepare(ctx) (runs once in the parent before forking),
          strategies(tier) -> [(name, strategy, check, weight)] instead of strategy/check.
"""
import hashlib, json, multiprocessing as mp, os, queue, re, resource, shutil, signal
import subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


class Violation(Exception):
    pass


class Discard(Exception):
    """the generated case is outside the domain (counted, never silent)"""


class HarnessError(Exception):
    pass


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PKG_", "CARGO_MANIFEST", "RUSTFLAGS", "CARGO_BUILD", "_CBINDGEN")):
            del e[k]
    e.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUST_BACKTRACE="0", LC_ALL="C.UTF-8",
             PATH="/opt/cython-3.0.2/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    return e


ENV = base_env()


def _find_rustc():
    try:
        r = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, capture_output=True, text=True, cwd="/")
        p = os.path.join(r.stdout.strip(), "bin", "rustc")
        if os.path.exists(p):
            return p
    except OSError:
        pass
    return "rustc"


_RUSTC = None


def rustc_path():
    global _RUSTC
    if _RUSTC is None:
        _RUSTC = _find_rustc()
    return _RUSTC


def run(cmd, cwd=None, inp=None, timeout=120, env=None, cpu=None):
    """subprocess with text output; a timeout is a harness error, never a violation."""
    def lim():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    try:
        p = subprocess.run(cmd, cwd=cwd, input=inp, capture_output=True, text=True, errors="replace",
                           timeout=timeout, env=env or ENV, preexec_fn=lim if cpu else None)
    except subprocess.TimeoutExpired:
        raise HarnessError("timeout: %r" % (cmd,))
    return p


def build_cbindgen():
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "cbindgen", "--manifest-path",
                        os.path.join(REPO, "Cargo.toml"), "--target-dir", target],
                       env=ENV, capture_output=True, text=True, cwd="/")
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise HarnessError("building cbindgen failed")
    return os.path.join(target, "debug", "cbindgen")


def build_helper():
    """the Builder API driver (helper/), linked against REPO's crate"""
    if os.environ.get("VP_HELPER"):
        return os.environ["VP_HELPER"]
    target = os.path.join(BUILD, "target")
    src = os.path.join(VERIF, "helper")
    hd = os.path.join(BUILD, "helper")
    # a copy in the build folder: cargo writes Cargo.lock next to the manifest, and the lock must follow REPO's
    os.makedirs(os.path.join(hd, "src"), exist_ok=True)
    man = read(os.path.join(src, "Cargo.toml")).replace('path = "/repo"', "path = %s" % json.dumps(REPO))
    for name, text in (("Cargo.toml", man), ("src/main.rs", read(os.path.join(src, "src/main.rs")))):
        f = os.path.join(hd, name)
        if not os.path.exists(f) or read(f) != text:
            write(f, text)
    lock = os.path.join(hd, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(hd, "Cargo.toml"), "--target-dir", target],
                       env=ENV, capture_output=True, text=True, cwd="/")
    if r.returncode != 0:
        sys.stderr.write(r.stdout + r.stderr)
        raise HarnessError("building the helper failed")
    return os.path.join(target, "debug", "vphelper")


class Ctx:
    """what a check sees: scratch directory, the cbindgen binary, counters."""

    def __init__(self, cbindgen, tier, scratch):
        self.cbindgen, self.tier, self.dir = cbindgen, tier, scratch
        self.labels = {}
        self.nontriv = False
        self.evals = 0
        self.n = 0
        self.shared = {}

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self, flag=True):
        if flag:
            self.nontriv = True

    def evaluated(self, n=1):
        """extra oracle evaluations inside one case (informational)"""
        self.evals += n

    def fresh(self):
        """an empty scratch directory for this case"""
        d = os.path.join(self.dir, "case")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def helper(self, d, req, env=None):
        """one request to the Builder API driver (checks with HELPER = True)"""
        return run([self.shared["helper"]], cwd=d, inp=json.dumps(req), env=env, timeout=120)

    def bindgen(self, d, args, stdin=None, env=None):
        return run([self.cbindgen] + args, cwd=d, inp=stdin, env=env, timeout=120)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(text)


def read(path):
    with open(path, newline="", errors="replace") as f:
        return f.read()


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# --------------------------------------------------------------------- worker
def _worker(mod, parts, seed, tier, cbindgen, wid, deadline, q, shared):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, Verbosity
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = tempfile.mkdtemp(prefix="vp%d_" % wid, dir=_scratch_root())
    os.environ["TMPDIR"] = ENV["TMPDIR"] = scratch
    ctx = Ctx(cbindgen, tier, scratch)
    ctx.shared = shared
    st = dict(evaluations=0, inner=0, nontrivial=set(), samples=[], discards=0, labels=ctx.labels, failure=None,
              error=None, timeup=False)
    try:
        for (pname, strat, chk, count) in parts:
            if count <= 0 or st["failure"]:
                continue
            state = dict(best=None, first_fail=None, cache={})

            def body(case):
                h = case_hash(case)
                msg = state["cache"].get(h)
                if msg is None:
                    if state["first_fail"] is not None and time.time() - state["first_fail"] > SHRINK_S:
                        return
                    if state["first_fail"] is None and time.time() > deadline:
                        st["timeup"] = True
                        return
                    ctx.nontriv = False
                    st["evaluations"] += 1
                    try:
                        chk(case, ctx)
                    except Discard as e:
                        st["discards"] += 1
                        ctx.label("discard:" + str(e)[:60])
                        return
                    except Violation as e:
                        msg = state["cache"][h] = str(e)
                        if state["first_fail"] is None:
                            state["first_fail"] = time.time()
                if msg is not None:
                    state["best"] = (case, msg)
                    # one raising line: Hypothesis tells failures apart by the raising location
                    raise Violation(msg)
                if ctx.nontriv:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2 and st["evaluations"] % 7 == 3:
                        st["samples"].append(dict(part=pname, case=case))
            test = given(strat)(body)
            test = settings(max_examples=count, database=None, deadline=None, derandomize=False,
                            phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet,
                            suppress_health_check=list(HealthCheck), print_blob=False,
                            report_multiple_bugs=False)(test)
            test = hypothesis.seed(int(hashlib.sha256(("%s/%s/%d/%d" % (mod.PROP, pname, seed, wid)).encode()).hexdigest()[:12], 16))(test)
            try:
                test()
            except Violation:
                st["failure"] = dict(part=pname, case=state["best"][0], message=state["best"][1])
            except HarnessError as e:
                st["error"] = "HarnessError: %s" % e
                break
            except BaseException as e:  # noqa
                if state["best"] is not None:
                    st["failure"] = dict(part=pname, case=state["best"][0], message=state["best"][1])
                else:
                    st["error"] = traceback.format_exc()
                    break
    except BaseException:
        st["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    st["inner"] = ctx.evals
    st["nontrivial"] = sorted(st["nontrivial"])
    q.put((wid, st))


SHRINK_S = float(os.environ.get("VP_SHRINK_S", "60"))


def _scratch_root():
    d = os.environ.get("VP_SCRATCH", "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp")
    return d


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r.get("property") == prop and r.get("status") == "known":
                    res.append(r)
    return res


def parts_of(mod, tier, n):
    if hasattr(mod, "strategies"):
        l = mod.strategies(tier)
        tot = sum(w for *_, w in l)
        return [(nm, s, c, max(1, int(round(n * w / tot)))) for nm, s, c, w in l]
    return [("main", mod.strategy(tier), mod.check, n)]


def check_fn(mod, tier, part):
    if hasattr(mod, "strategies"):
        for nm, s, c, w in mod.strategies(tier):
            if nm == part:
                return c
        raise HarnessError("unknown part " + part)
    return mod.check


def main(mod, argv):
    t0 = time.time()
    prop = mod.PROP
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    nover = None
    workers = int(os.environ.get("VP_WORKERS", "8"))
    i = 0
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]; i += 2
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--n":
            nover = int(argv[i + 1]); i += 2
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 2
        else:
            print("bad argument", argv[i]); return 3
    cbindgen = os.environ.get("VP_CBINDGEN") or build_cbindgen()
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vpm_", dir=_scratch_root())
    try:
        ctx = Ctx(cbindgen, tier, scratch)
        if getattr(mod, "HELPER", False):
            ctx.shared["helper"] = build_helper()
        if hasattr(mod, "prepare"):
            mod.prepare(ctx)
        if replay:
            r = json.load(open(replay))
            try:
                check_fn(mod, tier, r.get("part", "main"))(r["case"], ctx)
            except Violation as e:
                print(e)
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            except Discard as e:
                print("discarded:", e)
                return 0
            print("replay holds")
            return 0
        return _explore(mod, prop, tier, seed, workers, cbindgen, ctx, nover, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _explore(mod, prop, tier, seed, workers, cbindgen, ctx, nover, t0, t_build):
    # known findings: replay each listed case; nothing is ever added here at run time
    knowns = 0
    for kf in known_findings(prop):
        try:
            check_fn(mod, tier, kf.get("part", "main"))(kf["case"], ctx)
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
            knowns += 1
        except Discard:
            pass
    failures = []
    # committed regression cases: plain replays, always part of the run
    regdir = os.path.join(VERIF, "regress", prop)
    nreg = 0
    if os.path.isdir(regdir):
        for f in sorted(os.listdir(regdir)):
            r = json.load(open(os.path.join(regdir, f)))
            nreg += 1
            try:
                check_fn(mod, tier, r.get("part", "main"))(r["case"], ctx)
            except Violation as e:
                failures.append(dict(part=r.get("part", "main"), case=r["case"], message=str(e)))
            except Discard:
                pass
    n = nover or mod.N[tier]
    per = max(1, (n + workers - 1) // workers)
    limit = {"quick": 420, "thorough": 3000}[tier]
    deadline = t0 + float(os.environ.get("VP_LIMIT_S", limit))
    sts = []
    err = None
    if not failures:
        q = mp.Queue()
        procs = []
        parts = parts_of(mod, tier, per)
        for w in range(workers):
            p = mp.Process(target=_worker, args=(mod, parts, seed, tier, cbindgen, w, deadline, q, ctx.shared))
            p.start()
            procs.append(p)
        got = 0
        while got < workers:
            try:
                wid, st = q.get(timeout=5)
            except queue.Empty:
                dead = [p for p in procs if not p.is_alive()]
                if len(dead) == workers and q.empty():
                    break
                for p in dead:
                    if p.exitcode not in (0, None):
                        err = err or "worker died with exit %s" % p.exitcode
                if err and all((not p.is_alive()) for p in procs):
                    break
                if time.time() > deadline + 240:
                    err = "workers did not finish"
                    break
                if err and got + len([p for p in dead if p.exitcode != 0]) >= workers:
                    break
                continue
            got += 1
            sts.append(st)
            if st["error"]:
                err = st["error"]
            if st["failure"]:
                failures.append(st["failure"])
                break
        for p in procs:
            if p.is_alive() and (failures or err):
                p.terminate()
        for p in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
    evaluations = sum(s["evaluations"] for s in sts) + nreg
    nontriv = set()
    labels = {}
    samples = []
    for s in sts:
        nontriv |= set(s["nontrivial"])
        samples += s["samples"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    discards = sum(s["discards"] for s in sts)
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(nontriv), rule=mod.RULE,
               samples=samples[:4], discarded=discards, oracle_evaluations=sum(s["inner"] for s in sts),
               labels=dict(sorted(labels.items(), key=lambda kv: -kv[1])[:60]),
               regression_replays=nreg, known_findings_replayed=knowns, workers=workers, build_s=round(t_build, 1),
               stopped_by_time_budget=any(s["timeup"] for s in sts))
    replay_path = None
    if failures:
        f = min(failures, key=lambda f: len(json.dumps(f["case"])))
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        replay_path = os.path.join(rd, "%s-%s.json" % (prop, case_hash(f["case"])))
        with open(replay_path, "w") as fh:
            json.dump(dict(property=prop, part=f["part"], case=f["case"], message=f["message"], seed=seed), fh, indent=1)
    if not samples and failures:
        cov["samples"] = [dict(part=failures[0]["part"], case=failures[0]["case"])]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 1),
              violations=len(failures))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if failures:
        print(f["message"][:6000])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if err:
        sys.stderr.write(str(err) + "\n")
        print("ERROR in check", prop)
        return 3
    if discards > max(20, 0.25 * evaluations):
        print("ERROR: %d of %d cases discarded" % (discards, evaluations))
        return 3
    print("%s ok: %d cases, %d distinct non-trivial, %d discarded, %.1fs" % (prop, evaluations, len(nontriv), discards, time.time() - t0))
    return 0
