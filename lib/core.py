"""Running a check: building the tree under test, spreading cases over workers, verdicts, evidence."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
RUN_UID = 65534  # the code under test never runs as root
RUN_GID = 65534
CRATES = ("scutiger-core", "scutiger-lfs", "scutiger-bin")


class Violation(Exception):
    """The property under test is broken; `detail` is the witness."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Other(Exception):
    """Something went wrong which isn't a violation of the property under test."""


class Inconclusive(Exception):
    """This case could not be decided (timeout, resource shortage, search too large)."""


def jsonable(x):
    if isinstance(x, bytes):
        t = x if len(x) <= 2000 else x[:1000] + b"...[%d bytes]..." % len(x) + x[-500:]
        return t.decode("latin-1").encode("unicode_escape").decode("ascii")
    if isinstance(x, dict):
        return {str(jsonable(k)): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


# ---------------------------------------------------------------------------------------- building

def cargo_env(extra=None):
    env = {
        "HOME": "/root",
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "RUSTC_WRAPPER": "",
        "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
        # Fast enough for big workloads, but with every run-time check of a debug build.
        "CARGO_PROFILE_DEV_OPT_LEVEL": "1",
        "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "true",
        "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true",
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    }
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(extra or {})
    return env


def tree_hash():
    """A hash of the sources being tested, so that a stale build is never used."""
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".lock")) and os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run_build(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def cc(src, out, *flags):
    src = os.path.join(VERIF, "mon", src)
    out = os.path.join(BUILD, out)
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    rc, log = run_build(["gcc", "-O2", "-Wall", "-o", out + ".new", src, *flags], dict(os.environ), VERIF)
    if rc:
        raise RuntimeError("building %s failed:\n%s" % (src, log))
    os.rename(out + ".new", out)
    return out


class Lock:
    """Only one build at a time."""

    def __enter__(self):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp_path(target):
    return os.path.join(target, "verif-tree-hash")


def build_bins():
    """Builds the programs from the tree as it is now and returns the directory they are in."""
    target = os.path.join(BUILD, "target")
    with Lock():
        cc("sysmon.c", "sysmon")
        cc("clockshim.c", "clockshim.so", "-shared", "-fPIC", "-ldl")
        cc("idshim.c", "idshim.so", "-shared", "-fPIC")
        cc("heapshim.c", "heapshim.so", "-shared", "-fPIC", "-fno-builtin")
        h = tree_hash()
        env = cargo_env({"CARGO_TARGET_DIR": target})
        out = os.path.join(target, "debug")
        names = ("git-lfs-transfer", "git-at", "git-recent-refs")
        try:
            with open(stamp_path(target)) as f:
                fresh = f.read() == h and all(os.path.exists(os.path.join(out, n)) for n in names)
        except OSError:
            fresh = False
        if not fresh:
            # Times of files say nothing about whether they changed, so rebuild from scratch.
            if os.path.exists(stamp_path(target)):
                os.unlink(stamp_path(target))
            manifest = os.path.join(REPO, "Cargo.toml")
            if os.path.exists(target):
                run_build(["cargo", "clean", "--offline", "--manifest-path", manifest]
                          + [a for c in CRATES for a in ("-p", c)], env, VERIF)
            rc, log = run_build(["cargo", "build", "--workspace", "--offline", "--locked", "--manifest-path",
                                 manifest], env, VERIF)
            if rc:
                raise RuntimeError("building the tree failed:\n" + log[-8000:])
            with open(stamp_path(target), "w") as f:
                f.write(h)
    return out


def build_crate(name, toolchain=None, extra=None, args=(), target_name=None):
    """Builds the harness crate /verif/<name> against the tree as it is now."""
    target = os.path.join(BUILD, target_name or ("target-" + name))
    src = os.path.join(VERIF, name)
    if REPO != "/repo":
        # Only for trying out changes in a copy of the tree.
        new = os.path.join(BUILD, "crate-" + name)
        shutil.rmtree(new, ignore_errors=True)
        shutil.copytree(src, new)
        with open(os.path.join(new, "Cargo.toml")) as f:
            t = f.read()
        with open(os.path.join(new, "Cargo.toml"), "w") as f:
            f.write(t.replace("/repo/", REPO + "/"))
        src = new
    with Lock():
        hh = hashlib.sha256((tree_hash() + repr((toolchain, extra, args))).encode())
        for base, dirs, files in os.walk(src):
            dirs.sort()
            for f in sorted(files):
                with open(os.path.join(base, f), "rb") as fh:
                    hh.update(f.encode() + fh.read())
        h = hh.hexdigest()
        env = cargo_env({"CARGO_TARGET_DIR": target})
        if toolchain:
            env["RUSTUP_TOOLCHAIN"] = toolchain
        env.update(extra or {})
        try:
            with open(stamp_path(target)) as f:
                fresh = f.read() == h
        except OSError:
            fresh = False
        if not fresh:
            if os.path.exists(stamp_path(target)):
                os.unlink(stamp_path(target))
            manifest = os.path.join(src, "Cargo.toml")
            if os.path.exists(target):
                run_build(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", name, "-p",
                           "scutiger-core"] + [a for a in args if a.startswith("--target")], env, VERIF)
            rc, log = run_build(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest, *args],
                                env, VERIF)
            if rc:
                raise RuntimeError("building %s failed:\n%s" % (name, log[-8000:]))
            with open(stamp_path(target), "w") as f:
                f.write(h)
    return target


# ----------------------------------------------------------------------------------------- context

class Ctx:
    """What a case needs: the programs, a private scratch directory, and the settings of this run."""

    def __init__(self, prop, tier, seed, bindir, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.bindir = bindir
        self.scratch = scratch
        self.thorough = tier == "thorough"
        self.stats = collections.Counter()
        self.tmp = scratch
        self.serial = 0
        self.extra = {}
        self.alike = None

    def bin(self, name):
        return os.path.join(self.bindir, name)

    @property
    def sysmon(self):
        return os.path.join(BUILD, "sysmon")

    @property
    def clockshim(self):
        return os.path.join(BUILD, "clockshim.so")

    @property
    def heapshim(self):
        return os.path.join(BUILD, "heapshim.so")

    @property
    def idshim(self):
        return os.path.join(BUILD, "idshim.so")

    def dir(self, hint="d"):
        self.serial += 1
        p = os.path.join(self.tmp, "%s%d" % (hint, self.serial))
        os.makedirs(p)
        return p

    def env(self, **kw):
        e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             "HOME": os.path.join(self.scratch, "home"), "LC_ALL": "C", "RUST_BACKTRACE": "0",
             "GIT_CONFIG_NOSYSTEM": "1", "TZ": "UTC"}
        e.update(kw)
        if self.alike:
            # All sessions have the same process ID, as in containers of their own.
            e["LD_PRELOAD"] = ":".join(filter(None, [e.get("LD_PRELOAD"), self.idshim]))
            e["IDSHIM_PID"] = self.alike
        return e

    def rng(self, n):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, n))


def rmtree(path, below):
    path = os.path.realpath(path)
    below = os.path.realpath(below)
    assert path.startswith(below + "/") or (path == below and os.path.basename(path).startswith("verif-"))
    try:
        shutil.rmtree(path)
    except OSError:
        # A test may have taken away permissions.
        for base, dirs, _ in os.walk(path):
            try:
                os.chmod(base, 0o700)
            except OSError:
                pass
        shutil.rmtree(path, ignore_errors=True)


def age(path, rng):
    """Lets a file have been changed long ago."""
    t = time.time() - rng.choice([400, 4000, 90000, 700000, 3000000, 100000000])
    os.utime(path, (t, t), follow_symlinks=False)


def limit_child(pid, cpu=60, mem=6 << 30):
    try:
        resource.prlimit(pid, resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.prlimit(pid, resource.RLIMIT_AS, (mem, mem))
        resource.prlimit(pid, resource.RLIMIT_CORE, (0, 0))
    except (OSError, ValueError):
        pass


class Proc:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(ctx, argv, stdin=b"", env=None, cwd=None, timeout=60, umask=-1, **kw):
    """Runs a program to completion; a timeout decides nothing."""
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env or ctx.env(), cwd=cwd, umask=umask, **kw)
    limit_child(p.pid)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Inconclusive("%s did not finish in %d s" % (os.path.basename(argv[0]), timeout))
    ctx.stats["processes"] += 1
    return Proc(p.returncode, out, err)


# ------------------------------------------------------------------------------------------ runner

def _drop():
    os.setgroups([])
    os.setresgid(RUN_GID, RUN_GID, RUN_GID)
    os.setresuid(RUN_UID, RUN_UID, RUN_UID)
    # A process which has changed its user can't be inspected by default; the monitors need to.
    try:
        import ctypes
        ctypes.CDLL(None).prctl(4, 1, 0, 0, 0)
    except OSError:
        pass


class Runner:
    """Runs a property's jobs and random cases in several processes and merges what they report."""

    def __init__(self, mod, ctx, workers):
        self.mod, self.ctx, self.workers = mod, ctx, workers

    def one(self, ctx, kind, n, job):
        """Runs a case; returns a record."""
        case_dir = ctx.tmp
        ctx.alike = None
        if hasattr(self.mod, "SAME_PID"):
            r = ctx.rng("alike%s%d" % (kind, n))
            if r.random() < self.mod.SAME_PID:
                ctx.alike = r.choice(["1", "7", "4242"])
                ctx.stats["sessions_alike"] += 1
        try:
            if kind == "job":
                r = self.mod.run_job(ctx, ctx.rng("job%d" % n), job)
            else:
                r = self.mod.case(ctx, ctx.rng(n), n)
            return ("ok", r)
        except Violation as e:
            return ("violation", {"message": e.msg, "detail": e.detail})
        except Other as e:
            return ("other", str(e))
        except Inconclusive as e:
            return ("inconclusive", str(e))
        except (BlockingIOError, MemoryError, subprocess.SubprocessError) as e:
            return ("inconclusive", repr(e))
        except Exception:
            return ("error", traceback.format_exc())
        finally:
            for f in os.listdir(case_dir):
                p = os.path.join(case_dir, f)
                if os.path.isdir(p) and not os.path.islink(p):
                    rmtree(p, self.ctx.scratch)
                else:
                    os.unlink(p)

    def worker(self, w, jobs, nextjob, nextcase, stop, deadline, conn):
        ctx = Ctx(self.ctx.prop, self.ctx.tier, self.ctx.seed, self.ctx.bindir, self.ctx.scratch)
        ctx.extra = self.ctx.extra
        ctx.tmp = os.path.join(self.ctx.scratch, "w%d" % w)
        os.makedirs(ctx.tmp)
        keys, samples, viol, errors = set(), [], [], []
        counts = collections.Counter()
        incon = []
        has_case = hasattr(self.mod, "case")
        try:
            if hasattr(self.mod, "worker_init"):
                self.mod.worker_init(ctx)
            while not stop.value:
                if time.monotonic() > deadline:
                    break
                with nextjob.get_lock():
                    j = nextjob.value
                    nextjob.value += 1
                if j < len(jobs):
                    kind, n, job = "job", j, jobs[j]
                elif has_case:
                    with nextcase.get_lock():
                        n = nextcase.value
                        nextcase.value += 1
                    kind, job = "case", None
                else:
                    break
                st, r = self.one(ctx, kind, n, job)
                counts[st] += 1
                if st == "ok":
                    counts["evaluations"] += (r or {}).get("evaluations", 1)
                    if kind == "job":
                        counts["jobs_done"] += 1
                    r = r or {}
                    for k in r.get("keys", [r["key"]] if r.get("key") is not None else []):
                        keys.add(hashlib.blake2b(repr(k).encode(), digest_size=8).digest())
                    if len(samples) < 2 and r.get("sample") is not None:
                        samples.append(jsonable(r["sample"]))
                elif st == "violation":
                    r["case"] = {"kind": kind, "n": n, "job": jsonable(job)}
                    # The same case again, for the record: is this reproducible?
                    again = self.one(ctx, kind, n, job)[0]
                    r["reproduced"] = again == "violation"
                    viol.append(r)
                    stop.value = 1
                elif st == "inconclusive":
                    incon.append(r)
                elif st == "other":
                    if len(errors) < 3:
                        errors.append("other: " + r)
                else:
                    errors.append(r)
                    if counts["error"] > 3:
                        stop.value = 1
        except Exception:
            errors.append(traceback.format_exc())
            counts["error"] += 1
        conn.send((counts, keys, samples, viol, errors, incon[:5], ctx.stats))
        conn.close()

    def run(self, budget):
        jobs = list(self.mod.jobs(self.ctx)) if hasattr(self.mod, "jobs") else []
        nextjob = multiprocessing.Value("q", 0)
        nextcase = multiprocessing.Value("q", 0)
        stop = multiprocessing.Value("b", 0, lock=False)
        deadline = time.monotonic() + budget
        procs = []
        for w in range(self.workers):
            a, b = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=self.worker,
                                        args=(w, jobs, nextjob, nextcase, stop, deadline, b))
            p.start()
            b.close()
            procs.append((p, a))
        res = {"counts": collections.Counter(), "keys": set(), "samples": [], "viol": [], "errors": [],
               "incon": [], "stats": collections.Counter(), "jobs": len(jobs)}
        # A worker which is stuck must not keep what the others found.
        limit = deadline + (300 if self.ctx.tier == "quick" else 900)
        for p, a in procs:
            if not a.poll(max(0.1, limit - time.monotonic())):
                p.kill()
                res["counts"]["inconclusive"] += 1
                res["incon"].append("a worker was stuck")
                p.join()
                continue
            try:
                counts, keys, samples, viol, errors, incon, stats = a.recv()
                res["counts"] += counts
                res["keys"] |= keys
                res["samples"] += samples
                res["viol"] += viol
                res["errors"] += errors
                res["incon"] += incon
                for k, v in stats.items():
                    if k.startswith("max_"):
                        res["stats"][k] = max(res["stats"][k], v)
                    else:
                        res["stats"][k] += v
            except EOFError:
                res["errors"].append("a worker died")
                res["counts"]["error"] += 1
            p.join()
        return res


def make_scratch():
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            try:
                d = tempfile.mkdtemp(prefix="verif-", dir=base)
                # Programs must be able to run there (hooks, pagers).
                return d
            except OSError:
                continue
    return tempfile.mkdtemp(prefix="verif-")


def known_findings(prop):
    """Lines 'known: property=<id> signature=<text> | <what fails>'."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    out.append(line)
    except OSError:
        pass
    return out


def known(ctx, signature):
    return any("signature=%s " % signature in line for line in known_findings(ctx.prop))


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("props." + prop.lower())
    start = time.monotonic()
    bindir = build_bins()
    if hasattr(mod, "build"):
        mod.build()
    t_build = time.monotonic() - start
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (
        getattr(mod, "THOROUGH_S", 600) if tier == "thorough" else getattr(mod, "QUICK_S", 25))
    workers = getattr(mod, "WORKERS", 8)
    if workers > 1:
        workers = max(2, min(workers, os.cpu_count() or workers))
    scratch = make_scratch()
    os.chmod(scratch, 0o755)
    os.makedirs(os.path.join(scratch, "home"))
    res = None
    replay_case = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        replay_case, seed = rec["case"], rec["seed"]
    try:
        if os.getuid() == 0 and not getattr(mod, "AS_ROOT", False):
            for p in (scratch, os.path.join(scratch, "home")):
                os.chown(p, RUN_UID, RUN_GID)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setsid()
                if os.getuid() == 0 and not getattr(mod, "AS_ROOT", False):
                    _drop()
                os.umask(0o022)
                os.chdir(scratch)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                os.environ["HOME"] = os.path.join(scratch, "home")
                ctx = Ctx(prop, tier, seed, bindir, scratch)
                if hasattr(mod, "prepare"):
                    mod.prepare(ctx)
                runner = Runner(mod, ctx, workers)
                if replay_case:
                    ctx.tmp = os.path.join(scratch, "w0")
                    os.makedirs(ctx.tmp)
                    job = None
                    if replay_case["kind"] == "job":
                        job = list(mod.jobs(ctx))[replay_case["n"]]
                    st, rr = runner.one(ctx, replay_case["kind"], replay_case["n"], job)
                    out = {"replay": st, "result": jsonable(rr)}
                else:
                    rr = runner.run(budget)
                    out = {"counts": rr["counts"], "distinct": len(rr["keys"]), "samples": rr["samples"][:4],
                           "viol": [jsonable(v) for v in rr["viol"]], "errors": rr["errors"][:5],
                           "incon": rr["incon"], "stats": rr["stats"], "jobs": rr["jobs"]}
                data = json.dumps(out).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)  # whatever is left of it
        except (ProcessLookupError, PermissionError):
            pass
        if data:
            res = json.loads(data)
    finally:
        rmtree(scratch, scratch)
    if res is None:
        print("ERROR property=%s the workload could not be run" % prop)
        return 2
    if "replay" in res:
        print(json.dumps(res, indent=1))
        return 1 if res["replay"] == "violation" else 0
    return conclude(mod, prop, tier, seed, res, time.monotonic() - start, t_build)


def conclude(mod, prop, tier, seed, res, wall, t_build):
    c = res["counts"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    coverage = {
        "evaluations": c.get("evaluations", 0),
        "distinct_nontrivial": res["distinct"],
        "rule": mod.RULE,
        "samples": res["samples"],
        "observed": dict(sorted(res["stats"].items())),
        "cases_inconclusive": c.get("inconclusive", 0),
        "cases_stopped_by_other_differences": c.get("other", 0),
        "build_s": round(t_build, 1),
    }
    if res["jobs"]:
        coverage["enumerated_jobs"] = res["jobs"]
        coverage["enumerated_jobs_done"] = c.get("jobs_done", 0)
    if res["incon"]:
        coverage["inconclusive_examples"] = [str(x)[:300] for x in res["incon"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": coverage,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
          "violations": len(res["viol"])}
    text = json.dumps(ev, indent=1, ensure_ascii=True)
    while len(text) > 60000 and coverage["samples"]:
        coverage["samples"].pop()
        if not coverage["samples"]:
            coverage["samples"] = ["(omitted: too large)"]
            text = json.dumps(ev, indent=1, ensure_ascii=True)
            break
        text = json.dumps(ev, indent=1, ensure_ascii=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        f.write(text + "\n")
    for line in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line.split("| ", 1)[-1]))
    if res["viol"]:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        v = res["viol"][0]
        path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, **v,
                       "how": "python3 check.py %s --replay %s" % (prop, path)}, f, indent=1)
        print(v["message"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for e in res["errors"]:
        print(e)
    if c.get("error", 0):
        print("ERROR property=%s the check itself failed" % prop)
        return 2
    minimum = getattr(mod, "MIN_EVALUATIONS", 1)
    if c.get("evaluations", 0) < minimum or res["distinct"] < 1:
        print("INCONCLUSIVE property=%s only %d cases were decided (%d inconclusive, %d stopped early)"
              % (prop, c.get("evaluations", 0), c.get("inconclusive", 0), c.get("other", 0)))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d inconclusive=%d other=%d wall=%.1fs %s" % (
        prop, tier, seed, c.get("evaluations", 0), res["distinct"], c.get("inconclusive", 0), c.get("other", 0), wall,
        " ".join("%s=%d" % kv for kv in sorted(res["stats"].items()))))
    return 0
