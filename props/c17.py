"""C17: stored objects get the repository's sharing permissions."""
import os
import stat

from lib import core, faults, model, mon, proto
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = "permission monitor over every spelling of the setting, and at every system call by killing (ptrace)"
NOTE = ("All listed spellings of core.sharedRepository and all listed umasks are enumerated in pairs; the object's mode is also read at every "
        "point of the upload by stopping the server there. Other modes and places of configuration are only sampled.")
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 400
RULE = ("every pair of a spelling of core.sharedRepository (named values, Booleans, octal modes, none; in the repository's, the user's or an "
        "included configuration) and a umask is enumerated: objects are uploaded to a fresh store and each object's mode and that of "
        "each directory created are compared with what the setting grants; and at random, the upload is killed before each of its "
        "system calls and the modes compared; locks must be readable by the same users at each of these moments; a call is made to fail at random, preferably one which sets modes, and the modes are compared again. Cases are the same if spelling, umask, place, and what was stored before are.")
ASSUMPTIONS = ["the process runs as an ordinary user on a file system with POSIX modes and no default ACLs"]

GROUP, ALL, MASK = 0o660, 0o664, None
SPELL = [("group", GROUP), ("true", GROUP), ("yes", GROUP), ("on", GROUP), ("1", GROUP), ("TRUE", GROUP), ("True", GROUP),
         ("all", ALL), ("world", ALL), ("everybody", ALL), ("2", ALL),
         ("umask", MASK), ("false", MASK), ("no", MASK), ("off", MASK), ("0", MASK), ("FALSE", MASK), (None, MASK)]
OCTAL = [0o600, 0o640, 0o644, 0o660, 0o664, 0o666, 0o700, 0o750, 0o755, 0o770, 0o775, 0o777, 0o604, 0o606, 0o620, 0o622, 0o662]
SPELL += [("0%o" % m, m & 0o666) for m in OCTAL] + [("640", 0o640), ("660", 0o660), ("00660", 0o660), ("775", 0o664)]
UMASKS = [0, 0o002, 0o022, 0o027, 0o077, 0o007, 0o066, 0o026]
MODES = ("chmod", "fchmod", "fchmodat", "fchmodat2", "umask", "chown", "fchown", "fchownat")
KEYS = ["sharedRepository", "sharedrepository", "SHAREDREPOSITORY", "sharedRepository"]


def jobs(ctx):
    return [(i, u) for u in UMASKS for i in range(len(SPELL))]


def configure(ctx, rng, gitdir, value, place):
    """Returns the environment."""
    home = ctx.dir("home")
    env = ctx.env(HOME=home)
    if value is None:
        return env
    sec = rng.choice(["core", "core", "Core", "CORE"])
    key = rng.choice(KEYS)
    v = rng.choice([" = %s", "=%s", " = \"%s\"", " = %s ; as agreed", "\t=   %s  "]) % value
    if value in ("true", "yes") and rng.random() < 0.2:
        v = ""  # a key alone is true
    text = "[%s]\n\t%s%s\n" % (sec, key, v)
    if place == "repeated":
        text = "[core]\n\tsharedRepository = %s\n" % rng.choice(["group", "false", "0600", "all"]) + text
        place = "repo"
    if place == "repo":
        with open(os.path.join(gitdir, "config"), "a") as f:
            f.write(text)
    elif place == "global":
        with open(os.path.join(home, ".gitconfig"), "w") as f:
            f.write(text)
    elif place == "included":
        with open(os.path.join(gitdir, "more.inc"), "w") as f:
            f.write(text)
        with open(os.path.join(gitdir, "config"), "a") as f:
            f.write("[include]\n\tpath = more.inc\n")
    elif place == "overridden":
        with open(os.path.join(home, ".gitconfig"), "w") as f:
            f.write("[core]\n\tsharedRepository = %s\n" % rng.choice(["group", "0600", "all", "umask"]))
        with open(os.path.join(gitdir, "config"), "a") as f:
            f.write(text)
    return env


def check_modes(m, want, seen_dirs, info, during=False):
    top = os.path.join(m.gitdir, "lfs")
    n = 0
    for base, dirs, files in os.walk(os.path.join(top, "objects")):
        for f in files:
            p = os.path.join(base, f)
            mode = stat.S_IMODE(os.lstat(p).st_mode)
            if mode & 0o666 != want & 0o666 or mode & 0o7000:
                raise Violation("an object has the mode %o instead of %o (%s)" % (
                    mode, want, "during the upload" if during else "afterwards"), file=os.path.relpath(p, top), **info)
            n += 1
    locks = os.path.join(top, "locks")
    for f in os.listdir(locks) if os.path.isdir(locks) else []:
        mode = stat.S_IMODE(os.lstat(os.path.join(locks, f)).st_mode)
        if model.OID.match(f.encode()) and mode & 0o444 != want & 0o444:
            raise Violation("a lock has the mode %o though objects have %o (%s)" % (mode, want, "during the session" if during else "afterwards"), lock=f, **info)
    for base, dirs, files in os.walk(m.gitdir):
        if not (base + "/").startswith(top + "/") or base in seen_dirs:
            continue
        mode = stat.S_IMODE(os.lstat(base).st_mode)
        for shift in (6, 3, 0):
            need = 0
            if want >> shift & 4:
                need |= 0o5
            if want >> shift & 2 and want >> shift & 4:
                need |= 0o7
            if (mode >> shift & need) != need:
                raise Violation("a directory has the mode %o though objects have %o" % (mode, want), directory=os.path.relpath(base, m.gitdir),
                                **info)
    return n


def run_job(ctx, rng, job):
    i, umask = job
    return one(ctx, rng, SPELL[i], umask, rng.choice(["repo", "repo", "global", "included", "overridden", "repeated"]), False)


def case(ctx, rng, n):
    return one(ctx, rng, rng.choice(SPELL), rng.choice(UMASKS), rng.choice(["repo", "global", "included", "overridden", "repeated"]), True)


def one(ctx, rng, spell, umask, place, during):
    value, want = spell
    exact = want is not None
    want = want if exact else 0o666 & ~umask
    m = model.Model(model.new_repo(ctx, bare=rng.random() < 0.7))
    blobs = [rng.randbytes(rng.choice([0, 3, 5000, 70000])) for _ in range(2)]
    info = dict(setting=value, place=place, umask="%o" % umask)
    env = configure(ctx, rng, m.gitdir, value, place)
    again = rng.random() < 0.3
    dirs = set()
    reqs = [proto.put(model.sha(b), b) for b in blobs] + [proto.put(model.sha(b"q"), b"x"), proto.lock(b"a path")]
    try:
        if again:
            # The directories and an object are there already, the object with another mode.
            p, _ = model.run_reqs(ctx, m, "upload", reqs[:1], env=env, umask=0o022)
            for b, _, _ in os.walk(os.path.join(m.gitdir, "lfs")):
                dirs.add(b)
            os.chmod(model.objpath(m.gitdir, reqs[0].f["oid"]), 0o640 if during else rng.choice([0o400, 0o600, 0o644, 0o666]))
        if not during:
            model.run_reqs(ctx, m, "upload", reqs, env=env, umask=umask)
            n = check_modes(m, want, dirs, info)
            if n < len(set(blobs)):
                raise Bad({"C01"}, "objects are missing")
            model.run_reqs(ctx, m, "download", [proto.get(model.sha(b)) for b in blobs], env=env, umask=umask)
            check_modes(m, want, dirs, info)
            ctx.stats["objects_checked"] += n
            return {"key": (value, umask, place, again), "sample": {**info, "objects_get": "%o" % want}}
    except Bad as b:
        model.raise_for(ctx, b, **info)
    # At every point of the upload.
    argv = [ctx.bin("git-lfs-transfer"), m.gitdir, "upload"]
    data = b"".join(r.raw for r in reqs)
    lfs = os.path.join(m.gitdir, "lfs")
    keep = again
    stored = model.objpath(m.gitdir, reqs[0].f["oid"])
    if keep:
        os.unlink(stored)
    save = os.path.join(ctx.tmp, "saved")
    evals = 0
    import shutil

    def fresh():
        if os.path.exists(lfs):
            core.rmtree(lfs, ctx.scratch)
        if os.path.exists(save):
            shutil.copytree(save, lfs)

    if os.path.exists(lfs):
        shutil.copytree(lfs, save)
    dry = mon.go(ctx, lfs, [(argv, data)], env=env, umask=umask)
    check_modes(m, want, dirs, info)
    last = max((e.n for e in dry.of(0)), default=0)
    first = min((e.n for e in dry.of(0) if "/objects/" in (e.path2 or e.path)), default=0)
    points = list(range(first, last + 1))
    if len(points) > 40:
        points = sorted(rng.sample(points, 40))
    for n in points:
        fresh()
        r = mon.go(ctx, lfs, [(argv, data)], env=env, umask=umask, faults=[(0, n, "kill", 0)])
        evals += 1
        ctx.stats["stops"] += 1
        ctx.stats["objects_seen_while_stopped"] += check_modes(m, want, dirs, dict(info, stopped_at=[e.brief() for e in r.of(0)][-6:]), True)
    # And whatever fails, an object is there with the right mode or not at all.
    todo = [f for f in faults.enumerate_faults([e for e in dry.of(0) if first - 8 <= e.n <= last and not e.path.startswith("<")], ("err",))]
    modes = [f for f in todo if any(e.n == f[0] and e.name in MODES for e in dry.of(0))]
    rest = [f for f in todo if f not in modes]
    todo = modes[:8] + rng.sample(rest, min(len(rest), 12))
    for f in todo:
        fresh()
        r = mon.go(ctx, lfs, [(argv, data)], env=env, umask=umask, faults=[(0, *f)])
        evals += 1
        ctx.stats["failing_calls"] += bool(r.injected)
        ctx.stats["objects_seen_after_failures"] += check_modes(m, want, dirs, dict(
            info, failed=[e.brief() for e in r.of(0) if e.n == f[0]], error=f[2]))
    return {"evaluations": evals, "keys": [(value, umask, place, again, n) for n in points] + [(value, umask, place, again, f) for f in todo], "sample": {**info, "stops": len(points)}}
