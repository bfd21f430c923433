"""Which faults to inject where, given the system calls of an undisturbed run."""
import errno

from . import mon

ERRS = {
    "write": [errno.ENOSPC, errno.EIO, errno.EINTR, errno.EDQUOT],
    "pwrite64": [errno.ENOSPC, errno.EIO], "writev": [errno.ENOSPC, errno.EIO],
    "read": [errno.EIO, errno.EINTR],
    "openat": [errno.EMFILE, errno.EACCES, errno.ENOSPC, errno.EINTR],
    "open": [errno.EMFILE, errno.EACCES, errno.ENOSPC, errno.EINTR],
    "mkdir": [errno.ENOSPC, errno.EACCES, errno.EIO], "mkdirat": [errno.ENOSPC, errno.EACCES],
    "rename": [errno.EIO, errno.EACCES, errno.EXDEV, errno.ENOSPC], "renameat": [errno.EIO, errno.EACCES, errno.EXDEV, errno.ENOSPC],
    "renameat2": [errno.EIO, errno.EACCES, errno.ENOSPC, errno.ENOSYS],
    "link": [errno.EIO, errno.EMLINK, errno.EPERM, errno.ENOSPC], "linkat": [errno.EIO, errno.EMLINK, errno.EPERM, errno.ENOSPC],
    "unlink": [errno.EIO, errno.EACCES, errno.EBUSY], "unlinkat": [errno.EIO, errno.EACCES, errno.EBUSY],
    "chmod": [errno.EPERM, errno.EIO], "fchmodat": [errno.EPERM, errno.EIO], "fchmod": [errno.EPERM, errno.EIO],
    "ftruncate": [errno.EIO, errno.ENOSPC], "truncate": [errno.EIO], "fallocate": [errno.ENOSPC],
    "statx": [errno.EIO, errno.EACCES], "stat": [errno.EIO, errno.EACCES], "newfstatat": [errno.EIO, errno.EACCES],
    "fstat": [errno.EIO], "fsync": [errno.EIO], "fdatasync": [errno.EIO], "getdents64": [errno.EIO],
    "copy_file_range": [errno.EIO, errno.ENOSPC, errno.ENOSYS], "sendfile": [errno.EIO, errno.ENOSYS],
}
WRITES = ("write", "pwrite64")


def enumerate_faults(events, kinds=("kill", "part", "err", "errp", "short")):
    """A list of (event number, kind, argument) for one program's events."""
    out = []
    for e in events:
        if e.path == "<2>" or e.name in ("execve", "chdir", "fcntl", "lseek"):
            continue
        if "kill" in kinds:
            out.append((e.n, "kill", 0))
        if e.name in WRITES and e.len > 1 and "part" in kinds:
            for k in sorted({1, e.len // 2, e.len - 1}):
                out.append((e.n, "part", k))
        if e.name == "close":
            continue
        if "short" in kinds and e.name in WRITES + ("read",) and e.len > 1:
            out.append((e.n, "short", 1))
            out.append((e.n, "short", max(1, e.len // 2)))
        for x in ERRS.get(e.name, [errno.EIO]):
            if "err" in kinds:
                out.append((e.n, "err", x))
            if "errp" in kinds and x not in (errno.EINTR,) and e.name in WRITES + ("openat", "rename", "renameat", "linkat", "link"):
                out.append((e.n, "errp", x))
    return out


def choose(rng, events, todo, limit):
    """At most `limit` of the faults: first those at calls which matter most."""
    if len(todo) <= limit:
        return todo
    byn = {e.n: e for e in events}

    def dull(f):
        e = byn[f[0]]
        return e.path == "<1>" or (e.name == "mkdir" and e.ret and e.ret < 0) or e.name in ("close", "statx", "fstat")

    a = [f for f in todo if not dull(f)]
    b = [f for f in todo if dull(f)]
    n = min(len(a), limit * 3 // 4)
    return rng.sample(a, n) + rng.sample(b, min(len(b), limit - n))


def at_end(events):
    """A kill after the last event is the same as a normal end as far as the store is concerned."""
    return max((e.n for e in events), default=-1) + 1


def note_first(firsts, run, f):
    """Remembers a fault which was survived, and the changes made to the tree after it."""
    if f[1] in ("err", "errp", "part", "short") and run.injected:
        later = [e for e in run.of(0) if e.n > f[0] and e.cls & mon.MUT and not e.path.startswith("<")]
        if later:
            firsts.append((f, later))


def second_faults(rng, byn, firsts, limit):
    """Pairs of a failing call and a kill at one of the calls which then follow, evenly over the kinds of failures."""
    kinds = {}
    for f, later in firsts:
        kinds.setdefault((byn[f[0]].name, f[2] if f[1].startswith("err") else f[1]), []).append((f, later))
    out = []
    while kinds and len(out) < limit:
        for k in sorted(kinds, key=str):
            f, later = kinds[k].pop(rng.randrange(len(kinds[k])))
            for e in later if len(later) <= 4 else later[:2] + rng.sample(later[2:], 2):
                out.append((f, (e.n, "kill", 0)))
                if e.name in WRITES and e.len > 1 and rng.random() < 0.5:
                    out.append((f, (e.n, "part", e.len // 2)))
            if not kinds[k]:
                del kinds[k]
    return rng.sample(out, limit) if len(out) > limit else out
