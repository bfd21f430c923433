"""C23: output reaches the terminal complete through the chosen pager."""
import os
import pty
import subprocess
import termios
import threading
import time

from lib import core, gitrepo
from lib.core import Inconclusive, Violation

TECHNIQUE = "process monitor: recording stand-in pagers on a pseudo-terminal, with order of exits and delivered bytes checked"
NOTE = "Pagers keep their input open until they exit."
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 600
RULE = ("all combinations of GIT_PAGER, core.pager (in the repository or the user's configuration), PAGER unset, empty, 'cat' or a recording "
        "stand-in, with stdout a terminal, pipe or file, and stdin and stderr terminals or not; pagers which are slow to start, to read or to exit, exit early, fail, or need a "
        "shell, or are calls of cat with arguments; environments which say other things about terminals; outputs from nothing to hundreds of kilobytes. The monitor checks which pagers ran, what they were given, what reached the "
        "terminal, and that the pager had ended by the time the program had. Distinct by configuration, pager behaviour and output size.")
ASSUMPTIONS = ["sh is available"]


def script(path, name, ev, beh):
    """A stand-in pager."""
    q = {"slow_start": ("sleep 0.15", "/bin/cat", ""), "slow_end": ("", "/bin/cat", "sleep 0.2"), "normal": ("", "/bin/cat", ""),
         "fail": ("", "/bin/cat", ""), "slow_read": ("", "while IFS= read -r l; do printf '%s\\n' \"$l\"; n=$((n+1)); [ $n -gt 20 ] && break; "
                                                     "sleep 0.01; done; /bin/cat", ""),
         "early": ("", "/usr/bin/head -c 3", "sleep 0.1"), "never_reads": ("", ":", "sleep 0.05")}[beh]
    with open(path, "w") as f:
        f.write("#!/bin/sh\nprintf 'start %s %%s\\n' \"$*\" >>%s\n%s\n(%s) | /usr/bin/tee %s.in.%s\n%s\necho end %s >>%s\nexit %d\n" % (
            name, ev, q[0], q[1], ev, name, q[2], name, ev, 7 if beh == "fail" else 0))
    os.chmod(path, 0o755)


def prepare(ctx):
    import random
    rng = random.Random("c23")
    old, ctx.tmp = ctx.tmp, os.path.join(ctx.scratch, "shared")
    os.makedirs(ctx.tmp)
    ctx.extra["repos"] = {}
    for name, n in (("empty", 0), ("one", 1), ("some", 30), ("many", 2500)):
        r = gitrepo.init(ctx, False, hint=name)
        logs = []
        if n:
            made = gitrepo.graph(r, rng, n, lambda g, i: b"m%d\n" % i, skew=0, same_author=True, style="linear")
            for i, o in enumerate(made):
                r.refs["refs/heads/branch-%d-%s" % (i, "x" * rng.randrange(60))] = o
            r.refs["refs/heads/main"] = r.commit(r.tree, [made[-1]], 2 ** 33, b"last\n")
            names = [x[11:] for x in r.refs]
            for i in range(n - 1):
                logs.append("%s %s N <n@example.com> %d +0000\tcheckout: moving from %s to %s\n" % (
                    made[0], made[0], 1500000000 + i, rng.choice(names), rng.choice(names)))
        r.flush_refs(set(r.refs))
        os.makedirs(os.path.join(r.gitdir, "logs"))
        with open(os.path.join(r.gitdir, "logs/HEAD"), "w") as f:
            f.write("".join(logs))
        out = {}
        for args in ((), ("--sort=visitdate",), ("--sort=committerdate",), ("--sort=authordate",)):
            p = core.run(ctx, [ctx.bin("git-recent-refs"), *args], env=ctx.env(HOME="/nonexistent", PAGER="/bin/false", GIT_PAGER="/bin/false"), cwd=r.path)
            if p.rc:
                raise RuntimeError("git recent-refs failed: %r" % p.err)
            out[args] = p.out
        ctx.extra["repos"][name] = (r.path, out)
    ctx.tmp = old


STATES = [None, "", "cat", "P"]


def jobs(ctx):
    out = [(a, b, c, where, "terminal") for a in STATES for b in STATES for c in STATES for where in ("local", "global")]
    return out + [(a, b, c, "local", where) for a, b, c in (("P", "P", "P"), (None, "P", "P"), (None, None, "P"), (None, None, None))
                  for where in ("pipe", "file", "null")]


def run_job(ctx, rng, job):
    return one(ctx, rng, job, rng.choice(["one", "some", "many"]))


def case(ctx, rng, n):
    states = STATES + ["C"]
    return one(ctx, rng, (rng.choice(states), rng.choice(states), rng.choice(states), rng.choice(["local", "global", "both"]),
                          rng.choice(["terminal"] * 6 + ["pipe", "file", "null"])), rng.choice(["empty", "one", "some", "many"]))


def one(ctx, rng, conf, size):
    gp, cp, pg, where, dest = conf
    d = ctx.dir("c23")
    ev = os.path.join(d, "ev")
    bin_ = os.path.join(d, "bin")
    home = os.path.join(d, "home")
    os.makedirs(bin_)
    os.makedirs(home)
    for name in ("git_pager", "core_pager", "pager"):
        os.symlink(os.path.join(bin_, name), os.path.join(home, name))
    beh = rng.choice(["normal", "normal", "slow_start", "slow_end", "slow_end", "slow_read", "early", "never_reads", "fail"])
    for name in ("git_pager", "core_pager", "pager", "less", "cat", "local_pager", "more", "pg"):
        script(os.path.join(bin_, name), name, ev, beh)
    form = rng.choice(["%s", "%s", "%s -R --x=1", "LESS=FRX %s", "%s 'a b'", "/bin/true; %s", "exec %s", "  %s", "%s | /bin/cat",
                       # Without spaces, but still for a shell.
                       ":;%s", "'%s'", '"%s"', "$BIN/%s", "${BIN}/%s", "%s;exit", "(%s)", "%s|/bin/cat", "exec\t%s", "~/%s", "${X}%s", "%s\n",
                       "%s caf\udce9", "%s 'ü'"])
    if beh in ("early", "never_reads") or form.endswith("/bin/cat"):
        # What comes after the bar would keep the input open in another way.
        form = form.replace(" | /bin/cat", "").replace("|/bin/cat", "")

    catty = rng.choice(["cat -u", "cat -", "cat;:", "cat|/bin/cat", "cat\t-n", "cat 2>/dev/null"])
    if beh in ("early", "never_reads"):
        catty = "cat -u"

    def value(state, name):
        return form % name if state == "P" else catty if state == "C" else state

    path, outs = ctx.extra["repos"][size]
    env = ctx.env(PATH=bin_ + ":/usr/bin:/bin", HOME=home, TERM="xterm", BIN=bin_)
    # None of this is about the pager.
    for k, v in (("TERM", ["dumb", "", "vt100", "unknown"]), ("NO_COLOR", ["1"]), ("CI", ["true"]), ("GIT_PAGER_IN_USE", ["true", "1"]), ("LESS", ["", "FRX"]),
                 ("LINES", ["5000", "1"]), ("COLUMNS", ["3"]), ("MANPAGER", ["/bin/false"]), ("EDITOR", ["/bin/false"]), ("VISUAL", ["/bin/false"]),
                 ("INSIDE_EMACS", ["29.1,comint"]), ("GIT_TERMINAL_PROMPT", ["0"]), ("BAT_PAGER", ["/bin/false"]), ("SHELL", ["/bin/false"])):
        if rng.random() < 0.12:
            env[k] = rng.choice(v)
    if rng.random() < 0.05:
        del env["TERM"]
    if rng.random() < 0.08 and where not in ("global", "both") and "~" not in form:
        # A service or a container may have no home.
        env.pop("HOME")
        if rng.random() < 0.5:
            env["HOME"] = ""
    if gp is not None:
        env["GIT_PAGER"] = value(gp, "git_pager")
    if pg is not None:
        env["PAGER"] = value(pg, "pager")
    chosen, chosen_value = "less", "P"
    for st, name in ((gp, "git_pager"), (cp, "core_pager"), (pg, "pager")):
        if st is not None:
            chosen, chosen_value = name, st
            break
    if chosen_value == "C":
        # A pager like any other, although its name is cat.
        chosen, chosen_value = "cat", "P"
    if where in ("local", "both"):
        # A repository of its own, as its configuration is to be changed; its objects and references are the shared ones.
        new = os.path.join(d, "r")
        os.makedirs(new + "/.git")
        for f in os.listdir(path + "/.git"):
            if f != "config":
                os.symlink(path + "/.git/" + f, new + "/.git/" + f)
        os.unlink(new + "/.git/HEAD")
        for f in ("HEAD", "config"):
            with open(path + "/.git/" + f) as a, open(new + "/.git/" + f, "w") as b:
                b.write(a.read())
        path = new
    for w, file in (("local", path + "/.git/config"), ("global", home + "/.gitconfig")):
        v = value(cp, "core_pager")
        if cp is None or where not in (w, "both"):
            continue
        if where == "both" and w == "global":
            v = "local_pager"  # which the repository's own setting overrides
        with open(file, "ab") as f:
            v = v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
            f.write(('[core]\n\tpager = "%s"\n' % v).encode("utf-8", "surrogateescape"))
    args = rng.choice(list(outs))
    want = outs[args]
    expect = [] if dest != "terminal" or chosen_value != "P" else [chosen]
    got = b""
    master = slave = None
    argv = [ctx.bin("git-recent-refs"), *args]
    kw = {"env": env, "cwd": path, "stdin": subprocess.DEVNULL, "stderr": subprocess.PIPE}
    # Only standard output matters; the other streams may be a terminal or not.
    others = rng.choice(["", "", "stdin", "stderr", "stdin stderr"])
    other_master = other_slave = None
    if others:
        other_master, other_slave = pty.openpty()
        for x in others.split():
            kw[x] = other_slave
    events_at_exit = []
    if dest == "terminal":
        master, slave = pty.openpty()
        a = termios.tcgetattr(slave)
        a[1] &= ~termios.OPOST
        termios.tcsetattr(slave, termios.TCSANOW, a)
        p = subprocess.Popen(argv, stdout=slave, **kw)
        os.close(slave)
        fd = master
    elif dest == "pipe":
        fd, w = os.pipe()
        p = subprocess.Popen(argv, stdout=w, **kw)
        os.close(w)
    else:
        fd = None
        out = open(os.path.join(d, "out") if dest == "file" else "/dev/null", "wb")
        p = subprocess.Popen(argv, stdout=out, **kw)
        out.close()
    core.limit_child(p.pid)
    chunks, errs = [], []

    def drain(fd, chunks):
        while True:
            try:
                b = os.read(fd, 65536)
            except OSError:
                b = b""
            if not b:
                return
            chunks.append(b)

    threads = []
    if p.stderr:
        threads.append(threading.Thread(target=lambda: errs.append(p.stderr.read()), daemon=True))
    if others:
        os.close(other_slave)
        threads.append(threading.Thread(target=drain, args=(other_master, errs), daemon=True))
    if fd is not None:
        threads.append(threading.Thread(target=drain, args=(fd, chunks), daemon=True))
    for t in threads:
        t.start()
    try:
        rc = p.wait(timeout=30)
    except subprocess.TimeoutExpired:
        p.kill()
        if dest == "terminal" and beh in ("early", "never_reads"):
            raise Violation("the program did not end although its pager did", config=conf, behaviour=beh, size=size)
        raise Inconclusive("git recent-refs did not finish")
    try:
        events_at_exit = open(ev, errors="surrogateescape").read().split("\n")[:-1]
    except OSError:
        pass
    for t in threads:
        t.join(20)
    if any(t.is_alive() for t in threads):
        raise Inconclusive("something kept the terminal")
    if fd is not None:
        os.close(fd)
    if p.stderr:
        p.stderr.close()
    if others:
        os.close(other_master)
    got = b"".join(chunks)
    if dest == "file":
        got = open(os.path.join(d, "out"), "rb").read()
    events = open(ev, errors="surrogateescape").read().split("\n")[:-1] if os.path.exists(ev) else []
    detail = {"GIT_PAGER": env.get("GIT_PAGER"), "core.pager": (value(cp, "core_pager"), where), "PAGER": env.get("PAGER"), "stdout": dest, "other_terminals": others,
              "behaviour": beh, "environment": env, "args": args, "exit": rc, "stderr": b"".join(errs), "events_when_it_exited": events_at_exit, "events": events,
              "size": len(want)}
    started = [e.split(" ")[1] for e in events if e.startswith("start ")]
    if started != expect:
        raise Violation("the pager should be %s but these ran: %s" % (expect or "none", started or "none"), **detail)
    if rc != 0 and not (expect and beh in ("early", "never_reads")):
        raise Violation("git recent-refs failed with status %d" % rc, **detail)
    if expect:
        if "end " + chosen not in events_at_exit:
            raise Violation("the program exited before its pager had", **detail)
        given = open(ev + ".in." + chosen, "rb").read()
        if beh == "early":
            if given != want[:3]:
                raise Violation("the pager was given something else", given=given[:500], want=want[:500], **detail)
        elif beh != "never_reads" and given != want:
            raise Violation("the pager was given %d bytes, not the output of %d bytes" % (len(given), len(want)), given=given[-300:],
                            want=want[-300:], **detail)
        if beh not in ("early", "never_reads") and got != want:
            raise Violation("the terminal shows %d bytes, not the output of %d bytes" % (len(got), len(want)), got=got[-300:], want=want[-300:],
                            **detail)
    elif dest != "null" and got != want:
        raise Violation("the output is not the usual one", got=got[-500:], want=want[-500:], **detail)
    ctx.stats["pagers_started"] += len(started)
    ctx.stats["bytes_delivered"] += len(got)
    ctx.stats["processes"] += 1
    return {"key": (conf, others, beh if expect else None, size, args, form if expect else None),
            "sample": {k: detail[k] for k in ("GIT_PAGER", "core.pager", "PAGER", "stdout", "behaviour", "events")}}
