"""Python side of mon/sysmon.c."""
import os
import re
import subprocess

from . import core
from .core import Inconclusive

MUT, LOOK, DATA, STD, OTHER = 1, 2, 4, 8, 16
_ESC = re.compile(r"\\x([0-9a-f]{2})")


def unesc(s):
    return _ESC.sub(lambda m: chr(int(m.group(1), 16)), s)


class Event:
    __slots__ = ("seq", "child", "n", "name", "cls", "path", "path2", "len", "ret", "xseq", "released")

    def __init__(self, seq, child, n, name, cls, path, path2, ln):
        self.seq, self.child, self.n, self.name, self.cls = seq, child, n, name, cls
        self.path, self.path2, self.len = path, path2, ln
        self.ret = None
        self.xseq = None
        self.released = seq

    def brief(self):
        return "%d: %s %s%s%s = %s" % (self.child, self.name, self.path, " " + self.path2 if self.path2 else "",
                                      " %d" % self.len if self.len >= 0 else "", self.ret)


class Run:
    """What one run of sysmon recorded."""

    def __init__(self):
        self.events = []
        self.ends = {}       # child -> ("exit"|"signal", n)
        self.endseq = {}
        self.killed = {}     # child -> event number
        self.injected = {}   # child -> list of event numbers
        self.choices = []
        self.scripts = []    # (child, event number, wait status) of scripts which were run
        self.gave_up = False
        self.blocked = 0
        self.out = {}
        self.err = {}

    def of(self, child):
        return [e for e in self.events if e.child == child]

    def kind_trace(self):
        return [(e.child, e.name, e.ret is not None and e.ret < 0) for e in self.events if e.cls & (MUT | LOOK)]


def go(ctx, root, children, policy="free", seed=1, faults=(), limit=60, hold=MUT | LOOK, env=None, cwd=None, umask=-1, scripts=()):
    """children: list of (argv, stdin bytes); scripts: shell scripts for faults of the kind run. Returns a Run."""
    d = ctx.dir("mon")
    log = os.path.join(d, "log")
    spec = ["root\t" + r for r in ([root] if isinstance(root, str) else root)]
    spec += ["log\t" + log, "seed\t%d" % seed, "policy\t" + policy, "limit\t%d" % limit, "hold\t%d" % hold]
    for i, (argv, data) in enumerate(children):
        p = os.path.join(d, "in%d" % i)
        with open(p, "wb") as f:
            f.write(data)
        spec.append("\t".join(["child", p, os.path.join(d, "out%d" % i), os.path.join(d, "err%d" % i)] + list(argv)))
    for f in faults:
        spec.append("fault\t" + "\t".join(str(x) for x in f))
    for i, text in enumerate(scripts):
        with open("%s.%d" % (log, i), "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(text)
    sp = os.path.join(d, "spec")
    with open(sp, "w") as f:
        f.write("\n".join(spec) + "\n")
    p = subprocess.Popen([ctx.sysmon, sp], env=env or ctx.env(), cwd=cwd, umask=umask, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    core.limit_child(p.pid)
    try:
        o, _ = p.communicate(timeout=limit + 30)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Inconclusive("sysmon did not finish")
    if p.returncode:
        raise RuntimeError("sysmon failed (%d): %s" % (p.returncode, o))
    r = Run()
    byn = {}
    released = {}
    with open(log, encoding="utf-8", errors="surrogateescape") as f:
        for line in f:
            w = line.rstrip("\n").split("\t")
            k = w[0]
            if k == "E":
                e = Event(int(w[1]), int(w[2]), int(w[3]), w[4], int(w[5]), unesc(w[6]), unesc(w[7]), int(w[8]))
                r.events.append(e)
                byn[e.child, e.n] = e
                released[e.child] = e
            elif k == "X":
                e = byn[int(w[2]), int(w[3])]
                e.ret, e.xseq = int(w[4]), int(w[1])
            elif k == "S":
                r.choices.append(int(w[2]))
                released[int(w[2])].released = int(w[1])
            elif k == "K":
                r.killed[int(w[2])] = int(w[3])
            elif k == "F":
                r.injected.setdefault(int(w[2]), []).append(int(w[3]))
            elif k == "R":
                r.scripts.append((int(w[2]), int(w[3]), int(w[4])))
            elif k == "B":
                r.blocked += 1
            elif k == "D":
                r.ends[int(w[2])] = (w[3], int(w[4]))
                r.endseq[int(w[2])] = int(w[1])
            elif k == "T":
                r.gave_up = True
    for i in range(len(children)):
        for m, n in ((r.out, "out"), (r.err, "err")):
            try:
                with open(os.path.join(d, "%s%d" % (n, i)), "rb") as f:
                    m[i] = f.read()
            except FileNotFoundError:
                m[i] = b""
    core.rmtree(d, ctx.scratch)
    ctx.stats["monitored_runs"] += 1
    ctx.stats["monitored_calls"] += len(r.events)
    if r.gave_up:
        raise Inconclusive("monitored programs did not finish")
    for i in range(len(children)):
        if r.ends.get(i, ("", 0))[1] in (125, 126, 127) and r.ends[i][0] == "exit":
            raise RuntimeError("a monitored program could not be started: %r" % (r.ends[i],))
    return r
