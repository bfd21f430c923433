"""Running the pkt harness (the /verif/pkt crate) and reading its report."""
import hashlib
import os

from . import core
from .core import Violation


def build():
    core.build_crate("pkt", extra={"CARGO_PROFILE_DEV_OPT_LEVEL": "2"})


def binary():
    return os.path.join(core.BUILD, "target-pkt", "debug", "pkt")


def run(ctx, mode, seed, count, timeout=300):
    p = core.run(ctx, [binary(), mode, str(seed), str(count)], timeout=timeout)
    keys, sample, evals = [], None, 0
    for line in p.out.decode("utf-8", "replace").splitlines():
        w = line.split(" ", 1)
        if w[0] == "BAD":
            raise Violation(w[1].split(" | ")[0], witness=w[1], reproduce="pkt %s %d %d" % (mode, seed, count))
        if w[0] == "KEY":
            keys.append(w[1])
        elif w[0] == "SAMPLE":
            sample = w[1][:1500]
        elif w[0] == "STAT":
            k, v = w[1].split(" ")
            ctx.stats[k] += int(v)
            if k in ("streams", "headers"):
                evals += int(v)
    if p.rc != 0:
        raise Violation("the reader or writer brought the process down (status %d)" % p.rc, stderr=p.err[-1000:],
                        reproduce="pkt %s %d %d" % (mode, seed, count))
    return {"keys": [hashlib.blake2b(k.encode(), digest_size=8).hexdigest() for k in keys], "sample": sample, "evaluations": evals}
