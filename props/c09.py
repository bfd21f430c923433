"""C09: clients can only reach the repository's own LFS store."""
import os
import re

from lib import core, gen, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad
from lib.proto import DELIM, FLUSH, pkt

TECHNIQUE = 'system-call containment monitor under hostile names, canary files'
NOTE = 'Every mutating call of explored sessions must stay below the LFS directory, and no canary may leak.'
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 600
RULE = ("sessions of both operations in which every identifier, path, cursor and argument is a hostile name (dot-dot, absolute, padded to "
        "64 bytes, NULs, other letter case, names of files that exist outside and inside the store), some of uploads which do not fit in memory or with temporary directories elsewhere in the environment, run as an unprivileged user under "
        "a system-call monitor; every changing call outside the LFS directory, every change to a canary file, every canary text in "
        "the output, every decoy (an object or lock in another place, under its proper name) taken for real, and every difference between the answers for an existing and a missing file is a violation. Cases are the same "
        "if they use the same commands and shapes of names.")
ASSUMPTIONS = ["files the unprivileged user cannot reach are protected by the system"]


def pad(rng, t, n=64):
    """The same path as t, padded to n bytes."""
    if len(t) >= n:
        return t
    d, _, b = t.rpartition(b"/")
    if not d:
        d = b"" if t.startswith(b"/") else b"."
    k = n - len(d) - 1 - len(b)
    if k < 0:
        return t
    if rng.random() < 0.5:
        return d + b"/" * (k + 1) + b
    return d + b"/" * (k % 2) + b"/." * (k // 2) + b"/" + b


SHAPES = ["rel", "rel64", "abs", "abs64", "nul", "slash", "dot", "upper", "oid-dir", "sharded", "sharded"]


def sharded(rng, target, base):
    """A name of 64 bytes which, spread over directories as objects are (<base>/<2 bytes>/<2 bytes>/<name>), leads to the file."""
    head = rng.choice([b"././", b"././", b"..//", b"../.", b".//.", b".../"])
    if head[3:] == b".":
        head += rng.choice([b"/", b"./"])
    where = os.path.normpath(b"/".join([base, head[:2], head[2:4], head]))
    rel = os.path.relpath(target, where)
    return head + pad(rng, rel, 64 - len(head))


def shape_name(rng, shape, rel, absolute, base=b""):
    if shape == "sharded":
        return sharded(rng, absolute, base)
    if shape == "rel":
        return rel
    if shape == "rel64":
        return pad(rng, rel)
    if shape == "abs":
        return absolute
    if shape == "abs64":
        return pad(rng, absolute)
    if shape == "nul":
        return rel + b"\0" + b"0" * max(0, 63 - len(rel))
    if shape == "slash":
        return rel + b"/"
    if shape == "dot":
        return b"./" + rel
    if shape == "upper":
        return rel.upper()
    return b"0" * 64 + b"/../" + rel


def requests_for(rng, mode, name):
    """Requests with the name in each place a client can put one."""
    if b" " in name or b"\n" in name:
        name = name.replace(b" ", b"_").replace(b"\n", b"_")
    data = b"hostile"
    if mode == "upload":
        k = rng.randrange(9)
        if k < 3:
            return ("put", proto.put(name, data).raw)
        if k < 4:
            return ("verify", proto.verify(name, 6).raw)
        if k < 8:
            return ("unlock", proto.unlock(name).raw)
        return ("batch", pkt(b"batch\n") + DELIM + pkt(name + b" 6\n") + FLUSH)
    k = rng.randrange(6)
    if k < 3:
        return ("get", proto.get(name).raw)
    if k < 4:
        return ("list-path", proto.list_lock(path=name).raw)
    if k < 5:
        return ("list-cursor", proto.list_lock(cursor=name).raw)
    return ("batch", pkt(b"batch\n") + DELIM + pkt(name + b" 6\n") + FLUSH)


def case(ctx, rng, n):
    top = ctx.dir("t")
    g = model.new_repo(ctx)
    os.rename(g, os.path.join(top, "r"))
    g = os.path.join(top, "r")
    m = model.Model(g)
    lfs = os.path.join(g, "lfs")
    data = b"visible object %d" % rng.randrange(1 << 30)
    oid = model.sha(data)
    keep = rng.randbytes(200)
    koid = model.sha(keep)
    try:
        model.run_reqs(ctx, m, "upload", [proto.put(koid, keep), proto.lock(b"kept path")])
    except Bad as b:
        model.raise_for(ctx, b)
    token = b"CANARY%016x" % rng.getrandbits(64)
    canaries = {}

    def canary(rel):
        p = os.path.join(top, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        # Something every parser in the server would accept: a lock, with an object's name if possible.
        c = b"v1:5:" + token
        with open(p, "wb") as f:
            f.write(c)
        canaries[p] = c
        if rng.random() < 0.4:
            os.utime(p, (rng.choice([0, 1000000000, 2500000000]),) * 2)

    hexname = "%064x" % rng.getrandbits(256)
    for rel in ("outside.txt", "outside/" + hexname, "r/hooks/x", "r/" + hexname, "r/lfs/other.txt", "r/lfs/" + hexname,
                "r/lfs/tmp/keep", "r/lfs/incomplete/keep", "r/lfs/objects/stray", "r/lfs/locks/stray", "r/lfs/locks/x.lock",
                "r/lfs/locks/sub/" + hexname, "fade", "r/0f", "r/lfs/c0de/cafe", "r/lfs/objects/dead", "r/lfs/locks/beef", "r/lfs/objects/aa/bb/stray"):
        canary(rel)
    # What would be an object and a lock, if they were in their places.
    false_path = b"false path " + token
    false_oid, false_id = model.sha(b"v1:5:" + token).decode(), model.sha(b"v1:" + false_path).decode()
    if rng.random() < 0.5:
        a, b = false_oid[:2], false_oid[2:4]
        for name, where in ((false_oid, ["objects", "objects/" + a, "objects/%s/%s/x" % (a, b), "objects/%s/%s" % (b, "x" + a if a == b else a), "../objects/" + a,
                                         "locks/" + a]),
                            (false_id, ["objects", "locks/x", "locks/" + false_id[:2], "../refs"]),
                            (None, ["", "tmp", "incomplete", "..", "../..", "../objects", "objects/zz"])):
            for w in where:
                for x in [name] if name else [false_oid, false_id]:
                    f = os.path.normpath(os.path.join("r/lfs", w, x))
                    canary(f)
                    if x == false_id:
                        canaries[os.path.join(top, f)] = c = b"v1:5:" + false_path
                        with open(os.path.join(top, f), "wb") as fh:
                            fh.write(c)
        for x in (false_oid + ".lock", false_oid + "~", "." + false_oid, false_oid.upper()):
            canary("r/lfs/objects/%s/%s/%s" % (a, b, x))
        for x in (false_id + ".lock", false_id + "~", "." + false_id, false_id.upper(), "kept"):
            canary("r/lfs/locks/" + x)
    # Something else is where an object or lock has to go.
    blocked = []
    for k in range(rng.choice([0, 0, 1, 2])):
        d = rng.randbytes(30)
        o, path = model.sha(d).decode(), b"blocked %d" % k
        i = model.sha(b"v1:" + path).decode()
        where, q = rng.choice([("objects/" + o[:2], proto.put(o.encode(), d)), ("objects/%s/%s" % (o[:2], o[2:4]), proto.put(o.encode(), d)),
                               ("objects/%s/%s/%s/in" % (o[:2], o[2:4], o), proto.put(o.encode(), d)), ("locks/%s/in" % i, proto.lock(path)),
                               ("locks/%s/in" % i, proto.unlock(i.encode()))])
        if q.kind == "put" and (o[:2] == false_oid[:2] or os.path.exists(os.path.join(lfs, "objects", o[:2]))):
            continue
        canary("r/lfs/" + where)
        blocked.append(q.raw)
    # Names of nothing but digits, the letters of digits, dots and slashes.
    named = [p for p in sorted(canaries) if len(os.path.basename(p)) > 2]
    hexed = [p for p in named if re.fullmatch("[0-9a-f]*", os.path.basename(p)) and len(os.path.basename(p)) < 64]
    before = tree(top)
    mode = rng.choice(["upload", "upload", "download"])
    pairs, stream, used = [], [], []
    for _ in range(rng.randrange(1, 10)):
        target = rng.choice(named if rng.random() < 0.6 else hexed)
        base = rng.choice(["lfs/objects", "lfs/locks", "lfs/locks", "lfs/objects/aa/bb", "lfs/objects/00/00", "lfs/objects", "lfs/incomplete", "lfs"])
        rel = os.path.relpath(target, os.path.join(g, base)).encode()
        absbase = os.path.join(g, base).encode()
        shape = rng.choice(SHAPES)
        miss = target + "-no"
        if len(os.path.basename(target)) == 64:
            miss = target[:-1] + ("0" if target[-1] != "0" else "1")
        elif target in hexed:
            miss = target[:-1] + "1"
        s1 = rng.getstate()
        a = shape_name(rng, shape, rel, target.encode(), absbase)
        rng.setstate(s1)
        b = shape_name(rng, shape, os.path.relpath(miss, os.path.join(g, base)).encode(), miss.encode(), absbase)
        s1 = rng.getstate()
        kind, r1 = requests_for(rng, mode, a)
        rng.setstate(s1)
        _, r2 = requests_for(rng, mode, b)
        pairs.append((len(stream), a, b, kind, shape))
        stream += [r1, r2]
        used.append((kind, shape, base))
    # Proper names of things which aren't there.
    nowhere = []
    for _ in range(rng.randrange(4)):
        foid = false_oid.encode()
        q = rng.choice([("unlock", 404, proto.unlock(false_id.encode())), ("verify", 404, proto.verify(foid, 5 + len(token))),
                        ("batch", "upload", proto.batch([(foid, 5 + len(token))]))] if mode == "upload" else
                       [("get", 404, proto.get(foid)), ("batch", "noop", proto.batch([(foid, 5)]))] +
                       [("list", 404, proto.list_lock(path=false_path))])
        nowhere.append((len(stream),) + q[:2])
        stream.append(q[2].raw)
    if rng.random() < 0.2:
        nowhere.append((len(stream), "list-lock path", 404))
        stream.append(proto.list_lock(path=false_path).raw)
    if mode == "upload":
        stream += blocked
        ctx.stats["blocked"] += len(blocked)
    locked = []
    if mode == "upload" and rng.random() < 0.5:
        # Hostile paths are legitimate names of locks.
        locked = [rng.choice([b"../../outside.txt", os.path.join(top, "outside.txt").encode(), b"..", b".", b"/", b"a\0b", b"stray",
                              b"../" * 400 + b"etc/passwd", b"sub/" + hexname.encode()])]
        stream += [proto.lock(x).raw for x in locked]
    if mode == "upload" and rng.random() < 0.15:
        # Refused late, and too large to be kept in memory.
        body = rng.randbytes(1000) * rng.choice([100, 1100, 3000])
        stream.append(proto.put(model.sha(body), body + b"x", size=rng.choice([len(body), len(body) + 1])).raw)
        ctx.stats["large_uploads"] += 1
    stream.append(proto.version().raw)
    data = b"".join(stream)
    env = {}
    if rng.random() < 0.5:
        where = os.path.join(top, rng.choice(["elsewhere", "r", "outside", "r/hooks", "nowhere"]))
        if "nowhere" not in where:
            os.makedirs(where, exist_ok=True)
        env = {v: where for v in rng.sample(["TMPDIR", "TMP", "TEMP", "HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR", "GIT_OBJECT_DIRECTORY", "GIT_LFS_PATH"], 3)}
    run = mon.go(ctx, "/", [([ctx.bin("git-lfs-transfer"), g, mode], data)], env=ctx.env(**env))
    rc = run.ends[0][1] if run.ends[0][0] == "exit" else -run.ends[0][1]
    info = {"mode": mode, "input": data, "requests": stream[:20], "exit": rc}
    for e in run.events:
        changing = e.cls == mon.MUT or (e.cls == mon.DATA and e.name in ("write", "pwrite64", "writev", "copy_file_range", "sendfile"))
        if not changing or e.path.startswith("<"):
            continue
        for p in (e.path, e.path2):
            if p and p not in ("/dev/null", "/dev/tty") and not p.startswith(lfs + "/") and not (
                    p == lfs and e.name.startswith("mkdir")) and not p.startswith(("pipe:", "socket:", "anon_inode:")):
                if e.ret is not None and e.ret < 0 and e.name.startswith(("mkdir", "open")) and g.startswith(p):
                    continue
                raise Violation("a changing call reached outside the LFS directory: %s" % e.brief(), **info)
    if token in run.out[0]:
        raise Violation("the output contains the text of a file that isn't an object or lock", out=run.out[0], **info)
    if rc in (0, 2):
        try:
            adv, resps, rest = proto.parse_stream(run.out[0])
        except proto.Malformed as e:
            raise core.Other(str(e))
        if len(resps) != len(stream):
            raise core.Other("%d responses to %d requests" % (len(resps), len(stream)))
        for i, a, b, kind, shape in pairs:
            x, y = resps[i], resps[i + 1]
            if (x.status, [z.replace(a, b"@") for z in x.args], [z.replace(a, b"@") for z in x.data]) != (
                    y.status, [z.replace(b, b"@") for z in y.args], [z.replace(b, b"@") for z in y.data]):
                raise Violation("the answers about an existing and a missing file differ", name=a, missing=b, kind=kind,
                                first=x.brief(), second=y.brief(), **info)
            if kind in ("put", "get", "verify", "unlock", "batch") and x.ok() and not model.OID.match(a):
                raise Violation("a hostile name was accepted in %s" % kind, name=a, response=x.brief(), **info)
            ctx.stats["names_" + shape] += 1
        for i, kind, status in nowhere:
            x = resps[i]
            if x.status != status if status == 404 else x.status != 200 or not b"".join(x.data).rstrip(b"\n").endswith(status.encode()):
                raise Violation("something which is not in its place was taken for an object or lock in %s" % kind, response=x.brief(), **info)
            ctx.stats["names_of_decoys"] += 1
        nlocked = sum(1 for x in resps if x.status == 201)
    else:
        raise core.Other("the server crashed: %r" % run.err[0][-300:])
    after = tree(top)
    for p in sorted(set(before) | set(after)):
        if before.get(p) == after.get(p):
            continue
        if p not in before and os.path.dirname(p) == "r/lfs/locks" and nlocked and "/" not in os.path.basename(p):
            nlocked -= 1
            continue
        raise Violation("%s was %s" % (p, "created" if p not in before else "removed" if p not in after else "changed"), **info)
    for p, c in canaries.items():
        with open(p, "rb") as f:
            if f.read() != c:
                raise Violation("canary %s was changed" % p, **info)
    ctx.stats["hostile_names"] += 2 * len(pairs)
    return {"key": (mode, tuple(sorted(used)), len(locked)),
            "sample": {"mode": mode, "names": [(k, s, a) for _, a, _, k, s in pairs][:5],
                       "statuses": [x.status for x in resps]}}


def tree(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, top)] = fh.read()
    return out
