"""Heap budgets: run harness/heap/space.c and validate against spec/SpaceTrace.tla."""
import json, os, re
from vlib import *
import heap as HP

OOM = re.compile(r"ran out of space|[Oo]ut of memory|Out of Memory|allocation failed")


def run_space(ctx, jobs, timeout=90):
    """jobs: dict(c, s, pol, hs, mult, T, n, p, m, t)"""
    cs = sorted({j["c"] for j in jobs})
    bd = ctx.path("space")
    env = dict(REPO=REPO, VH_MAIN="space")
    rc, o = run(["bash", os.path.join(HP.H, "build.sh"), bd] + cs, env=env, timeout=600)
    if rc != 0:
        raise CheckError("building the space driver failed:\n" + o[-3000:])
    known = {x["key"] for x in load_known(ctx.pid)}
    td = ctx.path("straces")
    os.makedirs(td, exist_ok=True)

    def one(ij):
        i, j = ij
        f = os.path.join(td, f"{i}.ndjson")
        g = f"heap-size-policy={j['pol']},heap-size={j['hs']}"
        if j["pol"] == "growable":
            g += ",heap-size-multiplier=%.2f" % j["mult"]
        if j["pol"] == "adaptive" and j.get("exp"):
            g += ",heap-expansiveness=" + j["exp"]
        if j["c"] != "semi":
            g += ",parallelism=%d" % j.get("par", 2)
        cmd = [os.path.join(bd, "space-" + j["c"]), "-o", f, "-s", str(j["s"]), "-g", g, "-T", str(j["T"]),
               "-n", str(j["n"]), "-p", str(j["p"]), "-m", str(j["m"]), "-t", str(j["t"])]
        rc, err = drive(ctx, cmd, timeout)
        if rc == "skip":
            return None
        good = []
        try:
            txt = open(f, "rb").read()
        except OSError:
            txt = b""
        for line in txt.split(b"\n"):
            try:
                r = json.loads(line)
                if r.get("o") == "crash" and OOM.search(err):
                    r = dict(o="oom")
                    line = json.dumps(r).encode()
                good.append(line)
            except ValueError:
                pass
        if rc is None:
            good.append(b'{"o":"hang"}')
        elif rc != 0 and b'"o": "oom"' not in (good or [b""])[-1] and b'"o": "end"' not in (good or [b""])[-1] \
                and b'"crash"' not in (good or [b""])[-1]:
            good.append(b'{"o":"exit"}')
        open(f, "wb").write(b"\n".join(good) + b"\n")
        return f, dict(collector=j["c"], cmd=cmd, rc=rc, stderr=err[-300:])

    tr = [r for r in pmap(one, list(enumerate(jobs))) if r]
    for f, m in tr:
        for line in open(f):
            k = json.loads(line)["o"]
            ctx.count(k)
            if k in ("oom", "gc"):
                ctx.count(k + "@" + m["collector"])
    validate(ctx, "SpaceTrace.tla", "SpaceTrace.cfg", tr)
    return tr


def fixed_jobs(ctx, n):
    out = []
    for c in HP.ALL:
        for i in range(n):
            r = ctx.rnd("C11", c, i)
            m = 1 if i % 3 else 0
            hs = (8 << 20, 16 << 20)[r % 2]
            out.append(dict(c=c, s=r >> 8, pol="fixed", hs=hs, T=hs * (15 + r // 2 % 15) // 100, n=100 if m else 160,
                            p=(0, 1, 2, 3, 4, 9)[(r // 64 + i) % 6], m=m, t=1 if c == "semi" else 1 + r // 1024 % 4,
                            par=1 + r // 4096 % 4))
    return out


def sizing_jobs(ctx, n):
    """Growable and adaptive heaps, from generous to as tight as the options allow: a multiplier
    of one, no expansiveness at all, objects larger than the whole heap."""
    out = []
    for c in HP.ALL:
        if c == "bdw":
            continue
        for i in range(n):
            r = ctx.rnd("C16", c, i)
            pol = ("growable", "adaptive", "growable", "fixed")[i % 4]
            p = (0, 1, 2, 3)[(r // 64 + i) % 4] if pol != "fixed" else 0
            hs = 8 << 20
            if pol != "fixed" and r // 128 % 4 == 0:
                hs, p = 1 << 20, (4, 1, 9)[r // 512 % 3]      # starts smaller than one of its objects
            out.append(dict(c=c, s=r >> 8, pol=pol, hs=hs, mult=(1.0, 1.2, 1.75, 2.0, 3.0, 3.5)[r % 6],
                            exp=("", "0", "0.01", "0.3", "1")[r // 8192 % 5],
                            T=(3000000, 8000000, 12000000)[r // 4 % 3] if pol != "fixed" else 1500000, n=160,
                            p=p, m=2, t=1 if c == "semi" else 1 + r // 1024 % 4, par=1 + r // 4096 % 4))
    return out
