"""Heap-contract conformance: run harness/heap drivers and validate the traces
against spec/HeapTrace.tla."""
import json, os, re, subprocess
from vlib import *

H = os.path.join(VERIF, "harness", "heap")
MMC = [p + "mmc" for p in ("", "parallel-", "generational-", "parallel-generational-")]
SCMMC = ["stack-conservative-" + c for c in MMC]
HCMMC = ["heap-conservative-" + c for c in MMC]
COPYING = ["semi", "pcc", "generational-pcc"]
ALL = ["bdw"] + COPYING + MMC + SCMMC + HCMMC
GEN = [c for c in ALL if "generational" in c]
NONGEN_PRECISE_TRACE = [c for c in COPYING + MMC + SCMMC if "generational" not in c]


def build(ctx, collectors, debug=False, cflags="", libs="", name="bin", sched=False):
    out = ctx.path(name)
    env = dict(REPO=REPO, VH_CFLAGS=cflags, VH_LIBS=libs)
    if debug:
        env["VH_DEBUG"] = "1"
    if sched:
        env["VH_SCHED"] = "1"
    rc, o = run(["bash", os.path.join(H, "build.sh"), out] + list(collectors), env=env, timeout=600)
    if rc != 0:
        raise CheckError("building the heap driver failed:\n" + o[-3000:])
    return out


def run_jobs(ctx, bindir, jobs, timeout=60, tag="traces"):
    """jobs: dicts with c (collector), s (seed), args (list), aslr (bool),
    env (for the deterministic scheduler).
    Returns [(trace, meta)]; a hang or a crash ends the trace with a record
    that the specification has no action for."""
    tdir = ctx.path(tag)
    os.makedirs(tdir, exist_ok=True)

    def one(ij):
        i, j = ij
        f = os.path.join(tdir, f"{i}.ndjson")
        cmd = [os.path.join(bindir, "heapdrv-" + j["c"]), "-o", f, "-s", str(j["s"])] + j["args"]
        if not j.get("aslr"):
            cmd = [SETARCH, "-R"] + cmd
        rc, err = drive(ctx, cmd, timeout, env=j.get("env"))
        if rc == "skip":
            return None
        meta = dict(collector=j["c"], cmd=cmd, env=j.get("env"), rc=rc, stderr=err[-500:])
        m = re.search(r"vsched: steps=(\d+) switches=(\d+) threads=(\d+)", err)
        if m:
            meta["vs"] = [int(x) for x in m.groups()]
        if rc not in (0, 3, 4):
            if rc == 2:
                raise CheckError(f"driver usage error: {cmd}: {err}")
            with open(f, "ab") as o:
                o.write(b"")
            txt = open(f, "rb").read()
            if txt and not txt.endswith(b"\n"):      # drop a torn last line
                txt = txt[:txt.rfind(b"\n") + 1]
            why = "hang" if rc is None else "exit"
            if not txt:
                txt = b'{"o":"none"}\n'
            txt += json.dumps(dict(o=why, rc=rc if rc is not None else -1)).encode() + b"\n"
            open(f, "wb").write(txt)
        else:
            txt = open(f, "rb").read()
            # A crash may have torn the line that was being written.
            good = []
            for line in txt.split(b"\n"):
                if not line:
                    continue
                try:
                    json.loads(line)
                    good.append(line)
                except ValueError:
                    pass
            if rc != 0 and (not good or b'"o":"bad"' not in good[-1] and b'"o":"crash"' not in good[-1]):
                good.append(b'{"o":"exit","rc":%d}' % rc)
            open(f, "wb").write(b"\n".join(good) + b"\n")
        return f, meta

    res = pmap(one, list(enumerate(jobs)))
    return [r for r in res if r]


def count_records(ctx, traces):
    for f, meta in traces:
        for line in open(f):
            i = line.find('"o":"')
            o = line[i + 5:line.find('"', i + 5)]
            ctx.count(o)
            if o == "end":
                k = re.search(r'"bh":(\d+)', line)
                if k and k.group(1) != "0":
                    ctx.count("traced with a claimed header", int(k.group(1)))
                    if ctx.pid == "C14" and not any(x["key"] == "busy-header" for x in load_known("C14")):
                        ctx.violate("an object was traced while another tracer had its forwarding word",
                                    trace_file=f, meta=meta)
            if o == "gc":
                k = line.find('"k":"')
                ctx.count("gc:" + line[k + 5:line.find('"', k + 5)])
                ctx.count("gc@" + meta["collector"])
                if '"k":"minor"' in line:
                    ctx.count("minor@" + meta["collector"])


def heap_check(ctx, jobs, bindir=None, debug=False, cflags="", libs="", timeout=60, name="bin", sched=False):
    collectors = sorted({j["c"] for j in jobs})
    if bindir is None:
        bindir = build(ctx, collectors, debug=debug, cflags=cflags, libs=libs, name=name,
                       sched=sched)
    tr = run_jobs(ctx, bindir, jobs, timeout=timeout, tag="traces-" + name)
    vs = [m["vs"] for f, m in tr if m.get("vs")]
    if vs:
        ctx.count("sched:schedules", len(vs))
        ctx.count("sched:switch points", sum(v[0] for v in vs))
        ctx.count("sched:context switches", sum(v[1] for v in vs))
    count_records(ctx, tr)
    for f, meta in tr[:2]:
        lines = open(f).read().splitlines()
        ctx.sample(dict(cmd=" ".join(meta["cmd"][-8:]), records=len(lines),
                        excerpt=[l[:200] for l in lines[1:6]]))
    validate(ctx, "HeapTrace.tla", "HeapTrace.cfg", tr)
    return bindir


def sched_jobs(ctx, collectors, n, args, tag, factor=12):
    """n schedules per collector, each of its own history, under the
    deterministic scheduler."""
    out = []
    for c in collectors:
        for i in range(n * (factor if ctx.thorough else 1)):
            r = ctx.rnd(tag, "sched", c, i)
            a = args(i, c) if callable(args) else args
            if c == "generational-pcc":        # (8 MB leave no room for minor collections)
                a = [x.replace("heap-size=8388608", "heap-size=33554432") for x in a]
            env = dict(VS_SEED=str(r), VS_RUN=str((5, 30, 105, 230, 405)[i % 5]),
                       VS_DELAY=str((0, 3000, 6000)[i % 3]), VS_PRIO=str((0, 2000, 0, 100, 500, 0, 10000)[i % 7]))
            out.append(dict(c=c, s=r ^ 0x5a5a, args=["-C"] + list(a), env=env))
    return out


SMALL = "-DGC_VERIF_SMALL_WORKLISTS -DGC_VERIF_FAULTS"


def sched_check(ctx, jobs, **kw):
    kw.setdefault("cflags", SMALL)
    return heap_check(ctx, jobs, name=kw.pop("name", "sbin"), sched=True, **kw)
