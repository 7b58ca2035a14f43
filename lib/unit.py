"""Unit drivers (harness/unit/*.c, which include /repo's own sources): build,
run, and validate their traces against a trace specification."""
import json, os
from vlib import *

U = os.path.join(VERIF, "harness", "unit")
BASE = ["-O2", "-g", "-w", "-fno-strict-aliasing", "-DNDEBUG"]


def build(ctx, name, out=None, flags=(), sources=(), libs=("-lpthread", "-lm"), harness=None, base=None):
    out = ctx.path(out or name)
    src = [harness or os.path.join(U, name + ".c")] + [os.path.join(REPO, "src", s) for s in sources]
    return cc(ctx, out, src, (BASE if base is None else base) + list(flags) +
              ["-I" + os.path.join(REPO, "api"), "-I" + os.path.join(REPO, "src"), "-I" + U] ,
              libs=libs)


def build_sched(ctx, name, out=None, flags=(), sources=(), base=None):
    """Build a driver to run under the deterministic scheduler."""
    S = os.path.join(VERIF, "harness", "sched")
    o = ctx.path("vsched.o")
    if not os.path.exists(o):
        cc(ctx, o, [os.path.join(S, "vsched.c")], ["-O2", "-g", "-w", "-c"])
    wrap = open(os.path.join(S, "wrap.txt")).read().split()
    objs = []
    for s in [os.path.join(U, name + ".c")] + [os.path.join(REPO, "src", s) for s in sources]:
        ob = ctx.path((out or name) + "-" + os.path.basename(s) + ".o")
        cc(ctx, ob, [s], (BASE if base is None else base) + list(flags) +
           ["-fsanitize=thread", "-DVSCHED", "-c", "-I" + os.path.join(REPO, "api"), "-I" + os.path.join(REPO, "src"), "-I" + U])
        objs.append(ob)
    b = ctx.path(out or name)
    return cc(ctx, b, objs + [o], wrap, libs=("-lpthread", "-lm"))


def sched_env(ctx, i, *salt, tso=False):
    e = dict(VS_SEED=str(ctx.rnd("sched", i, *salt)), VS_RUN=str((5, 30, 105, 12, 405)[i % 5]),
             VS_DELAY=str((0, 1000, 6000)[i % 3]), VS_PRIO=str((0, 300, 0, 100, 500, 0, 3000)[i % 7]))
    if tso:
        e["VS_TSO"] = "1"
    return e


def clean_trace(f, rc, cpu=None):
    """Keep whole records; end with a record the specification has no action
    for when the driver died or hung."""
    good = []
    try:
        txt = open(f, "rb").read()
    except FileNotFoundError:
        txt = b""
    for line in txt.split(b"\n"):
        if not line:
            continue
        try:
            json.loads(line)
            good.append(line)
        except ValueError:
            pass
    if rc != 0 and (not good or (b'"o":"crash"' not in good[-1] and b'"o":"bad"' not in good[-1])):
        good.append(json.dumps(dict(o="hang" if rc is None else "exit", rc=rc if rc is not None else -1)).encode())
    open(f, "wb").write(b"\n".join(good) + b"\n")


def run_jobs(ctx, jobs, timeout=60, workers=NCPU, tag="u"):
    """jobs: (binary, args list[, env]).  Returns [(trace, meta)]."""
    d = ctx.path("traces-" + tag)
    os.makedirs(d, exist_ok=True)

    def one(ij):
        i, j = ij
        binary, args = j[0], j[1]
        f = os.path.join(d, f"{i}.ndjson")
        cmd = [binary, "-o", f] + [str(a) for a in args]
        rc, err = drive(ctx, cmd, timeout, env=j[2] if len(j) > 2 else None)
        if rc == "skip":
            return None
        if rc == 2:
            raise CheckError(f"driver usage error: {cmd}: {err}")
        clean_trace(f, rc)
        return f, dict(cmd=cmd, rc=rc, stderr=err[-400:])

    res = [r for r in pmap(one, list(enumerate(jobs)), workers=workers) if r]
    for f, meta in res:
        for line in open(f):
            i = line.find('"o":"')
            ctx.count(line[i + 5:line.find('"', i + 5)])
    for f, meta in res[:1]:
        lines = open(f).read().splitlines()
        ctx.sample(dict(cmd=" ".join([os.path.basename(meta["cmd"][0])] + meta["cmd"][3:]), records=len(lines),
                        excerpt=[x[:160] for x in lines[1:60:9]]))
    return res


def unit_check(ctx, spec, jobs, timeout=60, tag=None, chunks=NCPU, env=None, workers=NCPU):
    tr = run_jobs(ctx, jobs, timeout=timeout, tag=tag or spec, workers=workers)
    validate(ctx, spec + "Trace.tla", spec + "Trace.cfg", tr, chunks=chunks, env=env)
    return tr
