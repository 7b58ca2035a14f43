"""Shared machinery: building harnesses from /repo's working tree, running
drivers, running TLC, and reporting."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))
SETARCH = shutil.which("setarch")


class CheckError(Exception):
    """The check could not be carried out (exit 2)."""


class Violation(Exception):
    pass


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "build"))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.records = 0
        self.samples = []
        self.violations = []
        self.models = []        # per TLC model run
        self.actions = {}       # counts of record types / actions exercised
        self.notes = {}
        self.assumptions = []
        self.hangs = 0          # drivers that hung
        self.maxcpu = 0.0       # CPU seconds of the most expensive other one

    def path(self, *a):
        return os.path.join(self.work, *a)

    def elapsed(self):
        return time.time() - self.t0

    def rnd(self, *salt):
        """Deterministic positive 31-bit number from the seed and salt."""
        h = hashlib.sha256(repr((self.seed,) + salt).encode()).digest()
        return int.from_bytes(h[:4], "big") & 0x7FFFFFFF

    def count(self, what, n=1):
        self.actions[what] = self.actions.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violate(self, what, **detail):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        rp = os.path.join(d, f"violation-{n}.json")
        for k in ("trace_file",):
            if detail.get(k) and os.path.exists(detail[k]):
                dst = os.path.join(d, f"violation-{n}.ndjson")
                shutil.copy(detail[k], dst)
                detail[k] = dst
        with open(rp, "w") as f:
            json.dump(dict(property=self.pid, what=what, **detail), f, indent=1, default=str)
        self.violations.append((what, rp))
        return rp

    def finish(self, level="model_checking"):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"],
                   driver_cpu_max_s=round(self.maxcpu, 2), trace_records=self.records, models=self.models,
                   exercised=dict(sorted(self.actions.items())), **self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        known = load_known(self.pid)
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for what, rp in self.violations[:5]:
                print(f"  {what}")
                print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} states={self.states} traces={self.traces} "
              f"records={self.records} wall={self.elapsed():.1f}s")
        return 0


def load_known(pid):
    """Lines 'known: property=<id> key=<key> <what fails>' of KNOWN_FINDINGS."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out


# ------------------------------------------------------------------ running
def run(cmd, timeout=600, env=None, cwd=None, input=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(input=input, timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timeout"


def run_driver(cmd, timeout, out=None, env=None):
    """Run a driver.  Returns (rc, cpu_seconds, stderr); rc None on timeout."""
    e = dict(os.environ)
    if env:
        e.update(env)
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=out or subprocess.DEVNULL, stderr=err,
                         stdin=subprocess.DEVNULL, env=e, start_new_session=True)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_CORE, (0, 0))
        resource.prlimit(p.pid, resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 10))
    except (OSError, ValueError):
        pass
    deadline = time.time() + timeout
    rc = None
    delay = 0.002
    while True:
        pid, st, ru = os.wait4(p.pid, os.WNOHANG)
        if pid:
            rc = os.waitstatus_to_exitcode(st)
            break
        if time.time() > deadline:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            pid, st, ru = os.wait4(p.pid, 0)
            rc = None
            break
        time.sleep(delay)
        delay = min(delay * 1.5, 0.05)
    p.returncode = -9 if rc is None else rc
    err.seek(0)
    msg = err.read(4000).decode(errors="replace")
    err.close()
    return rc, ru.ru_utime + ru.ru_stime, msg


CPU_LIMIT = 60      # seconds of CPU; a driver on the unchanged tree needs a few
MAX_HANGS = 4       # after so many, the rest of a check's drivers is not run


def drive(ctx, cmd, wall, env=None):
    """Run a driver until it ends or hangs: no CPU use for the given time, or
    far too much of it.  Returns (rc, stderr); rc is None if it hung, "skip" if
    it was not run because others had hung already."""
    if ctx.hangs >= MAX_HANGS:
        return "skip", ""
    for attempt in (1, 2, 3):
        rc, cpu, err = run_driver(cmd, wall * attempt, env=env)
        if rc == -signal.SIGXCPU:
            rc = None
            break
        # On timeout without CPU use: a deadlock, there is nothing to repeat.
        if rc is not None or cpu < 0.1 * wall * attempt or ctx.hangs >= MAX_HANGS:
            break
    if rc is None:
        ctx.hangs += 1
    else:
        ctx.maxcpu = max(ctx.maxcpu, cpu)
    return rc, err


def pmap(fn, items, workers=NCPU):
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def cc(ctx, out, sources, flags, compiler="gcc", timeout=300, libs=()):
    cmd = [compiler] + flags + ["-o", out] + sources + list(libs)
    rc, o = run(cmd, timeout=timeout)
    if rc != 0:
        raise CheckError(f"build failed: {' '.join(cmd)}\n{o[-3000:]}")
    return out


# ---------------------------------------------------------------------- TLC
class TLCResult:
    pass


def tlc(ctx, spec, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), tier1=True,
        stack="256m"):
    """Run TLC; returns an object with ok/states/distinct/depth/out/kind."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=ctx.work)
    cmd = ["java", f"-Xmx{heap}", f"-Xss{stack}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           f"-Djava.io.tmpdir={d}"]
    if tier1:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-cp", CP, "tlc2.TLC", "-metadir", d, "-workers", str(workers), "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, spec)]
    rc, out = run(cmd, timeout=timeout, env=env, cwd=SPEC)
    shutil.rmtree(d, ignore_errors=True)
    r = TLCResult()
    r.rc, r.out = rc, out
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated = int(m.group(1)) if m else 0
    r.distinct = int(m.group(2)) if m else 0
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m.group(1)) if m else None
    if rc is None:
        r.kind = "timeout"
    elif "No error has been found" in out:
        r.kind = "ok"
    elif re.search(r"Error: Postcondition .* is false", out):
        r.kind = "postcondition"
    elif "is violated" in out or "Error: Deadlock reached" in out or "Temporal properties were violated" in out:
        r.kind = "violated"
    else:
        r.kind = "error"
    r.ok = r.kind == "ok"
    return r


def model(ctx, spec, cfg, what, workers=NCPU, timeout=800, heap="8g", extra=(), env=None, tier1=False):
    """Exhaustive check of a design; a counterexample here is an error of the
    specification, not of the code, so it ends the check with an error."""
    t = time.time()
    r = tlc(ctx, spec, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra, env=env,
            tier1=tier1)
    if not r.ok:
        raise CheckError(f"model {spec}/{cfg}: {r.kind}\n{r.out[-3000:]}")
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append(dict(model=spec, config=os.path.basename(cfg), what=what, distinct=r.distinct,
                           generated=r.generated, depth=r.depth, wall_s=round(time.time() - t, 1)))
    return r


def validate(ctx, spec, cfg, traces, timeout=500, chunks=NCPU, env=None, describe=None, heap="3g"):
    """Validate ndjson traces [(file, meta)], each starting with a 'reset'
    record, against a trace specification.  Records violations in ctx."""
    if not traces:
        return
    traces = list(traces)
    sized = []
    for f, meta in traces:
        with open(f) as fh:
            n = sum(1 for _ in fh)
        sized.append((n, f, meta))
    # Greedy balance into chunks.
    sized.sort(key=lambda x: -x[0])
    nchunk = max(1, min(chunks, len(sized)))
    groups = [[] for _ in range(nchunk)]
    load = [0] * nchunk
    for n, f, meta in sized:
        i = load.index(min(load))
        groups[i].append((n, f, meta))
        load[i] += n

    def one(gi):
        g = groups[gi]
        cat = tempfile.mktemp(prefix=f"cat{gi}-", suffix=".ndjson", dir=ctx.work)
        with open(cat, "wb") as o:
            for n, f, meta in g:
                with open(f, "rb") as i:
                    shutil.copyfileobj(i, o)
        e = dict(env or {})
        e["TRACE"] = cat
        r = tlc(ctx, spec, cfg, env=e, timeout=timeout, heap=heap)
        os.unlink(cat)
        return gi, r

    for gi, r in pmap(one, range(nchunk)):
        ctx.states += r.distinct
        ctx.transitions += r.generated
        g = groups[gi]
        if r.ok:
            ctx.traces += len(g)
            ctx.records += sum(x[0] for x in g)
            continue
        if r.kind not in ("postcondition", "violated"):
            raise CheckError(f"trace validation of {spec}: {r.kind}\n{r.out[-2500:]}")
        # Which trace, which record?
        depth = r.depth
        at = re.findall(r'<<"REJECTED_AT", (\d+)>>', r.out)
        if at:
            depth = int(at[-1])
        elif r.kind == "violated" or depth is None:
            m = re.findall(r"^State (\d+):", r.out, re.M)
            depth = int(m[-1]) if m else 1
        pos = depth
        for n, f, meta in g:
            if pos <= n:
                break
            pos -= n
        else:
            raise CheckError(f"cannot locate rejected record in {spec}\n{r.out[-2500:]}")
        # Confirm on the trace alone.
        e = dict(env or {})
        e["TRACE"] = f
        r2 = tlc(ctx, spec, cfg, env=e, timeout=timeout, heap=heap)
        if r2.ok:
            raise CheckError(f"rejection of {f} by {spec} did not repeat")
        if r2.kind not in ("postcondition", "violated"):
            raise CheckError(f"trace validation of {spec}: {r2.kind}\n{r2.out[-2500:]}")
        lines = open(f).read().splitlines()
        rec = lines[min(pos, len(lines)) - 1] if lines else ""
        inv = re.findall(r"Invariant (\w+) is violated", r2.out)
        ctx.violate(f"trace rejected by {spec} at record {pos} of {len(lines)}: {rec[:300]}",
                    trace_file=f, record=pos, rejected=rec[:4000], spec=spec, invariant=inv,
                    prefix_tail=lines[max(0, pos - 6):pos - 1], meta=meta)
