"""The design models that belong to each property.  They say nothing about the
code, which the other half of each check binds to the same definitions; they
show that the specified design has the property within the bounds of the model."""
import os
from vlib import *

# property -> [(module, cfg, what, {constant: value} of the thorough tier)]
HEAP = ("HeapMC.tla", "HeapMC.cfg", "step-by-step collector (ephemerons, finalizers) against Heap.tla's collection; "
        "all mutator histories", dict(MaxOps=5))
HEAPGEN = ("HeapMC.tla", "HeapMCGen.cfg", "step-by-step generational collector with remembered fields against Heap.tla",
           dict(MaxOps=6))
STW = ("Stw.tla", "Stw.cfg", "stop-the-world protocol: who collects, who waits, what is honoured", dict(MaxGC=3))
STWLIVE = ("Stw.tla", "StwLive.cfg", "stop-the-world protocol: every stopped mutator goes on, every request is honoured", {})
TR = ("TracerMC.tla", "TracerMC.cfg", "parallel tracer: phase over only when all is traced, by N tracers", {})
TR3 = ("TracerMC.tla", "TracerMC3.cfg", "parallel tracer, three tracers", {})
TRLIVE = ("TracerMC.tla", "TracerLive.cfg", "parallel tracer: every phase ends", {})
FWD = ("Forward.tla", "Forward.cfg", "forwarding protocol: one copy, never both moved and kept", {})
FWDLIVE = ("Forward.tla", "ForwardLive.cfg", "forwarding protocol: every edge gets an answer", {})
EPH = ("EphTraceMC.tla", "EphTrace.cfg", "ephemerons claimed and resolved by concurrent tracers", {})
EPHALL = ("EphTraceMC.tla", "EphTraceAll.cfg", "the same, all small graphs", {})
DQ = ("Deque.tla", "Deque.cfg", "work-stealing deque: nothing lost, nothing twice", {})
DQTSO = ("Deque.tla", "DequeTSO.cfg", "work-stealing deque under store buffers (TSO)", {})
MODELS = {
    "C01": [HEAP], "C03": [EPH], "C05": [HEAP], "C06": [HEAPGEN], "C07": [STW], "C09": [STW, STWLIVE],
    "C10": [HEAP], "C08": [STW], "C13": [TR, TRLIVE], "C14": [FWD, FWDLIVE], "C22": [DQ, DQTSO],
}
THOROUGH = {"C03": [EPHALL], "C13": [TR3], "C06": [HEAP], "C07": [STWLIVE], "C04": [HEAP]}


def run_models(ctx, pid):
    for spec, cfg, what, deep in MODELS.get(pid, []) + (THOROUGH.get(pid, []) if ctx.thorough else []):
        path = os.path.join(SPEC, cfg)
        if ctx.thorough and deep:
            s = open(path).read()
            for k, v in deep.items():
                s, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, r"\g<1>%s" % v, s)
                assert n == 1
            path = os.path.join(ctx.work, "deep-" + cfg)
            with open(path, "w") as f:
                f.write(s)
        model(ctx, spec, path, what, timeout=3000 if ctx.thorough else 300, heap="12g" if ctx.thorough else "6g")
