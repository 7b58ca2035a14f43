"""The check of every property."""
from vlib import *
import heap as HP
import unit as U

CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def jobs(ctx, collectors, seeds, args, tag, aslr=False, thorough_factor=12, per=None):
    """seeds runs per collector, with seeds that depend on VERIF_SEED."""
    n = seeds * (thorough_factor if ctx.thorough else 1)
    out = []
    for c in collectors:
        for i in range(n):
            a = args(i, c) if callable(args) else args
            out.append(dict(c=c, s=ctx.rnd(tag, c, i), args=list(a), aslr=aslr))
    return out


NOBDW = [c for c in HP.ALL if c != "bdw"]
MT = [c for c in HP.ALL if c not in ("semi",)]
EF = "eph=10,ephget=6,kill=1,chain=3,fin=8,pop=6,collect=6"
FX = "fin=8,pop=6,collect=6"


# Under the deterministic scheduler: four mutators that really run concurrently, and
# parallel tracing with helper threads; every memory access may be a switch.
SCHED = ["pcc", "generational-pcc"] + HP.MMC + ["stack-conservative-parallel-generational-mmc",
                                              "heap-conservative-parallel-mmc"]
SPAR = ["pcc", "generational-pcc", "parallel-mmc", "parallel-generational-mmc"]
SG = "heap-size-policy=fixed,heap-size=8388608,parallelism=4"


def sargs(w, n="300", g=SG, extra=()):
    return ["-n", n, "-B", "40", "-G", "100", "-t", "4", "-w", w, "-g", g, *extra]


def z(c):
    return ["-Z"] if c == "bdw" else []


@check("C01")
def c01(ctx):
    J = jobs(ctx, HP.ALL, 8, lambda i, c: z(c) + ["-n", "600"], "C01a")
    J += jobs(ctx, HP.ALL, 4, lambda i, c: z(c) + ["-n", "500", "-w", "collect=8,set=40,get=20,refill=8",
                                                   "-B", "600"], "C01b")
    J += jobs(ctx, MT, 4, lambda i, c: z(c) + ["-n", "500", "-t", "4", "-i", str(i % 3), "-w",
                                               "tadd=5,trem=2,switch=25,collect=5"], "C01c")
    # A heap that is nearly full, so that collections are frequent.
    J += jobs(ctx, NOBDW, 4, ["-n", "500", "-L", "1200000", "-G", "1500", "-B", "500", "-g",
                              "heap-size-policy=fixed,heap-size=6291456"], "C01d")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SCHED, 4, sargs('tadd=5,trem=1,switch=5,chain=2,kill=1,eph=4,ephget=3,fin=2,pop=2,ctr=1,garb=3,pin=1'), "C01s"))


@check("C03")
def c03(ctx):
    J = jobs(ctx, NOBDW, 10, ["-n", "600", "-w", EF], "C03a")
    J += jobs(ctx, [c for c in NOBDW if c != "semi"], 4,
              lambda i, c: ["-n", "500", "-t", "4", "-i", str(i % 3), "-w",
                            "eph=12,ephget=8,kill=1,tadd=5,trem=2,switch=20,collect=6"], "C03b")
    J += jobs(ctx, NOBDW, 6, ["-n", "500", "-w", "eph=30,ephget=15,kill=2,drop=20,collect=8,list=1,tree=1,vec=1"],
              "C03c")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SPAR, 6, sargs('tadd=4,switch=4,eph=16,ephget=10,chain=4,kill=2,drop=12,collect=4,garb=2'), "C03s"))


@check("C05")
def c05(ctx):
    J = jobs(ctx, HP.ALL, 10, lambda i, c: z(c) + ["-n", "600", "-w", FX], "C05a")
    J += jobs(ctx, MT, 4, lambda i, c: z(c) + ["-n", "500", "-t", "4", "-i", str(i % 3), "-w",
                                               "fin=10,pop=8,tadd=5,trem=2,switch=20,collect=6"], "C05b")
    J += jobs(ctx, NOBDW, 6, ["-n", "500", "-w", "fin=25,pop=14,drop=20,eph=4,ephget=3,collect=8,list=1,tree=1,vec=1"],
              "C05c")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SPAR, 6, sargs('tadd=4,switch=4,fin=14,pop=10,eph=4,ephget=3,drop=14,collect=4,garb=2'), "C05s"))


@check("C02")
def c02(ctx):
    # Every size class and every way of getting memory, fresh and recycled; with the
    # address-space layout fixed and randomized.
    W = "new=40,leaf=25,garb=14,drop=16,collect=5,list=1,tree=1,vec=2,set=15"
    J = jobs(ctx, HP.ALL, 8, lambda i, c: z(c) + ["-n", "600", "-w", W, "-L", "3000000"], "C02a")
    J += jobs(ctx, NOBDW, 8, ["-n", "500", "-w", W], "C02b", aslr=True)
    J += jobs(ctx, MT, 3, lambda i, c: z(c) + ["-n", "500", "-t", "4", "-i", "0", "-w",
                                               W + ",tadd=5,trem=2,switch=40"], "C02c")
    HP.heap_check(ctx, J)


@check("C04")
def c04(ctx):
    W = "eph=30,ephget=6,kill=6,chain=12,drop=20,collect=8,list=1,tree=1,vec=1"
    J = jobs(ctx, NOBDW, 12, ["-n", "600", "-w", W], "C04a")
    J += jobs(ctx, [c for c in NOBDW if c != "semi"], 4,
              lambda i, c: ["-n", "500", "-t", "4", "-i", str(i % 3), "-w",
                            W + ",tadd=5,trem=2,switch=20"], "C04b")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SPAR, 6, sargs('tadd=4,switch=4,eph=20,ephget=4,chain=14,kill=4,drop=12,collect=4,garb=2,list=1,tree=1,vec=1'), "C04s"))


@check("C06")
def c06(ctx):
    W = "set=60,get=15,refill=12,stamp=6,collect=12,new=24,drop=10,garb=6"
    J = jobs(ctx, HP.GEN, 16, ["-n", "600", "-c", "2", "-w", W], "C06a")
    J += jobs(ctx, HP.GEN, 10, ["-n", "600", "-c", "7", "-w", W, "-B", "1500", "-L", "3000000"], "C06b")
    J += jobs(ctx, HP.GEN, 8, lambda i, c: ["-n", "600", "-t", "4", "-i", str(i % 3), "-c", "6", "-w",
                                            W + ",tadd=5,trem=2,switch=30"], "C06c")
    J += jobs(ctx, HP.GEN, 8, ["-n", "500", "-c", "14", "-w", W + ",eph=8,ephget=6,chain=3,fin=5,pop=5"], "C06d")
    # Evacuating collections in between: what they move must still be remembered when it is written to.
    J += jobs(ctx, [c for c in HP.GEN if "mmc" in c], 12,
              ["-n", "600", "-c", "10", "-w", "set=80,get=20,new=50,collect=16,drop=6,garb=4,stamp=4"], "C06e")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, ["generational-pcc", "generational-mmc", "parallel-generational-mmc", "stack-conservative-parallel-generational-mmc"], 6, sargs('set=60,get=15,refill=12,stamp=6,collect=8,new=24,drop=10,garb=4,tadd=4,switch=5', extra=["-c", "6"]), "C06s"))


@check("C08")
def c08(ctx):
    W = "collect=20,new=20,set=15,garb=6,drop=10"
    J = jobs(ctx, HP.ALL, 6, lambda i, c: z(c) + ["-n", "500", "-w", W], "C08a")
    J += jobs(ctx, MT, 8, lambda i, c: z(c) + ["-n", "500", "-t", "4", "-i", str(i % 3), "-w",
                                               W + ",tadd=10,trem=6,switch=30"], "C08b")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SCHED, 4, sargs('collect=8,new=20,set=15,garb=6,drop=10,tadd=10,trem=6,switch=10'), "C08s"))


@check("C09")
def c09(ctx):
    W = "collect=30,new=20,set=15,garb=8,drop=10"
    J = jobs(ctx, HP.ALL, 12, lambda i, c: z(c) + ["-n", "400", "-w", W, "-c", str((15, 1, 2, 4, 8, 6)[i % 6])], "C09a")
    J += jobs(ctx, MT, 6, lambda i, c: z(c) + ["-n", "400", "-t", "4", "-i", str(i % 3), "-w",
                                               W + ",tadd=6,trem=2,switch=30"], "C09b")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SCHED, 6, sargs('collect=12,new=20,set=15,garb=4,drop=10,tadd=6,trem=2,switch=6,pin=2'), "C09s"))
    # Little else than requests, of different kinds, by four threads at once.
    J = HP.sched_jobs(ctx, [c for c in SCHED if "generational" in c] * 2 + ["pcc", "parallel-mmc"], 4, lambda i, c: sargs(
        "collect=60,new=15,set=6,drop=6,tadd=12", n="160", g=SG.replace("8388608", "67108864"))
        + ["-c", str((6, 14, 6, 10)[i % 4])], "C09t")
    for k, j in enumerate(J):
        j["s"] += k
    HP.sched_check(ctx, J)


@check("C10")
def c10(ctx):
    P = [c for c in HP.COPYING + HP.MMC]
    W = "new=24,drop=20,garb=30,collect=4,set=15,list=3,tree=3,vec=3"
    # Tight heaps, lots of churn: anything that is not reclaimed runs out of memory.
    J = jobs(ctx, P, 8, ["-n", "1500", "-w", W, "-L", "600000", "-G", "3000", "-W", "4", "-g",
                         "heap-size-policy=fixed,heap-size=4194304"], "C10a")
    J += jobs(ctx, HP.SCMMC + HP.HCMMC, 3, ["-n", "1200", "-w", W, "-L", "600000", "-G", "3000", "-W", "4", "-g",
                                            "heap-size-policy=fixed,heap-size=6291456"], "C10b")
    J += jobs(ctx, P, 6, ["-n", "600", "-w", "collect=10,drop=18,eph=4,fin=4,pop=6"], "C10c")
    HP.heap_check(ctx, J)


@check("C12")
def c12(ctx):
    M = HP.MMC + HP.SCMMC + HP.HCMMC
    W = "pin=20,collect=12,new=24,set=25,get=8,drop=10,leaf=6,vec=4,refill=5"
    J = jobs(ctx, M, 10, ["-n", "600", "-w", W], "C12a")
    J += jobs(ctx, M, 6, ["-n", "500", "-c", "8", "-w", W + ",eph=6,ephget=4,fin=4,pop=4"], "C12b")
    # References from the stack to the inside of objects.
    J += jobs(ctx, HP.SCMMC + HP.HCMMC, 6, ["-n", "600", "-w", W + ",int=40,garb=8,list=3,tree=2,vec=3,eph=3,fin=2,collect=10"], "C12i")
    J += jobs(ctx, M, 4, lambda i, c: ["-n", "500", "-t", "4", "-i", str(i % 3), "-w",
                                       W + ",tadd=5,trem=2,switch=25"], "C12c")
    # References that are only in a callee-saved register while the collector is called.
    J += jobs(ctx, HP.SCMMC + HP.HCMMC, 6, lambda i, c: ["-n", "500", "-H", "80", "-w", W + ",garb=8,list=3,int=20"]
              + (["-t", "4", "-i", str(i % 3), "-w", W + ",garb=8,list=3,int=20,tadd=5,trem=2,switch=25"] if i % 2 else []), "C12h")
    # Roots in the data of the program and of a shared library, found by scanning only.
    J += jobs(ctx, HP.SCMMC + HP.HCMMC, 6, lambda i, c: ["-n", "500", "-R", "-w", W + ",garb=8,list=3,tree=2,eph=4,ephget=3,push=3,chain=3,fin=2"]
              + (["-t", "4", "-i", str(i % 3), "-w", W + ",garb=8,list=3,tadd=5,trem=2,switch=25"] if i % 2 else []), "C12r")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, ["parallel-mmc", "parallel-generational-mmc", "stack-conservative-parallel-generational-mmc", "heap-conservative-parallel-mmc"], 6, sargs('pin=20,collect=6,new=24,set=25,get=8,drop=10,leaf=6,vec=4,refill=5,tadd=4,switch=5'), "C12s"))


@check("C07")
def c07(ctx):
    W = "collect=8,new=24,set=15,garb=20,drop=10,tadd=12,trem=8,switch=40"
    J = jobs(ctx, MT, 8, lambda i, c: z(c) + ["-n", "500", "-t", "4", "-i", str(i % 3), "-w", W], "C07a")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, SCHED, 6, sargs('collect=6,new=24,set=15,garb=8,drop=10,tadd=10,trem=8,switch=12,ctr=3'), "C07s"))


@check("C21")
def c21(ctx):
    b = U.build(ctx, "containers")
    n = 40 * (12 if ctx.thorough else 1)
    J = [(b, ["-s", ctx.rnd("C21", i), "-n", 1500, "-m", i % 4, "-x", (40, 12, 90, 300)[(i // 4) % 4]])
         for i in range(n)]
    U.unit_check(ctx, "Containers", J)


@check("C13")
def c13(ctx):
    P = SPAR + ["stack-conservative-parallel-mmc", "heap-conservative-parallel-generational-mmc"]
    W = "tadd=3,trem=1,switch=2,collect=8,set=30,list=3,tree=4,vec=4,garb=2,drop=8,eph=3,fin=3,pop=3,pin=3"
    par = lambda i: "heap-size-policy=fixed,heap-size=8388608,parallelism=%d" % (4, 2, 8, 3)[i % 4]
    J = HP.sched_jobs(ctx, P, 14, lambda i, c: ["-n", "250", "-B", str((60, 300)[i % 2]), "-G", "60", "-t", "3",
                                                "-w", W, "-g", par(i)], "C13s")
    # Phases that trace only roots, followed by phases in which a helper may come late.
    J += HP.sched_jobs(ctx, ["stack-conservative-parallel-mmc", "stack-conservative-parallel-generational-mmc"], 24,
                       lambda i, c: ["-n", "250", "-B", "30", "-G", "60", "-t", "4", "-c", "8", "-w",
                                     W + ",collect=20,tadd=8", "-g", par(i)], "C13r")
    HP.sched_check(ctx, J)
    # The same with the sizes that the collector really has, and larger graphs.
    J = HP.sched_jobs(ctx, SPAR, 3, lambda i, c: ["-n", "120", "-B", "3000", "-G", "60", "-t", "2", "-w", W, "-g",
                      "heap-size-policy=fixed,heap-size=16777216,parallelism=4"], "C13t")
    HP.sched_check(ctx, J, cflags="", name="rbin")


@check("C14")
def c14(ctx):
    W = "tadd=2,trem=1,switch=2,collect=8,set=60,list=3,tree=4,vec=4,garb=3,drop=6,eph=4,fin=4,pop=3"
    P = ["pcc", "generational-pcc", "parallel-mmc", "parallel-generational-mmc", "stack-conservative-parallel-mmc"]
    J = HP.sched_jobs(ctx, P, 14, lambda i, c: ["-n", "250", "-B", "50", "-G", "100", "-t", "3", "-w", W, "-c",
                      "8" if "mmc" in c else "15", "-F", str((0, 2, 8)[i % 3]), "-g",
                      "heap-size-policy=fixed,heap-size=%d,parallelism=%d" % ((8388608, 6291456)[i % 2], (4, 3, 2)[i % 3])], "C14s")
    # Few objects, many references to each.
    J += HP.sched_jobs(ctx, P, 60, lambda i, c: ["-n", "300", "-B", "20", "-G", "30", "-t", "4", "-w",
                       "tadd=8,switch=2,collect=30,set=100,new=20,drop=10,vec=4", "-c",
                       "8" if "mmc" in c else "15", "-F", str((0, 2, 8)[i % 3]), "-g",
                       "heap-size-policy=fixed,heap-size=8388608,parallelism=4"], "C14u")
    HP.sched_check(ctx, J)


@check("C22")
def c22(ctx):
    small = U.build_sched(ctx, "worklists", flags=["-DGC_VERIF_SMALL_WORKLISTS"], sources=["gc-platform-gnu-linux.c"])
    real = U.build_sched(ctx, "worklists", out="worklists-real", sources=["gc-platform-gnu-linux.c"])
    f = 12 if ctx.thorough else 1
    J = []
    for i in range(150 * f):
        J.append((small, ["-s", ctx.rnd("C22", i), "-n", 120, "-m", 0, "-x", i], U.sched_env(ctx, i, "C22", tso=i % 3 == 2)))
    for i in range(40 * f):
        J.append((small, ["-s", ctx.rnd("C22r", i), "-n", 200, "-m", 1], U.sched_env(ctx, i, "C22r")))
    for i in range(6 * f):
        J.append((small, ["-s", ctx.rnd("C22l", i), "-n", 600, "-m", 2]))
        J.append((real, ["-s", ctx.rnd("C22m", i), "-n", 6000, "-m", 2]))
        J.append((real, ["-s", ctx.rnd("C22n", i), "-n", 2500, "-m", 3]))
    U.unit_check(ctx, "Worklist", J)


@check("C23")
def c23(ctx):
    small = U.build_sched(ctx, "fieldset", flags=["-DGC_VERIF_SMALL_WORKLISTS"])
    real = U.build_sched(ctx, "fieldset", out="fieldset-real")
    f = 12 if ctx.thorough else 1
    J = []
    for i in range(160 * f):
        J.append((small, ["-s", ctx.rnd("C23", i), "-n", 12], U.sched_env(ctx, i, "C23", tso=i % 4 == 3)))
    for i in range(4 * f):
        J.append((real, ["-s", ctx.rnd("C23r", i), "-n", 4, "-x", 1500], U.sched_env(ctx, i, "C23r")))
    U.unit_check(ctx, "FieldSet", J)


@check("C25")
def c25(ctx):
    b = U.build_sched(ctx, "bgthread")
    f = 12 if ctx.thorough else 1
    J = [(b, ["-s", ctx.rnd("C25", i), "-n", 5, "-x", i], U.sched_env(ctx, i, "C25")) for i in range(160 * f)]
    U.unit_check(ctx, "Background", J)


@check("C11")
def c11(ctx):
    """Fixed-size heaps: bounded, and out of space only if full."""
    import space as SP
    SP.run_space(ctx, SP.fixed_jobs(ctx, 60 if ctx.thorough else 6))


@check("C16")
def c16(ctx):
    """Heap sizes follow the policy."""
    import space as SP
    SP.run_space(ctx, SP.sizing_jobs(ctx, 40 if ctx.thorough else 6))


@check("C19")
def c19(ctx):
    # Conservative scanning does not find external objects. In minor collections, the embedder
    # (the driver) keeps all of them, and their fields are roots.
    P = ["semi", "pcc", "mmc", "parallel-mmc"]
    Gn = ["generational-pcc", "generational-mmc", "parallel-generational-mmc"]
    W = "ext=16,new=24,set=30,get=15,drop=10,collect=8,garb=4,vec=5,list=3"
    J = jobs(ctx, P, 16, ["-x", "-n", "500", "-w", W], "C19a")
    J += jobs(ctx, P, 16, ["-x", "-n", "500", "-w", W + "," + EF], "C19b")
    J += jobs(ctx, Gn, 10, ["-x", "-n", "500", "-w", W + "," + EF], "C19g")
    J += jobs(ctx, P[1:] + Gn, 8, lambda i, c: ["-x", "-n", "500", "-t", "4", "-i", str(i % 3), "-w", W + ",tadd=5,trem=2,switch=25"], "C19c")
    HP.heap_check(ctx, J)
    HP.sched_check(ctx, HP.sched_jobs(ctx, P[1:] + Gn, 8, lambda i, c: ["-x"] + sargs(W + ",tadd=6,trem=2,garb=3"), "C19s"))


@check("C17")
def c17(ctx):
    cs = ["semi", "pcc", "mmc", "stack-conservative-parallel-generational-mmc", "bdw"]
    bd = ctx.path("options")
    rc, o = run(["bash", os.path.join(HP.H, "build.sh"), bd] + cs, env=dict(REPO=REPO, VH_MAIN="options"), timeout=600)
    if rc != 0:
        raise CheckError("building the options driver failed:\n" + o[-3000:])
    J = [(os.path.join(bd, "options-" + c), ["-s", ctx.rnd("C17", c, i), "-n", 1500])
         for c in cs for i in range(8 * (12 if ctx.thorough else 1))]
    U.unit_check(ctx, "Options", J)


@check("C27")
def c27(ctx):
    b = U.build(ctx, "stats")
    J = [(b, ["-s", ctx.rnd("C27", i), "-n", (150, 600, 1500)[i % 3], "-m", i]) for i in range(40 * (12 if ctx.thorough else 1))]
    U.unit_check(ctx, "Stats", J)


@check("C24")
def c24(ctx):
    b = U.build(ctx, "platform", sources=["gc-platform-gnu-linux.c"])
    J = [(b, ["-s", ctx.rnd("C24", i), "-n", (300, 800, 1500)[i % 3]]) for i in range(40 * (12 if ctx.thorough else 1))]
    U.unit_check(ctx, "Platform", J)
