"""setup_cmd: check that the tools are there and that every specification parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
bad = 0
for f in sorted(os.listdir(os.path.join(V, "spec"))):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], cwd=os.path.join(V, "spec"),
                           capture_output=True, text=True)
        ok = r.returncode == 0 and "*** Errors" not in r.stdout and "Fatal" not in r.stdout
        print(("parsed " if ok else "FAILED ") + f)
        if not ok:
            print(r.stdout[-2000:])
            bad = 1
for t in ("gcc", "setarch", "java"):
    if subprocess.run(["which", t], capture_output=True).returncode:
        print("missing", t)
        bad = 1
sys.exit(bad)
