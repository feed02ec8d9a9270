"""Nothing is kept between runs (each check builds what it needs); this makes sure
that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
os.makedirs(os.path.join(here, "replay"), exist_ok=True)
cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
spec = os.path.join(here, "spec")
bad = 0
for f in sorted(glob.glob(spec + "/*.tla")):
    r = subprocess.run(["java", "-cp", cp, "tla2sany.SANY", os.path.basename(f)], cwd=spec, capture_output=True, text=True)
    ok = r.returncode == 0 and "rror" not in r.stdout.replace("0 errors", "")
    print(os.path.basename(f), "ok" if ok else r.stdout[-2000:])
    bad += not ok
for t in ("gcc", "clang"):
    bad += subprocess.run([t, "--version"], capture_output=True).returncode != 0
sys.exit(1 if bad else 0)
