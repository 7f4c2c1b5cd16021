"""Run this property's check against each planted bug: python3 tools/seeds.py [ID...]

Works on clones of /repo under /tmp (SE_REPO), never on /repo itself.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.environ.get("SEEDED", here + "/seeded")
ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(seeded + "/*"))
for i in ids:
    s = f"{seeded}/{i}"
    prop = json.load(open(s + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=d + "/r")
        if r.returncode:
            print(i, prop, "DOES NOT APPLY", flush=True)
            continue
        t = time.time()
        r = subprocess.run(["python3-vt", "run.py", prop, "--tier", "quick"], cwd=os.environ.get("CHECKS", here),
                           env=dict(os.environ, SE_REPO=d + "/r"), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        how = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ") and l.rstrip().endswith("]") and ": " in l and "inputs" not in l][:1]
        why = [l for l in r.stdout.splitlines() if "exhausted" in l][-1:]
        print(i, prop, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time() - t:.0f}s", (how or v or why)[:1], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
