"""Plant one bug: python3 tools/plant.py SPEC.json

SPEC: {"id","property","edits":[[file, old, new],...],"demo": python source, "needs","breaks"}.
Works in a scratch copy under /tmp; keeps it as seeded/<id>/ only if it applies,
builds, passes the stable tests and the demo tells the two trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile

spec = json.load(open(sys.argv[1]))
specs = spec if isinstance(spec, list) else [spec]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests")
RUN = "#!/bin/bash\n# exit 0: behaves; nonzero: broken\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD\" exec python3 \"$here/demo.py\"\n"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


for s in specs:
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = d + "/repo"
        sh(["git", "clone", "-q", "/repo", repo], "/tmp")
        os.makedirs(repo + "/tests/cts", exist_ok=True)
        shutil.copy("/opt/vp/data/cts.json", repo + "/tests/cts/cts.json")
        out = d + "/seed"
        os.makedirs(out)
        open(out + "/demo.py", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write(RUN)
        os.chmod(out + "/demo.sh", 0o755)
        r = sh(["bash", out + "/demo.sh"], repo)
        if r.returncode:
            print(s["id"], "REJECTED: demo fails unpatched", r.stdout[-500:], r.stderr[-800:])
            continue
        for f, old, new in s["edits"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "BAD EDIT", f, t.count(old), old)
                break
            open(repo + "/" + f, "w").write(t.replace(old, new))
        diff = sh(["git", "diff", "--", "jsonpath"], repo).stdout
        r = sh(["bash", out + "/demo.sh"], repo, timeout=300)
        if r.returncode == 0:
            print(s["id"], "REJECTED: demo passes patched")
            continue
        why = (r.stderr or r.stdout).strip().splitlines()[-1:]
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300", "-x",
                "--ignore=tests/test_nts.py", "-o", "pythonpath=."], repo, env=dict(env, PYTHONPATH=repo))
        tail = r.stdout.strip().splitlines()
        if r.returncode:
            print(s["id"], "REJECTED: tests fail", [l for l in tail if l.startswith("FAILED") or "rror" in l][:2], tail[-1:], r.stderr[-300:])
            continue
        # original lines?
        first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.split()[-1]
        out2 = "/verif/seeded/" + s["id"]
        shutil.rmtree(out2, ignore_errors=True)
        shutil.copytree(out, out2)
        open(out2 + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out2 + "/meta.json", "w"), indent=1)
        mine = []
        for f, old, new in s["edits"]:
            orig = sh(["git", "show", first + ":" + f], repo).stdout
            n = set(new.splitlines())
            mine += [l for l in old.splitlines() if l not in n and l not in orig.splitlines()]
        print(s["id"], "kept:", tail[-1], "|", why, "| lines not original:" if mine else "", mine or "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
