"""Plant one bug: plant.py SPEC.py [--test] [--check [IDS]] [--keep]
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; assert on failure)."""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET

spec = {}
exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec["ID"], spec["PROP"]
wt = f"/tmp/plant/{ID}"
out = f"/verif/seeded/{ID}"
shutil.rmtree(wt, ignore_errors=True)
os.makedirs("/tmp/plant", exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", wt])
for f, old, new in spec["EDITS"]:
    p = f"{wt}/doubleml/{f}"
    s = open(p).read()
    n = s.count(old)
    assert n == 1, f"{f}: {n} matches for {old!r}"
    open(p, "w").write(s.replace(old, new))
os.makedirs(out, exist_ok=True)
diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
open(f"{out}/patch.diff", "w").write(diff)
open(f"{out}/demo.py", "w").write(spec["DEMO"].lstrip())
open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD" OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                  'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(f"{out}/demo.sh", 0o755)
json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
# changed lines must be original ones
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
chk = subprocess.run(["git", "-C", wt, "stash", "-q"]);
subprocess.check_call(["git", "-C", wt, "stash", "pop", "-q"])
for f, old, new in spec["EDITS"]:
    orig = subprocess.check_output(["git", "-C", wt, "show", f"{base}:doubleml/{f}"], text=True)
    print("original lines:", f, all(l.strip() in orig for l in old.splitlines()))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
a = subprocess.run(["bash", f"{out}/demo.sh"], cwd="/repo", env=env, capture_output=True, text=True)
b = subprocess.run(["bash", f"{out}/demo.sh"], cwd=wt, env=env, capture_output=True, text=True)
print(f"demo unchanged rc={a.returncode} patched rc={b.returncode}")
if a.returncode:
    print(a.stderr[-1500:])
print("   ", (b.stderr.strip().splitlines() or [""])[-1][:300])
ok = a.returncode == 0 and b.returncode != 0
if "--check" in sys.argv:
    rest = sys.argv[sys.argv.index("--check") + 1:]
    ids = [x for x in rest if x.startswith("C")] or [PROP]
    for i in ids:
        e = dict(env, PYTHONPATH=f"/verif:{wt}", VERIF_REPO=wt, VERIF_SEED="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_TIER="quick")
        r = subprocess.run(["/opt/venv/bin/python", f"/verif/checks/{i}.py"], env=e, capture_output=True, text=True, cwd="/verif")
        ks = [l for l in r.stdout.splitlines() if l.startswith("keys")]
        print(f"check {i}: rc={r.returncode}", (ks or r.stdout.splitlines()[-1:])[0][:300] if r.stdout else r.stderr[-300:])
if "--test" in sys.argv:
    e = dict(env, PYTHONPATH="/opt/vp/plugins", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_pytest_plugin", "-n", "8", "--timeout=300",
                        "--ignore=doubleml/plm/tests/test_plr_classifier.py", "-x", "--maxfail=5", "doubleml"] + spec.get("PYTEST", []), cwd=wt, env=e, capture_output=True, text=True)
    print("tests:", r.stdout.strip().splitlines()[-1])
    print("\n".join(l for l in r.stdout.splitlines() if l.startswith("FAILED"))[:1500])
if "--keep" not in sys.argv:
    shutil.rmtree(wt, ignore_errors=True)
