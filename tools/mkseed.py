"""mkseed.py ID : reads /tmp/seedsrc/ID.py (PROPERTY, FILE edits EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO) and builds /verif/seeded/ID after checks"""
import sys, os, subprocess, shutil, json, runpy
sid = sys.argv[1]
m = runpy.run_path(f"/tmp/seedsrc/{sid}.py")
wt = "/tmp/sw"
if not os.path.exists(wt):
    subprocess.check_call(["cp", "-a", "/repo", wt])
subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", shell=True, cwd=wt)
env = dict(os.environ, PYTHONPATH=f"{wt}:{wt}/irreptables", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PATH="/opt/venv/bin:"+os.environ["PATH"])
out = f"/verif/seeded/{sid}"
os.makedirs(out, exist_ok=True)
open(out+"/demo.py", "w").write(m["DEMO"].lstrip("\n"))
open(out+"/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD:$PWD/irreptables" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(out+"/demo.sh", 0o755)
if m.get("REF"):  # reference crystals, states and file writers
    os.makedirs(out+"/ref", exist_ok=True)
    open(out+"/ref/__init__.py", "w").close()
    for x in ("crystals", "physics", "formats"):
        shutil.copy(f"/verif/mc/{x}.py", out+"/ref/")
demo = lambda: subprocess.run(["bash", out+"/demo.sh"], cwd=wt, capture_output=True, text=True, timeout=300)
a = demo()
base = subprocess.run("git blame -s fccd57c..HEAD -- {f}", shell=True)if 0 else None
for f, old, new in m["EDITS"]:
    p = os.path.join(wt, f); s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    i = s[:s.index(old)].count("\n")+1
    n = old.rstrip("\n").count("\n")+1
    bl = subprocess.run(["git", "blame", "-s", "fccd57c..HEAD", "-L", f"{i},{i+n-1}", "--", f], cwd=wt, capture_output=True, text=True).stdout.split("\n")
    own = [l for l in bl if l and not l.startswith("^fccd57c")]
    if own: print("NOTE: touches own lines", own)
    open(p, "w").write(s.replace(old, new))
d = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
open(out+"/patch.diff", "w").write(d)
json.dump(dict(property=m["PROPERTY"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(out+"/meta.json", "w"), indent=1)
b = demo()
t = subprocess.run("python -W ignore -m pytest -q -p no:cacheprovider irrep/tests/test_abinit_scalar.py irrep/tests/test_espresso_spinor.py irrep/tests/test_refUC.py irrep/tests/test_symsep.py 2>&1 | tail -8", shell=True, cwd=wt, env=env, capture_output=True, text=True).stdout
print(sid, "demo unpatched", a.returncode, (a.stdout+a.stderr)[-300:].strip(), "| patched", b.returncode, (b.stdout+b.stderr)[-200:].strip(), "|", t.strip().split("\n")[-1])
subprocess.check_call("git checkout -q -f && git clean -fdq", shell=True, cwd=wt)
ok = a.returncode == 0 and b.returncode != 0 and "6 passed" in t and "failed" not in t
print(sid, "OK" if ok else "NOT KEPT")
if not ok: shutil.rmtree(out)
