"""known_findings.json: the list of repaired defects, one entry per fix commit of /repo"""
import json, os, subprocess
PROP = ["C02", "C02", "C17", "C03", "C03", "C03", "C05", "C04", "C04", "C04", "C06", "C06", "C09", "C06", "C06", "C07", "C07", "C17", "C08", "C08", "C08", "C08", "C08", "C08", "C09", "C09", "C09", "C09", "C09",
        "C09", "C10", "C11", "C12", "C12", "C14", "C16", "C11", "C15", "C16", "C16", "C16", "C15", "C16", "C05", "C16", "C16", "C17", "C18", "C18", "C18", "C14", "C18", "C09", "C06"]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fix = [l for l in log if " fix: " in l]
extra = json.load(open(os.path.join(here, "tools", "fixed_extra.json"))) if os.path.exists(os.path.join(here, "tools", "fixed_extra.json")) else {}
prop = PROP+[extra.get(l.split(" ", 1)[1]) for l in fix[len(PROP):]]
assert len(prop) == len(fix) and all(prop), (len(prop), len(fix), fix[len(PROP):])
path = os.path.join(here, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
out = {"findings": old.get("findings", []), "fixed": [f"fixed: property={p} {l.split()[0]} {l.split('fix: ', 1)[1]}" for p, l in zip(prop, fix)]}
json.dump(out, open(path, "w"), indent=1)
print(len(fix))
