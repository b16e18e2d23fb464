#!/usr/bin/env python3
"""mkseed.py ID: writes seeded/ID/{patch.diff,demo.sh,meta.json} from a description in
/tmp/w/seeds/ID.py defining prop, needs, breaks, edits=[(file, old, new)], kind ('codec'|'engine'), demo (source)."""
import sys, os, json, subprocess, shutil
ID = sys.argv[1]
ns = {}
exec(open(f"/tmp/w/seeds/{ID}.py").read(), ns)
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
try:
    for f, old, new in ns["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        n = ns.get("count", {}).get(f, 1)
        assert s.count(old) >= 1, (f, old)
        assert s.count(old) == 1 or "nth" in ns or f in ns.get("multi", ()), (f, old, s.count(old))
        s = s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
shutil.copy(f"/verif/tools/demo_{ns['kind']}.sh", d + "/demo.sh")
open(d + "/demo.rs", "w").write(ns["demo"])
if ns["kind"] == "engine":
    shutil.copy("/verif/tools/demo_peer.rs", d + "/peer.rs")
