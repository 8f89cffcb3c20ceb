"""python3 tools/fixed.py  - lists /repo fix commits missing from known_findings.json; with 'ID text-in-subject' adds it."""
import json, subprocess, sys
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "6ed5ba7..HEAD"], capture_output=True, text=True).stdout.splitlines()
k = json.load(open("known_findings.json"))
have = " ".join(k["fixed"])
for l in log:
    h, s = l.split(" ", 1)
    if h in have:
        continue
    if len(sys.argv) > 2 and sys.argv[2] in s:
        k["fixed"].append(f"fixed: property={sys.argv[1]} {h} {s[5:]}")
    else:
        print("unlisted:", l)
hs = [l.split()[0] for l in log]
for f in k["fixed"]:
    if f.split()[2] not in hs:
        print("stale:", f)
json.dump(k, open("known_findings.json", "w"), indent=1)
