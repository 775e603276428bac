#!/usr/bin/env python3
"""mkbug.py NAME PROP GROUPS: takes the diff of /tmp/sd and /tmp/demo.cc, /tmp/meta.txt (needs \\n what) into seeded/NAME, resets /tmp/sd."""
import json, os, shutil, subprocess, sys
name, prop, groups = sys.argv[1:4]
d = f"/verif/seeded/{name}"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
diff = subprocess.run(["git", "-C", "/tmp/sd", "diff"], capture_output=True, text=True).stdout
assert diff
open(f"{d}/patch.diff", "w").write(diff)
needs, what = open("/tmp/meta.txt").read().strip().split("\n")
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
t = open("/verif/tools/demo_template.sh").read().replace("GROUPS_HERE", groups)
open(f"{d}/demo.sh", "w").write(t); os.chmod(f"{d}/demo.sh", 0o755)
shutil.copy("/tmp/demo.cc", f"{d}/demo.cc")
shutil.copytree("/verif/shims", f"{d}/shims", ignore=shutil.ignore_patterns("__pycache__"))
subprocess.run(["git", "-C", "/tmp/sd", "checkout", "-q", "--", "."])
