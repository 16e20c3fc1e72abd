"""mkseed.py FILE: create seeded/<id>/ from a description (python file defining id, property, edits=[(file,old,new)],
needs, breaks, demo (python text), threads).  The change is made in a scratch worktree to get the diff."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {"threads": 1}
exec(open(sys.argv[1]).read(), g)
w = tempfile.mkdtemp(prefix="seedwt", dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
try:
    for f, old, new in g["edits"]:
        s = open(os.path.join(w, f)).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(os.path.join(w, f), "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
d = os.path.join(V, "seeded", g["id"])
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write("from yade import *\nimport vp_iter; vp_iter.patch()\nimport yade.boot, sys, os\nfrom yade import utils\nfrom minieigen import *\n\n\ndef check(c, what):\n    if not c:\n        print('FAILED: %s' % (what,))\n        sys.stdout.flush()\n        os._exit(1)\n\n\n"
                                + g["demo"].strip() + "\nprint('ok')\nsys.stdout.flush()\nos._exit(0)\n")
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the property holds for this history
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W"
export HOME="$W" OMP_NUM_THREADS=%d PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPATH=/opt/vp/py3compat/modules:/repo/_build/inst/lib/x86_64-linux-gnu/yade/py
timeout 120 %s/usr/bin/python3 "$D/demo.py"
""" % (g["threads"], ("mpirun --allow-run-as-root --oversubscribe -np %d " % g["mpi"]) if g.get("mpi") else ""))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
