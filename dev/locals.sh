# regenerates contracts/locals.txt from the current /repo (vx built under target/)
cd "$(dirname "$0")/.." && python3 - <<'P'
import os, subprocess, sys
sys.path.insert(0, ".")
import vp
exe = vp.build_vx()
r = subprocess.run([exe, os.path.join(vp.REPO, "src"), *vp.expand()], capture_output=True, text=True, env=dict(os.environ, VX_LOCALS="1"))
ls = sorted({l for l in r.stderr.splitlines() if "\t" in l and not l.endswith("\t") and not l.startswith("scalar_")})
open("contracts/locals.txt", "w").write("\n".join(ls) + "\n")
P
