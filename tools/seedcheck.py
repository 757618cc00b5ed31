#!/usr/bin/env python3
"""seedcheck.py ID...: confirms planted bugs (applies, builds, passes the stable
tests, demo fails with it and passes without it) and runs the property's check
against each. Works on /repo, which must be clean, and restores it."""
import json, os, subprocess, sys, time
R, S = "/repo", "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh(f"git -C {R} status --porcelain").stdout == "", "dirty /repo"
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedtests.json")
    j = json.load(open("/tmp/seedtests.json"))
    p = set(j.get("passed", j.get("pass", [])))
    b = json.load(open("/opt/vp/BASELINE.json"))
    want = set(b['stable'])
    return sorted(want - p)
args = sys.argv[1:]
nocheck = "--nocheck" in args; args = [a for a in args if not a.startswith("--")]
for i in args or sorted(os.listdir(S)):
    d = f"{S}/{i}"; meta = json.load(open(f"{d}/meta.json")); prop = meta["property"]
    out = [i, prop]
    clean = sh(f"bash {d}/demo.sh", cwd=R)
    out.append("demo clean ok" if clean.returncode == 0 else f"DEMO FAILS ON CLEAN TREE\n{clean.stdout[-1500:]}")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        out.append("builds" if b.returncode == 0 else f"BUILD FAILS {b.stdout[-800:]}")
        m = tests()
        out.append("tests ok" if not m else f"TESTS MISSING {m[:5]}")
        r = sh(f"bash {d}/demo.sh", cwd=R)
        out.append("demo fails" if r.returncode else "DEMO PASSES WITH THE BUG")
        if not nocheck:
            t = time.time()
            c = sh(f"VERIF_SEED=1 VERIF_TIER=quick /verif/check.sh {prop}", cwd="/verif")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
            out.append(("CAUGHT " if c.returncode == 1 else f"MISSED rc={c.returncode} ") + f"{time.time()-t:.0f}s " + " ".join(v)[:300] + ("" if c.returncode in (0, 1) else c.stdout[-800:]))
    finally:
        sh(f"git -C {R} checkout -- .")
    print(" | ".join(out), flush=True)
sh("bash /opt/vp/build.sh"); sh("rm -f /verif/replays/*.json")
