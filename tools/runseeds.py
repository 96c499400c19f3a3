"""Development tool: applies each planted bug in turn to a scratch copy of /repo, runs its property's quick check on that."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
ids = sorted(d for d in os.listdir(V + "/seeded") if not only or d in only or any(d.startswith(o) for o in only))
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
missed = []
W = tempfile.mkdtemp(prefix="runseeds")
REPO = W + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
env["SFX_REPO"] = REPO
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    r = subprocess.run(["git", "-C", REPO, "apply", d + "/patch.diff"])
    if r.returncode:
        print(i, "DOES NOT APPLY"); continue
    t = time.time()
    try:
        p = subprocess.run([V + "/check", prop, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "--", "."])
    hit = p.returncode == 1 and ("VIOLATION property=" + prop) in p.stdout
    print("%-28s %s %-7s rc=%d %.0fs" % (i, prop, "caught" if hit else "MISSED", p.returncode, time.time() - t), flush=True)
    if not hit:
        missed.append(i); print(p.stdout[-600:])
shutil.rmtree(W)
print("missed:", missed)
