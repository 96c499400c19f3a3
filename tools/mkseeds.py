"""Development tool: (re)makes /verif/seeded/<id> from seeds.py in a scratch copy of /repo, and confirms
that each change builds, passes the tests, and is shown by its demonstration."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
W = "/tmp/seedwork"
OUT = os.path.join(os.path.dirname(HERE), "seeded")
ENV = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_NET_OFFLINE="true")


def sh(cmd, cwd=W):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))


def main(only):
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -q -- . && git clean -fdq")
    assert sh("cargo build --offline").returncode == 0
    os.rename(W + "/target/debug/silverfox", W + "/base-bin")
    for s in seeds.SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(OUT, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in ("clock.c", "lib.sh"):
            shutil.copy(os.path.join(HERE, "demo", f), d)
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\n# exits 0 if silverfox behaves, 1 if the defect shows\nHERE=$(cd "$(dirname "$0")" && pwd)\n. "$HERE/lib.sh"\n'
                    + s["demo"].strip("\n") + "\nexit 0\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        os.makedirs(W + "/target/debug", exist_ok=True)
        shutil.copy2(W + "/base-bin", W + "/target/debug/silverfox")
        base = sh(["bash", d + "/demo.sh"])
        for fn, old, new in s["edits"]:
            p = os.path.join(W, "src", fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), repr(old[:60]))
                break
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff -- src").stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh("cargo build --offline 2>&1")
        t = sh("cargo test --offline 2>&1") if b.returncode == 0 else b
        demo = sh(["bash", d + "/demo.sh"])
        ok = base.returncode == 0 and b.returncode == 0 and t.returncode == 0 and demo.returncode != 0
        print(s["id"], "ok" if ok else "BAD: base %d build %d tests %d demo %d" % (base.returncode, b.returncode, t.returncode, demo.returncode))
        if not ok:
            print((base.stdout if base.returncode else b.stdout if b.returncode else t.stdout if t.returncode else demo.stdout)[-1500:])
        sh("git checkout -q -- .")
    shutil.rmtree(W, ignore_errors=True)


main(sys.argv[1:])
