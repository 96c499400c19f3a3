"""check <property> [quick|thorough]     decides one property
   check replay <file>                   runs a reported violation again
   check setup                           builds everything once"""
import hashlib
import json
import os
import random
import re
import shutil
import sys
import time
import traceback

import core
import gen
import plans
import models

EVID = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "known_findings.txt")
MAX_REPORTED = 8
BATCH = 4000          # histories executed and validated at a time


def stable(*parts):
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:12], 16)


RUN_INPUTS = ("op", "args", "env", "cwd", "now", "tz", "tty", "cols", "fault")


def inputs_of(h):
    """The inputs of a history, without anything observed."""
    evs = []
    for e in h["events"]:
        keep = {"edit": ("op", "set", "del", "append", "insert"), "race": ("op", "watch", "runs", "who", "user"), "run": RUN_INPUTS}[e["op"]]
        e = {k: e[k] for k in keep if k in e}
        if e["op"] == "race":
            e["runs"] = [{k: x[k] for k in RUN_INPUTS if k in x} for x in e["runs"]]
        evs.append(e)
    return dict({k: h[k] for k in ("id", "K", "tol", "level", "dirs") if k in h}, files=h["files"], events=evs)


def fingerprint(h):
    h = inputs_of(h)
    return hashlib.sha256(json.dumps([h["files"], h["events"]], sort_keys=True).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def known_findings(prop):
    """{fingerprint: text} of the findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def generate(prop, tier, seed):
    """The histories of a property's families, one list per family."""
    for idx, (name, quick, thorough, kw) in enumerate(plans.PLANS[prop]["families"]):
        n = quick if tier == "quick" else thorough
        if not n:
            continue
        r = random.Random(stable(seed, prop, name, idx))
        yield name, n, kw, r


def run_family(prop, name, n, kw, r, binary, shim, scratch, tier):
    """Yields batches of executed histories."""
    if name in ("faults", "read_faults"):
        bases = list((gen.fault_bases if name == "faults" else gen.read_bases)(r, n))
        spread = gen.with_faults if name == "faults" else gen.with_read_faults
        done = core.exec_all(bases, binary, shim, scratch)
        yield done
        by = {h["id"]: h for h in bases}
        faulty = [f for d in done for f in spread(by[d["id"]], d, dense=tier == "thorough")]
        for i in range(0, len(faulty), BATCH):
            yield core.exec_all(faulty[i:i + BATCH], binary, shim, scratch)
        return
    batch = []
    tr = random.Random(r.random())
    for h in getattr(gen, name)(r, n, **kw):
        batch.append(gen.retime(tr, h))
        if len(batch) == BATCH:
            yield core.exec_all(batch, binary, shim, scratch)
            batch = []
    if batch:
        yield core.exec_all(batch, binary, shim, scratch)


def relevant(names, plan):
    return (names & plan["conj"]) | (names & {"overflow"})


def confirm(hist, plan, binary, shim, scratch, tries=4):
    """Runs a rejected history again; returns the recorded history and its rejections, or None."""
    src = inputs_of(hist)
    for _ in range(tries):
        again = core.exec_all([src], binary, shim, scratch)
        if not again:
            continue
        rej, _st = core.validate(again, scratch, "confirm")
        bad = [(i, relevant(n, plan)) for i, n in rej.get(hist["id"], []) if relevant(n, plan)]
        if bad:
            return again[0], bad
    return None


def replay_file(prop, tag, hist, bad, tier, seed, note):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9.]", "_", tag)))
    run = lambda e: {k: e.get(k) for k in ("args", "rc", "stdout", "stderr", "set", "del", "wrote", "today")}
    obs = [run(e) if e["op"] == "run" else {"edit": e.get("set")} if e["op"] == "edit" else
           {"race": [run(x) for x in e["runs"]], "steps": e["ran"], "texts": e["texts"]} for e in hist["events"]]
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "note": note, "input": fingerprint(hist),
                   "rejected": [{"event": i, "conjuncts": sorted(n)} for i, n in bad],
                   "history": inputs_of(hist), "observed": obs}, f, indent=1, ensure_ascii=True)
    return path


def sample_of(h, stats_names=()):
    run = lambda e: {"args": e["args"], "today": gen.date(e["today"]).isoformat() if 0 <= e["today"] < 2900000 else e["today"],
                     "result": e["out"]["cls"], "report": e["out"]["kind"], "fault": e.get("fault")}
    ev = [run(e) if e["op"] == "run" else {"edit": sorted(e["set"])} if e["op"] == "edit" else
          {"race": [run(x) for x in e["runs"]], "steps": e["ran"]} for e in h["events"]]
    files = {p: (t if len(t) < 1200 else t[:1200] + "...") for p, t in h["files"].items()}
    return {"id": h["id"], "files": {p: core._clean(t) for p, t in files.items()}, "events": ev[:12]}


def check(prop, tier, seed):
    t0 = time.time()
    plan = plans.PLANS[prop]
    level = plan.get("level", "model_checking")
    known = known_findings(prop)
    binary, shim = core.build()
    scratch = core.scratch_dir()
    total = {"states": 0, "transitions": 0, "histories": 0, "events": 0}
    fams, samples, found, seen_known, flaky = [], [], [], set(), 0
    distinct = set()
    nontrivial = 0
    mods = []
    try:
        for name, n, kw, r in generate(prop, tier, seed):
            fs = {"family": name, "histories": 0, "runs": 0, "ok": 0, "errors": 0, "wrote": 0}
            tf = time.time()
            first = True
            for done in run_family(prop, name, n, kw, r, binary, shim, scratch, tier):
                rej, st = core.validate(done, scratch, prop)
                for k in total:
                    total[k] += st[k]
                fs["histories"] += len(done)
                by = {h["id"]: h for h in done}
                for h in done:
                    fp = fingerprint(h)
                    runs = core.runs_of(h)
                    fs["runs"] += len(runs)
                    fs["ok"] += sum(e["out"]["cls"] == "ok" for e in runs)
                    fs["errors"] += sum(e["out"]["cls"] == "error" for e in runs)
                    fs["wrote"] += sum(bool(e.get("set")) for e in h["events"] if e["op"] != "edit")
                    # not trivial: some run printed a report with content, changed a file, was refused
                    # for its input, or had a fault injected into it
                    if fp not in distinct:
                        distinct.add(fp)
                        nontrivial += any(e.get("set") or e["wrote"] or e["out"]["kind"] in ("bal", "env", "reg") or e["out"]["cls"] != "ok"
                                          or e.get("fault") for e in runs)
                if first and done:
                    samples.append(dict(sample_of(done[len(done) // 2]), family=name))
                    first = False
                for hid, bad in rej.items():
                    bad = [(i, relevant(names, plan)) for i, names in bad if relevant(names, plan)]
                    if not bad:
                        continue
                    h = by[hid]
                    fp = fingerprint(h)
                    if fp in known:
                        if fp not in seen_known:
                            seen_known.add(fp)
                            print("KNOWN-FINDING: property=%s %s" % (prop, known[fp]))
                        continue
                    found.append((h, bad))
                if len(found) >= MAX_REPORTED:
                    break
            fs["wall_s"] = round(time.time() - tf, 1)
            fams.append(fs)
            if len(found) >= MAX_REPORTED:
                break
        for m in [m for m in plan.get("models", []) if m in models.ALL] if not found else []:
            res = models.run(m, tier, seed, prop, binary, shim, scratch, plan, relevant)
            total["states"] += res["states"]
            total["transitions"] += res["transitions"]
            total["histories"] += res.get("traces", 0)
            mods.append({k: v for k, v in res.items() if k not in ("found", "samples")})
            samples += res.get("samples", [])
            found += res.get("found", [])
        out = []
        for h, bad in found[:MAX_REPORTED]:
            note = "reproduced"
            c = confirm(h, plan, binary, shim, scratch)
            if c is None:
                ev = h["events"][max(0, bad[0][0] - 1)]
                if ev.get("rc") in ("timeout", -9, -24) and not ev.get("fault"):
                    flaky += 1          # the machine was slow, not the program
                    continue
                note = "recorded once, not reproduced in 4 more runs"
            else:
                h, bad = c
            out.append((replay_file(prop, h["id"], h, bad, tier, seed, note), h, bad))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov = {"samples": samples[:8], "families": fams, "runs_of_the_real_program": total["events"],
           "conjuncts": sorted(plan["conj"]), "models": mods, "not_reproduced_timeouts": flaky}
    if level == "model_checking":
        cov.update(states=total["states"], transitions=total["transitions"],
                   traces_validated_against_impl=total["histories"])
    else:
        cov.update(evaluations=total["histories"], distinct_nontrivial=nontrivial, exhaustive=False, states=total["states"],
                   rule="every mutating file-system call of a base run x {killed before it, killed after it, EIO, ENOSPC, "
                        "short write, short write then killed, short write then ENOSPC}, and histories without faults; "
                        "non-trivial: distinct inputs in which a run reports, changes a file, is refused, or has a fault injected")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["the specification in spec/ states the intended behaviour",
                          "TLC, the parsers of silverfox's output in harness/core.py and the LD_PRELOAD shim are trusted"],
          "wall_s": round(time.time() - t0, 2), "violations": len(out)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    for path, h, bad in out:
        print("rejected: %s at %s" % (h["id"], "; ".join("event %d: %s" % (i, ", ".join(sorted(n))) for i, n in bad[:4])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d histories, %d runs of silverfox, %d states, %d violations, %.1f s"
          % (prop, tier, total["histories"], total["events"], total["states"], len(out), ev["wall_s"]))
    return 1 if out else 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    plan = plans.PLANS[rec["property"]]
    binary, shim = core.build()
    scratch = core.scratch_dir()
    try:
        c = confirm(rec["history"], plan, binary, shim, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if c is None:
        print("not reproduced")
        return 0
    h, bad = c
    for p, t in h["files"].items():
        print("--- %s\n%s" % (p, t))
    for k, e in enumerate(h["events"], 1):
        if e["op"] == "edit":
            print("[%d] edit %s" % (k, json.dumps(e["set"])))
        elif e["op"] == "race":
            for n, x in enumerate(e["runs"], 1):
                print("[%d.%d] %s (today %s) -> %s\n%s%s" % (k, n, " ".join(x["args"]), x["today"], x["rc"], x["stdout"], x["stderr"]))
            for n, (p, t) in enumerate(zip(e["ran"], e["texts"]), 1):
                print("    after step %d, of %s:\n%s" % (n, "run %d" % p if p else "the user", t))
        else:
            print("[%d] %s (today %s) -> %s\n%s%s" % (k, " ".join(e["args"]), e["today"], e["rc"], e["stdout"], e["stderr"]))
            for p, t in e["set"].items():
                print("    %s becomes:\n%s" % (p, t))
    for i, n in bad:
        print("rejected: event %d: %s" % (i, ", ".join(sorted(n))))
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


def main(argv):
    if argv[:1] == ["setup"]:
        core.build()
        print("built")
        return 0
    if argv[:1] == ["replay"]:
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException as e:
        print("CHECK-ERROR: %s" % e)
        traceback.print_exc()
        sys.exit(2)
