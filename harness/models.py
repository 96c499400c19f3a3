"""Bounded models of the specification (spec/MC_*.tla). TLC explores each exhaustively, checks its
invariants and emits its behaviours together with what must be observed; the behaviours are replayed
in the real program. A behaviour whose observation differs is handed to TLC's trace validation, which
names the conjuncts that fail."""
import json
import os
import random
import re
import shutil
import tempfile
import time

import core
import gen
from core import ROOT, edit, run as R
from gen import MAIN, H, fdate

CASE = re.compile(r'^<<"CASE", (".*")>>$', re.M)


def tlc(module, consts, invariants, scratch, workers=None, timeout=3000, heap="6g", props=()):
    """Model checks spec/<module>.tla; returns (emitted cases, distinct states, states generated)."""
    d = tempfile.mkdtemp(prefix="mc-", dir=scratch)
    cfg = os.path.join(d, "m.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        for k, v in consts.items():
            f.write("CONSTANT %s = %s\n" % (k, v))
        f.write("INVARIANTS " + " ".join(invariants) + "\n")
        if props:
            f.write("PROPERTIES " + " ".join(props) + "\n")
    try:
        rc, out = core.java(module + ".tla", cfg, d, workers=workers or core.NPROC, timeout=timeout, heap=heap)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = core.STATES.search(out)
    if rc != 0 or not m or "Model checking completed. No error" not in out:
        raise core.ToolError("the model %s doesn't hold:\n%s" % (module, core.tlc_error(out)))
    # distinct: workers may print a case once per generated state
    cases = {x: None for x in CASE.findall(out)}
    return [json.loads(json.loads(x)) for x in cases], int(m.group(2)), int(m.group(1))


AMOUNT = re.compile(r"[-0-9.,]")


def amount(text):
    """(number, currency) of an amount silverfox printed."""
    n = "".join(c for c in text if c.isdigit() or c in "-.")
    s = "".join(c for c in text if not (c.isdigit() or c in "-.,")).strip()
    return float(n), s


def close(a, b, tol):
    return abs(a - b) <= tol + 1e-9


def pool_ok(texts, want, sc, tol):
    got = {}
    for t in texts:
        v, s = amount(t)
        if s in got:
            return False
        got[s] = v
    want = {} if isinstance(want, list) else want
    return all(close(got.get(s, 0), want.get(s, 0) / sc, tol) for s in set(got) | set(want))


def env_ok(out, rows, sc, tol):
    """The envelope report against expected rows {account: {avail, envs}}."""
    if out["cls"] != "ok":
        return False
    rows = {} if isinstance(rows, list) else rows
    if {a["a"] for a in out["envs"]} != set(rows) or len(out["envs"]) != len(rows):
        return False
    for a in out["envs"]:
        w = rows[a["a"]]
        if not pool_ok(a["avail"], w["avail"], sc, tol) or len(a["envs"]) != len(w["envs"]):
            return False
        for o in a["envs"]:
            x = [e for e in w["envs"] if e["t"] == o["t"] and e["n"] == o["n"]]
            if len(x) != 1 or o["due"] != x[0]["due"]:
                return False
            for k, t in (("now", o["now"]), ("next", o["next"]), ("target", o["t1"]), ("target", o["t2"])):
                v, s = amount(t)
                if s != x[0]["s"] or not close(v, x[0][k] / sc, tol):
                    return False
    return True


def bal_ok(out, bal, sc, tol):
    bal = {} if isinstance(bal, list) else bal
    return out["cls"] == "ok" and len(out["bal"]) == len(bal) and \
        all(r["a"] in bal and pool_ok(r["v"], bal[r["a"]], sc, tol) for r in out["bal"])


def reg_ok(out, reg, sc, tol):
    rows = [r for r in out["reg"] if any(amount(x["m"])[0] != 0 for x in r["amts"])]
    if out["cls"] != "ok" or len(rows) != len(reg):
        return False
    for r, w in zip(rows, reg):
        if r["date"] != fdate(w["day"]) or r["from"] != w["from"] or r["to"] != w["to"] or r["status"] != w["status"]:
            return False
        got = {amount(x["m"])[1]: (amount(x["m"])[0], amount(x["run"])[0]) for x in r["amts"] if amount(x["m"])[0] != 0}
        if set(got) != set(w["amts"]) or not all(close(got[s][0], w["amts"][s]["m"] / sc, tol) and
                                                 close(got[s][1], w["amts"][s]["run"] / sc, tol) for s in got):
            return False
    return True


def moves_in(text):
    out = {}
    for l in text.split("\n"):
        t = l.split()
        if t[:1] == ["envelope"] and len(t) >= 4:
            v, s = amount(" ".join(t[3:]))
            out[t[1], t[2], s] = out.get((t[1], t[2], s), 0) + v
        elif l[:1].isspace() and t:
            out["other", l, ""] = 1
    return out


def moves_ok(appended, posts, sc, tol):
    got = moves_in(appended)
    want = {}
    for p in posts:
        k = (p["acct"], p["env"], p["amt"]["s"])
        want[k] = want.get(k, 0) + p["amt"]["m"] / sc
    return all(close(got.get(k, 0), want.get(k, 0), tol) for k in set(got) | set(want))


def replay(hists, expects, binary, shim, scratch, batch=3000):
    """Runs the histories and compares; returns the executed histories that differ."""
    bad, runs = [], 0
    for i in range(0, len(hists), batch):
        done = core.exec_all(hists[i:i + batch], binary, shim, scratch)
        for h in done:
            rs = [e for e in h["events"] if e["op"] != "edit"]
            runs += len(core.runs_of(h))
            want = expects[h["id"]]
            if not all(f(e) for f, e in zip(want, rs)):
                bad.append(h)
        if len(bad) > 30:
            break
    return bad, runs


def settle(name, bad, sample, scratch, plan, relevant):
    """Trace validation of the behaviours that differ, and of a sample of the others."""
    found = []
    rej, st = core.validate(bad + sample, scratch, name) if bad or sample else ({}, {"states": 0})
    for h in bad:
        if h["id"] not in rej:      # the comparison above is narrower than the specification, which decides
            print("NOTE: %s: %s differs from the model's expectation but not from the specification" % (name, h["id"]))
    for h in bad + sample:
        hits = [(i, relevant(n, plan)) for i, n in rej.get(h["id"], []) if relevant(n, plan)]
        if hits:
            found.append((h, hits))
    return found, st["states"]


# ------------------------------------------------------------------ MC_Calendar

def calendar(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Calendar"))
    # quick: two years from a date that depends on the seed; thorough: a century
    first = gen.day(2023, 12, 20) if quick else gen.day(1999, 11, 1)
    last = gen.day(2026, 3, 10) if quick else gen.day(2104, 3, 31)
    cases, st, tr = tlc("MC_Calendar", {"K": 2, "First": first, "Final": last, "Full": "FALSE" if quick else "TRUE"},
                        ["DatesInverse", "NextRight", "LastRight", "TextRight", "SplitRight", "EmitCase"], scratch)
    texts = [c for c in cases if "texts" in c][0]["texts"]
    days = sorted((c for c in cases if "today" in c), key=lambda c: c["today"])
    hists, expects = [], {}
    moved = "env.split" in plan["conj"]
    per = 1 if moved else 20
    if moved and quick:
        days = [d for k, d in enumerate(days) if (k + seed) % 2 == 0]
    head = "account assets:c\n" + "".join("  expense e%d %s\n    amount 5\n" % (i, t) for i, t in enumerate(texts))
    for i in range(0, len(days), per):
        ds = days[i:i + per]
        hid = "cal%d" % ds[0]["today"]
        evs, want, body = [], [], ""
        if moved:
            d = ds[0]
            for k, p in enumerate(d["pivot"]):
                if p > -1000000:
                    body += "".join("%s * x\n  envelope assets:c e%d %d\n" % (fdate(p + o), k, m) for o, m in ((-1, 1), (0, 2), (1, 4)))
        for d in ds:
            evs.append(R(["e", "-n", "-f", MAIN], d["today"]))

            def ok(e, d=d):
                if e["out"]["cls"] != "ok" or len(e["out"]["envs"]) != 1:
                    return False
                rows = {o["n"]: o for o in e["out"]["envs"][0]["envs"]}
                for k in range(len(texts)):
                    o = rows.get("e%d" % k)
                    if o is None or o["due"] != d["due"][k]:
                        return False
                    if moved and d["pivot"][k] > -1000000 and [amount(o["now"])[0], amount(o["next"])[0]] != d["held"][k]:
                        return False
                return True
            want.append(ok)
        hists.append(H(hid, {MAIN: head + body}, evs))
        expects[hid] = want
    bad, runs = replay(hists, expects, binary, shim, scratch)
    sample = core.exec_all(r.sample(hists, min(len(hists), 4)), binary, shim, scratch)
    found, st2 = settle("MC_Calendar", bad[:12], sample, scratch, plan, relevant)
    return dict(model="MC_Calendar", states=st + st2, transitions=tr, traces=len(hists), runs=runs, found=found,
                bounds="%s to %s, %d schedules" % (gen.date(first), gen.date(last), len(texts)),
                samples=[{"id": hists[0]["id"], "model": "MC_Calendar", "schedules": texts[:6], "days": [str(gen.date(d["today"])) for d in days[:3]]}])


def gen_seed(*parts):
    import hashlib
    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:12], 16)


# ------------------------------------------------------------------ MC_Budget

BUDGET_INV = ["Loads", "TotalsRight", "SplitRight", "OrderFree", "Conserved", "Safe", "Once", "ReadBack", "Greedy",
              "EmitSetups", "EmitCase"]


def budget(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Budget"))
    cases, st, tr = tlc("MC_Budget", {"K": 4, "MaxLen": 3 if quick else 5, "Setups": "{1, 2, 3, 4, 5}",
                                      "Emitting": 1 if quick else 7}, BUDGET_INV, scratch)
    setups = {c["setup"]: c for c in cases if "setup" in c}
    cases = [c for c in cases if "acts" in c]
    hists, expects = [], {}
    for c in cases:
        if quick and len(c["acts"]) == 3 and r.random() < 0.35:
            continue
        h, want = budget_history(c, setups[c["s"]])
        hists.append(h)
        expects[h["id"]] = want
    bad, runs = replay(hists, expects, binary, shim, scratch)
    sample = core.exec_all(r.sample(hists, min(len(hists), 12)), binary, shim, scratch)
    found, st2 = settle("MC_Budget", bad[:12], sample, scratch, plan, relevant)
    return dict(model="MC_Budget", states=st + st2, transitions=tr, traces=len(hists), runs=runs, found=found,
                bounds="all behaviours of up to %d steps in 5 setups; %d replayed" % (3 if quick else 5, len(hists)),
                samples=[{"id": hists[-1]["id"], "model": "MC_Budget", "behaviour": cases[-1]["acts"], "setup": setups[cases[-1]["s"]]["text"]}])


def budget_history(c, su):
    sc = 10 ** su["k"]
    tol = su["tol"] / sc
    today = su["day0"]
    na = len(su["adds"])
    evs, want, chunks = [], [], []
    k = 0
    for a in c["acts"]:
        if a <= na:
            x = su["adds"][a - 1]
            t = "%s * x\n%s" % (fdate(today - x["off"]), "".join("    %s\n" % p for p in x["posts"]))
            chunks.append(t)
            evs.append(edit(append={MAIN: "\n" + t}))
        elif a <= na + 2:
            today += su["ticks"][a - na - 1]
        else:
            posts = c["runs"][k]
            k += 1
            evs.append(R(["be"[k % 2], "-f", MAIN], today))

            def ok(e, posts=posts):
                if e["out"]["cls"] != "ok" or e["del"] or set(e["set"]) - {MAIN}:
                    return False
                if not posts:
                    return not e["set"]
                return MAIN in e["set"] and moves_ok(last_entry(e["set"][MAIN]), posts, sc, tol)
            want.append(ok)
            if posts:
                chunks.append("%s ~ Automatic\n%s" % (fdate(today), "".join("  envelope %s %s %s\n" % (
                    p["acct"], p["env"], gen.num(p["amt"]["m"], su["k"]) + " " + p["amt"]["s"]) for p in posts)))
    fin = {"e": lambda e: env_ok(e["out"], c["envs"], sc, tol), "b": lambda e: bal_ok(e["out"], c["bal"], sc, tol),
           "r": lambda e: reg_ok(e["out"], c["reg"], sc, tol)}
    for x in "ebr":
        evs.append(R([x, "-n", "-f", MAIN], today))
        want.append(fin[x])
    if len(chunks) > 1:        # the same entries the other way round
        evs.append(edit({MAIN: su["text"] + "\n".join(reversed(chunks))}))
        for x in "eb":
            evs.append(R([x, "-n", "-f", MAIN], today))
            want.append(fin[x])
    hid = "bud%d.%s" % (c["s"], "".join(map(str, c["acts"])))
    return H(hid, {MAIN: su["text"]}, evs, su["k"], su["tol"]), want


def last_entry(text):
    """The text of the last entry of a journal."""
    ls = text.split("\n")
    at = max(i for i, l in enumerate(ls) if l[:1] and not l[:1].isspace())
    return "\n".join(ls[at + 1:])


def finish(name, r, hists, expects, bounds, st, tr, binary, shim, scratch, plan, relevant, nsample=10, samples=None):
    """Replays, settles and reports."""
    bad, runs = replay(hists, expects, binary, shim, scratch)
    sample = core.exec_all(r.sample(hists, min(len(hists), nsample)), binary, shim, scratch)
    found, st2 = settle(name, bad[:12], sample, scratch, plan, relevant)
    return dict(model=name, states=st + st2, transitions=tr, traces=len(hists), runs=runs, found=found, bounds=bounds,
                samples=[dict(samples or {}, id=hists[-1]["id"], model=name,
                              files={p: t[:600] for p, t in hists[-1]["files"].items()})])


# ------------------------------------------------------------------ MC_Entries

def entries(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Entries"))
    n = 3 if quick else 4
    cases, st, tr = tlc("MC_Entries", {"K": 2, "MaxLen": n, "Emitting": 1},
                        ["VerdictRight", "ZeroSum", "WorthNothing", "AnyPermutation", "EmitCase"], scratch)
    hists, expects = [], {}
    for i, c in enumerate(cases):
        hid = "ent%d" % i
        day = gen.day(2025, 1, 12)
        if c["ok"]:
            hists.append(H(hid, {MAIN: c["text"]}, [R(["b", "-n", "-f", MAIN], day), R(["r", "-n", "-f", MAIN], day)]))
            expects[hid] = [lambda e, c=c: bal_ok(e["out"], c["bal"], 100, 0), lambda e, c=c: reg_ok(e["out"], c["reg"], 100, 0)]
        else:
            hists.append(H(hid, {MAIN: c["text"]}, [R([r.choice("ber"), "-f", MAIN], day)]))
            expects[hid] = [lambda e: e["out"]["cls"] == "error" and not e["set"]]
    return finish("MC_Entries", r, hists, expects, "all entries of up to %d postings of 15 kinds" % n, st, tr,
                  binary, shim, scratch, plan, relevant)


# ------------------------------------------------------------------ MC_Amounts

def amounts(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Amounts"))
    cases, st, tr = tlc("MC_Amounts", {"K": 2, "MaxJunk": 3 if quick else 5}, ["MeaningRight", "JunkRefused", "EmitCase"], scratch)
    good, junk = [c for c in cases if c["ok"]], [c for c in cases if not c["ok"]]
    r.shuffle(good)
    day = gen.day(2025, 1, 12)
    hists, expects = [], {}
    for i in range(0, len(good), 60):
        cs = good[i:i + 60]
        hid = "amt%d" % i
        text = "account z\naccount a\n" + "".join("  expense e%d no date\n    amount %s\n" % (k, c["text"]) for k, c in enumerate(cs)) + \
            "".join("account p%d\n" % k for k in range(len(cs))) + \
            "".join("2025/01/01 * x\n  p%d %s\n  z\n" % (k, c["text"]) for k, c in enumerate(cs))
        hists.append(H(hid, {MAIN: text}, [R(["b", "-n", "-f", MAIN], day), R(["e", "-n", "-f", MAIN], day)]))

        def bal(e, cs=cs):
            rows = {x["a"]: x["v"] for x in e["out"]["bal"]}
            return e["out"]["cls"] == "ok" and all(
                "p%d" % k in rows and pool_ok(rows["p%d" % k], {c["s"]: c["m"]}, 100, 0) for k, c in enumerate(cs))

        def env(e, cs=cs):
            if e["out"]["cls"] != "ok" or len(e["out"]["envs"]) != 1:
                return False
            rows = {o["n"]: o for o in e["out"]["envs"][0]["envs"]}
            return all("e%d" % k in rows and close(amount(rows["e%d" % k]["t1"])[0], c["m"] / 100, 0)
                       and amount(rows["e%d" % k]["t1"])[1] == c["s"] for k, c in enumerate(cs))
        expects[hid] = [bal, env]
    for i, c in enumerate(junk):
        hid = "junk%d" % i
        text = r.choice(["account z\naccount a\n2025/01/01 * x\n  a %s\n  z\n", "account a\n  expense e no date\n    amount %s\n",
                         "account z\naccount a\n2025/01/01 * x\n  a 5 X @ %s\n  z\n"]) % c["text"]
        hists.append(H(hid, {MAIN: text}, [R(["b", "-n", "-f", MAIN], day)]))
        expects[hid] = [lambda e: e["out"]["cls"] == "error"]
    return finish("MC_Amounts", r, hists, expects, "%d ways to write amounts, %d texts that are none" % (len(good), len(junk)),
                  st, tr, binary, shim, scratch, plan, relevant, nsample=4)


# ------------------------------------------------------------------ MC_Rules, MC_Csv

HEAD = re.compile(r"(\S+) ([?~*])(?: (.*?))?(?: (\[.*\]))?")


def entries_in(text):
    """[(date, status, description, payee, [posting text])] of an appended text."""
    out = []
    for l in text.split("\n"):
        if not l.strip():
            continue
        if l[:1].isspace():
            if not out:
                return None
            out[-1][4].append(l.split())
        else:
            m = HEAD.fullmatch(l.rstrip())
            if not m:
                return None
            out.append((m.group(1), m.group(2), " ".join((m.group(3) or "").split()), m.group(4) or "(none)", []))
    return out


def rules(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Rules"))
    n = 4 if quick else 6
    cases, st, tr = tlc("MC_Rules", {"K": 2, "MaxLen": n, "Emitting": 1 if quick else 7}, ["Agree", "EmitCase"], scratch)
    head = "".join("account %s\n" % a for a in ("assets:b", "x", "y", "expenses:unknown", "income:unknown"))
    day = gen.day(2025, 2, 2)
    csv, rul = ROOT + "/b.csv", ROOT + "/b.rules"
    hists, expects = [], {}
    for i, c in enumerate(cases):
        hid = "rul%d" % i
        hists.append(H(hid, {MAIN: head, csv: "".join(",".join(x) + "\n" for x in c["recs"]), rul: c["rules"]},
                       [R(["i", "-n", "-f", MAIN, "--csv", csv, "--rules", rul], day)]))

        def ok(e, c=c):
            if e["out"]["cls"] != "ok" or MAIN not in e["set"]:
                return False
            es = entries_in(e["set"][MAIN][len(head):])
            if es is None or len(es) != len(c["said"]):
                return False
            for x, w in zip(es, c["said"]):
                if x[:4] != (fdate(w["day"]), w["status"], w["desc"], w["payee"]) or len(x[4]) != 2:
                    return False
                ps = {p[0]: p[1:] for p in x[4]}
                if set(ps) != {"assets:b", w["a2"]} or ps[w["a2"]] or amount(" ".join(ps["assets:b"])) != (w["m"] / 100, ""):
                    return False
            return True
        expects[hid] = [ok]
    return finish("MC_Rules", r, hists, expects, "rules files of up to %d rules out of 13, five records; %d replayed" % (n, len(hists)),
                  st, tr, binary, shim, scratch, plan, relevant)


def csvs(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Csv"))
    cases, st, tr = tlc("MC_Csv", {"K": 2, "MaxRec": 2, "MaxFields": 2, "MaxRaw": 5 if quick else 8, "Emitting": 5 if quick else 3},
                        ["RoundTrip", "EmitCase"], scratch)
    head = "account assets:b\naccount x\n"
    day = gen.day(2025, 2, 2)
    csv, rul = ROOT + "/b.csv", ROOT + "/b.rules"
    hists, expects = [], {}
    for i, c in enumerate(cases):
        hid = "csv%d" % i
        hists.append(H(hid, {MAIN: head, csv: c["csv"], rul: c["rules"]},
                       [R(["i", "-n", "-f", MAIN, "--csv", csv, "--rules", rul], day)]))

        def ok(e, c=c):
            if not c["ok"]:
                return e["out"]["cls"] == "error" and not e["set"]
            if e["out"]["cls"] != "ok":
                return False
            es = entries_in(e["set"][MAIN][len(head):]) if MAIN in e["set"] else []
            return es is not None and [x[2] for x in es] == [" ".join(d.split()) for d in c["descs"]]
        expects[hid] = [ok]
    return finish("MC_Csv", r, hists, expects, "CSV texts of up to 2 records of up to 2 fields, and all texts of up to %d characters; %d replayed"
                  % (5 if quick else 8, len(hists)), st, tr, binary, shim, scratch, plan, relevant)


# ------------------------------------------------------------------ MC_Layout

def layout(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Layout"))
    if "files.other" in plan["conj"]:       # about includes
        ne, nc, em = (0, 2, 1) if quick else (1, 1, 2)
    else:
        ne, nc, em = (2, 0, 1) if quick else (3, 0, 29)
    cases, st, tr = tlc("MC_Layout", {"K": 2, "MaxEdits": ne, "MaxCuts": nc, "Emitting": em},
                        ["BaseRight", "Same", "Missing", "EmitCase"], scratch, timeout=6000)
    if nc == 1:                             # and cuts of cuts
        c2, st2, tr2 = tlc("MC_Layout", {"K": 2, "MaxEdits": 0, "MaxCuts": 2, "Emitting": 1},
                           ["BaseRight", "Same", "EmitCase"], scratch)
        cases, st, tr = cases + c2, st + st2, tr + tr2
    base = [c for c in cases if c["cuts"] == 0 and c["nedits"] == 0][0]
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    if quick:
        cases = r.sample(cases, min(len(cases), 4500))
    day = gen.day(2025, 1, 13)
    # the plain journal first: what every layout of it must show
    plain = core.exec_all([H("lay0", base["files"], [R([x] + (["-n"] if x != "e" else []) + ["-f", MAIN], day) for x in "bre"])],
                          binary, shim, scratch)[0]
    seen = {x: e for x, e in zip("bre", plain["events"])}
    grown = plain["events"][2]["set"].get(MAIN, base["files"][MAIN])[len(base["files"][MAIN]):]
    hists, expects = [], {}
    for i, c in enumerate(cases):
        hid = "lay%d" % (i + 1)
        files = c["files"]
        cwd, name = r.choice([(ROOT, "main.sfox"), (ROOT, MAIN), (ROOT + "/sub", "../main.sfox"), (ROOT + "/oth", MAIN)]) if nc else (ROOT, MAIN)
        x = r.choice("br")
        gone = sorted(p for p in files if p != MAIN)
        if gone and r.random() < 0.15:
            gone = r.choice(gone)
            evs = [R([r.choice("ber"), "-f", name], day, cwd=cwd)]
            files = {p: t for p, t in files.items() if p != gone}
            want = [lambda e: e["out"]["cls"] == "error" and not e["set"]]
        else:
            evs = [R([x, "-n", "-f", name], day, cwd=cwd), R(["e", "-f", name], day, cwd=cwd)]
            want = [lambda e, x=x: e["out"] == seen[x]["out"] and not e["set"],
                    lambda e, t=files[MAIN]: e["out"] == seen["e"]["out"] and (e["set"] == {MAIN: t + grown} if grown else not e["set"])]
        hists.append(dict(H(hid, files, evs), dirs=[ROOT + "/sub", ROOT + "/oth"]))
        expects[hid] = want
    found, st3 = settle("MC_Layout", [], [plain], scratch, plan, relevant)
    res = finish("MC_Layout", r, hists, expects, "up to %d edits out of 11 kinds at every line, up to %d cuts; %d replayed" %
                 (ne, 2 if nc == 1 else nc, len(hists)), st + st3, tr, binary, shim, scratch, plan, relevant)
    res["found"] = found + res["found"]
    return res


# ------------------------------------------------------------------ MC_Cli

def cli(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Cli"))
    n = 4 if quick else 5
    cases, st, tr = tlc("MC_Cli", {"K": 2, "MaxArgs": n, "Emitting": 131 if quick else 501}, ["Agree", "EmitCase"], scratch)
    # and every shorter command line
    c2, st2, tr2 = tlc("MC_Cli", {"K": 2, "MaxArgs": 2 if quick else 3, "Emitting": 1}, ["Agree", "EmitCase"], scratch)
    cases, st, tr = cases + c2, st + st2, tr + tr2
    base = "account assets:c\n  expense food due every 5th\n    amount 10\n    funding aggressive\naccount inc\n2025/05/01 * x\n  assets:c %d\n  inc\n"
    files = {ROOT + "/a.sfox": base % 100, ROOT + "/b.sfox": base % 200, ROOT + "/c.sfox": base % 300,
             ROOT + "/m.csv": "2025/06/01,one,5\n", ROOT + "/m2.csv": "2025/06/02,two,6\n",
             ROOT + "/m.csv.rules": "fields date, description, amount\naccount assets:c\naccount2 inc\n",
             ROOT + "/r.rules": "fields date, description, amount\naccount inc\naccount2 assets:c\n"}
    day = gen.day(2025, 6, 15)
    # what each request means is seen from its plainest form
    plain, want = {}, {}

    def form(s):
        a = [s["cmd"], "-f", s["file"][0]] + (["-n"] if s["nomove"] else [])
        if s["cmd"] == "i":
            a += ["--csv", s["csv"][0]] if s["csv"] else []
            a += ["--rules", s["rules"][0]] if s["rules"] else []
        return tuple(a)
    for c in cases:
        s = c["said"]
        if s["ok"] and not s["help"]:
            plain[form(s)] = None
    done = core.exec_all([H("plain%d" % i, files, [R(list(a), day)]) for i, a in enumerate(plain)], binary, shim, scratch)
    for a, h in zip(plain, done):
        e = h["events"][0]
        plain[a] = (e["out"], {p: sorted(t.split("\n")) for p, t in e["set"].items()})
    hists, expects = [], {}
    for i, c in enumerate(cases):
        hid = "cli%d" % i
        s = c["said"]
        hists.append(H(hid, files, [R(c["args"], day, env=c["env"] or {})]))
        if s["help"]:
            expects[hid] = [lambda e: e["out"]["kind"] == "help" and not e["set"]]
        elif not s["ok"]:
            expects[hid] = [lambda e: e["out"]["cls"] == "error" and not e["set"]]
        else:
            expects[hid] = [lambda e, a=form(s): (e["out"], {p: sorted(t.split("\n")) for p, t in e["set"].items()}) == plain[a]]
    found, st3 = settle("MC_Cli", [], done, scratch, plan, relevant)
    res = finish("MC_Cli", r, hists, expects, "all command lines of up to %d words in 16 environments; %d replayed" % (n, len(hists)),
                 st + st3, tr, binary, shim, scratch, plan, relevant)
    res["found"] = found + res["found"]
    return res


# ------------------------------------------------------------------ MC_Bars

def bars(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Bars"))
    lo, hi = (1, 90) if quick else (1, 400)
    cases, st, tr = tlc("MC_Bars", {"K": 2, "Lowest": lo, "Highest": hi}, ["ExactAllowed", "Narrow", "Ends", "Grows", "EmitCase"], scratch)
    by = {}
    for c in cases:
        by.setdefault(c["t"], []).append(c)
    day = gen.day(2025, 1, 12)
    hists, expects = [], {}
    for t, cs in sorted(by.items()):
        cs = [c for c in cs if c["m"]]
        for i in range(0, len(cs), 40):
            part = cs[i:i + 40]
            hid = "bars%d.%d" % (t, i)
            text = "account a\n" + "".join("  expense e%d due every 5th\n    amount %s\n" % (k, gen.num(t)) for k in range(len(part)))
            # half of the amounts are ready, half are for the next due date
            old = [c["m"] > 0 and (c["m"] + t + seed) % 2 == 0 for c in part]
            text += "".join("%s * x\n  envelope a e%d %s\n" % ("2024/11/01" if o else "2025/01/12", k, gen.num(c["m"]))
                            for k, (c, o) in enumerate(zip(part, old)))
            hists.append(H(hid, {MAIN: text}, [R(["e", "-n", "-f", MAIN], day)]))

            def ok(e, part=part, old=old):
                if e["out"]["cls"] != "ok" or len(e["out"]["envs"]) != 1:
                    return False
                rows = {o["n"]: o for o in e["out"]["envs"][0]["envs"]}
                for k, (c, o) in enumerate(zip(part, old)):
                    f, w = rows.get("e%d" % k, {}).get("b1" if o else "b2", (-1, 0))
                    if w != 40 or not c["lo"] <= f <= c["hi"]:
                        return False
                return True
            expects[hid] = [ok]
    return finish("MC_Bars", r, hists, expects, "targets of %d to %d hundredths, all amounts from -3 to twice the target" % (lo, hi),
                  st, tr, binary, shim, scratch, plan, relevant)


# ------------------------------------------------------------------ MC_Order

def order(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Order"))
    sets = [["a", "a:b", "ab", "B"], ["assets:c", "assets:C", "assets", "assets-x"], ["x1", "x10", "x2", "x_1"], ["~", "0z", "Zz", "zZ"]]
    pick = [sets[seed % len(sets)]] if quick else sets
    hists, expects, st, tr = [], {}, 0, 0
    day = gen.day(2025, 1, 12)
    for s in pick:
        cases, a, b = tlc("MC_Order", {"K": 2, "Names": "{%s}" % ", ".join('"%s"' % x for x in s), "Emitting": 211 if quick else 23},
                          ["Total", "Unique", "ReadSo", "EmitCase"], scratch)
        st, tr = st + a, tr + b
        for c in cases:
            hid = "order%d" % len(hists)
            hists.append(H(hid, {MAIN: c["text"]}, [R(["b", "-n", "-f", MAIN], day), R(["e", "-n", "-f", MAIN], day), R(["e", "-n", "-f", MAIN], day)]))
            bal = lambda e, c=c: e["out"]["cls"] == "ok" and [x["a"] for x in e["out"]["bal"]] == c["bal"]
            env = lambda e, c=c: e["out"]["cls"] == "ok" and [[x["a"], [[o["t"], o["n"]] for o in x["envs"]]] for x in e["out"]["envs"]] == c["envs"]
            expects[hid] = [bal, env, env]
    return finish("MC_Order", r, hists, expects, "4 accounts with 4 sets of envelopes each in all orders of declaration and use; %d replayed" % len(hists),
                  st, tr, binary, shim, scratch, plan, relevant)


# ------------------------------------------------------------------ MC_Shuffle

def shuffle(tier, seed, prop, binary, shim, scratch, plan, relevant):
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Shuffle"))
    n = 3 if quick else 4
    cases, st, tr = tlc("MC_Shuffle", {"K": 2, "MaxLen": n, "Emitting": 1 if quick else 7}, ["Indifferent", "EmitCase"], scratch)
    day = 20100
    hists, expects = [], {}
    for c in cases:
        hid = "shuf%d" % len(hists)
        args = [r.choice("eeeb"), "-f", MAIN] + r.choice([[], ["-n"]])
        hists.append(H(hid, {MAIN: c["sorted"]}, [R(args, day), edit({MAIN: c["text"]}), R(args, day)], tol=1))
        seen = {}

        def first(e, seen=seen):
            seen["e"] = e
            return e["out"]["cls"] == "ok"

        def then(e, seen=seen):
            f = seen["e"]
            return e["out"] == f["out"] and sorted(e["set"].get(MAIN, "").split("\n")) == sorted(f["set"].get(MAIN, "").split("\n"))
        # each history has two runs
        expects[hid] = [first, then]
    return finish("MC_Shuffle", r, hists, expects, "journals of up to %d entries of 9 kinds in every order; %d replayed" % (n, len(hists)),
                  st, tr, binary, shim, scratch, plan, relevant)


# ------------------------------------------------------------------ MC_Store

def store(tier, seed, prop, binary, shim, scratch, plan, relevant):
    """The program may make its calls in other ways than the model does, so that a fault may hit another
    call; what is asked is what holds wherever it hits."""
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Store"))
    cases, st, tr = tlc("MC_Store", {"MaxRuns": 2, "Emitting": 1}, ["Told", "Once", "WholeOrNot", "EmitCase"], scratch, props=["Kept"])
    more, a, b = tlc("MC_Store", {"MaxRuns": 3, "Emitting": 97 if quick else 5}, ["Told", "Once", "WholeOrNot", "EmitCase"], scratch, props=["Kept"])
    if quick:
        cases = r.sample(cases, min(len(cases), 700))
    cases += more if len(more) < (400 if quick else 9000) else r.sample(more, 400 if quick else 9000)
    day = 20100
    files = {MAIN: "account assets:c\n  expense food due every 5th\n    amount 40\n    funding aggressive\n  goal trip due 2025/03/01\n"
                   "    amount 9\n    funding aggressive\naccount b\n2025/01/01 * x\n  assets:c 100\n  b\n",
             ROOT + "/s.csv": "2025/01/02,Thing,3\n2025/01/03,Other,4\n",
             ROOT + "/s.csv.rules": "skip 0\nfields date, description, amount\naccount assets:c\naccount2 b\n"}
    cmds = {"move": ["e", "-f", MAIN], "look": ["b", "-n", "-f", MAIN], "import": ["i", "-f", MAIN, "--csv", ROOT + "/s.csv"],
            "import-n": ["i", "-n", "-f", MAIN, "--csv", ROOT + "/s.csv"]}
    hists, expects = [], {}
    for c in cases:
        evs, want = [], []
        now = {"text": files[MAIN], "torn": False}
        for x in c["runs"]:
            f = None
            if x["at"]:
                f = "%d:%s" % (x["at"], x["mode"]) + (":%d" % r.choice([1, 2, 9, 30, 57, 80]) if x["mode"].startswith("short") else "")
            evs.append(R(cmds[x["cmd"]], day, fault=f))

            def ok(e, x=x, now=now):
                post = e["set"].get(MAIN, now["text"])
                if e["del"] or set(e["set"]) - {MAIN} or not post.startswith(now["text"]):
                    return False
                hit = core.fault_of(e)
                good = hit not in ("eio", "enospc", "shorte") or e["out"]["cls"] == "error"
                if hit in ("none", "short") and not now["torn"]:
                    good = good and e["out"]["cls"] == "ok"
                if hit not in ("none", "short"):
                    now["torn"] = True
                now["text"] = post
                return good
            want.append(ok)
        evs.append(R(cmds["look"], day))
        want.append(lambda e, now=now: not e["set"] and not e["del"] and (now["torn"] or e["out"]["cls"] == "ok"))
        hid = "store%d" % len(hists)
        hists.append(H(hid, files, evs))
        expects[hid] = want
    return finish("MC_Store", r, hists, expects, "runs of 4 commands with 7 faults at every call, two or three in a row; %d replayed" % len(hists),
                  st + a, tr + b, binary, shim, scratch, plan, relevant, nsample=60 if quick else 400)


# ------------------------------------------------------------------ MC_Race

def races(tier, seed, prop, binary, shim, scratch, plan, relevant):
    """Every interleaving of two runs and the user, replayed; some of three runs."""
    quick = tier == "quick"
    r = random.Random(gen_seed(seed, prop, "MC_Race"))
    inv = ["AllThere", "TwiceOnlyTogether", "EmitCase"]
    cases, st, tr = tlc("MC_Race", {"Procs": 2, "MaxUser": 1, "Rewriting": "FALSE", "Emitting": 1}, inv, scratch, props=["Kept"])
    more, a, b = tlc("MC_Race", {"Procs": 3, "MaxUser": 0 if quick else 1, "Rewriting": "FALSE", "Emitting": 211 if quick else 101}, inv, scratch, props=["Kept"])
    if quick:
        cases = r.sample(cases, min(len(cases), 900))
    cases += more if len(more) < (300 if quick else 9000) else r.sample(more, 300 if quick else 9000)
    day = 20100
    files = {MAIN: "account assets:c\n  expense food due every 5th\n    amount 40\n    funding aggressive\n  goal trip due 2025/03/01\n"
                   "    amount 9\n    funding aggressive\naccount b\n2025/01/01 * x\n  assets:c 100\n  b\n",
             ROOT + "/s.csv": "2025/01/02,Thing,3\n2025/01/03,Other,4\n",
             ROOT + "/s.csv.rules": "skip 0\nfields date, description, amount\naccount assets:c\naccount2 b\n"}
    cmds = {"move": ["e", "-f", MAIN], "look": ["b", "-n", "-f", MAIN], "import": ["i", "-f", MAIN, "--csv", ROOT + "/s.csv"],
            "import-n": ["i", "-n", "-f", MAIN, "--csv", ROOT + "/s.csv"]}
    hists, expects = [], {}
    for c in cases:
        user = "\n2025/01/04 * mine\n  assets:c -1\n  b\n"
        ev = core.race([R(cmds[x], day) for x in c["cmd"]], c["who"], [user] * c["who"].count(0))
        marks = [{"moves": "food", "rows": "Thing", "user": "mine"}[p] for _w, p in c["file"][1:]]
        hid = "race%d" % len(hists)
        hists.append(H(hid, files, [ev, R(cmds["look"], day)]))

        def ok(e, marks=marks):
            t = e["texts"][-1]
            return not e["del"] and not set(e["set"]) - {MAIN} and t.startswith(files[MAIN]) \
                and re.findall("food|Thing|mine", t[len(files[MAIN]):]) == marks \
                and all(x["out"]["cls"] == "ok" for x in e["runs"])
        expects[hid] = [ok, lambda e: e["out"]["cls"] == "ok" and not e["set"] and not e["del"]]
    return finish("MC_Race", r, hists, expects, "all interleavings of two runs of 4 commands and one entry of the user's, and three runs; "
                  "%d replayed" % len(hists), st + a, tr + b, binary, shim, scratch, plan, relevant, nsample=150 if quick else 1000)


ALL = {"MC_Race": races, "MC_Store": store, "MC_Shuffle": shuffle, "MC_Bars": bars, "MC_Order": order, "MC_Cli": cli, "MC_Layout": layout, "MC_Calendar": calendar, "MC_Budget": budget, "MC_Entries": entries, "MC_Amounts": amounts, "MC_Rules": rules, "MC_Csv": csvs}


def run(name, tier, seed, prop, binary, shim, scratch, plan, relevant):
    t = time.time()
    res = ALL[name](tier, seed, prop, binary, shim, scratch, plan, relevant)
    res["wall_s"] = round(time.time() - t, 1)
    return res
