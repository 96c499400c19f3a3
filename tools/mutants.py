"""Development tool: mutation analysis. Small changes to the source, one at a time; each that builds and passes the
tests is run over a corpus drawn from the families of all plans. Histories whose recorded outcome differs from that of
the unchanged tree are given to TLC. Prints, per mutant: rejected (by which conjuncts), same (nothing differs),
accepted (differs, but the specification allows it).
usage: mutants.py <out> [file substring] [part/parts] [scale]"""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import core, gen, plans
OUT = sys.argv[1]
ONLY = sys.argv[2] if len(sys.argv) > 2 else ""
PART, PARTS = map(int, (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
SCALE = float(sys.argv[4]) if len(sys.argv) > 4 else 0.1
W = tempfile.mkdtemp(prefix="mutants")
REPO = W + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", REPO], check=True)
ENV = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_NET_OFFLINE="true")
BIN = W + "/target/debug/silverfox"

SWAPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
         (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"(?<=[ (\[])!(?=[a-z(])", [""]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
         (r"\.is_empty\(\)", [".is_empty() == false"]), (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\.abs\(\)", [""]),
         (r"(?<![\w.\"'])0\.0\b", ["1.0"]), (r"(?<![\w.\"'{])(\d+)\b(?![\w.\"'}])", ["PLUS", "MINUS"]),
         (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\.trim\(\)", [""]), (r"\.trim_start\(\)", [""]), (r"\.trim_end\(\)", [""]),
         (r"\.starts_with\(", [".ends_with("]), (r"\.ends_with\(", [".starts_with("]), (r"\.rev\(\)", [""]), (r"\.to_lowercase\(\)", [".to_string()"]),
         (r"\bSome\((\w+)\) =>", ["Some(\\1) if false =>"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.unwrap_or\(", ["IGN"]),
         (r"'([^'\\])'", ["'#'"]), (r"\"([^\"\\{}]+)\"", ["\"#\""]), (r"\bif let (.*) \{$", ["IFLET"]), (r"\bif (?!let)(.*) \{$", ["if false {", "if true {"]),
         (r"-(?=[a-z]\w*\.mag)", [""]), (r"\bNone\b", ["IGN"]), (r"\.sort\(\)", [".reverse()"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"])]


def mutants():
    for base, _d, names in sorted(os.walk(REPO + "/src")):
        for n in sorted(names):
            p = os.path.join(base, n)
            rel = os.path.relpath(p, REPO)
            if ONLY not in rel:
                continue
            lines = open(p).read().split("\n")
            for i, l in enumerate(lines):
                if l.startswith("#[cfg(test)]"):
                    break
                t = l.strip()
                if t.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod")):
                    continue
                code = l.split(" // ")[0]
                for pat, news in SWAPS:
                    for m in re.finditer(pat, code):
                        for new in news:
                            if new in ("IGN", "IFLET"):
                                continue
                            if new == "PLUS":
                                rep = str(int(m.group(1)) + 1)
                            elif new == "MINUS":
                                if m.group(1) == "0":
                                    continue
                                rep = str(int(m.group(1)) - 1)
                            else:
                                rep = m.expand(new)
                            if pat.startswith('\\"') and " " in m.group(1) and len(m.group(1)) > 12:
                                continue        # a message
                            if rep != m.group(0):
                                yield rel, i, code[:m.start()] + rep + code[m.end():]
                # a statement left out
                if t.endswith(";") and not t.startswith(("let ", "return", "}", ")", "]", "type ", "const ", ".", "break", "continue")) and l.count("(") == l.count(")"):
                    yield rel, i, ""
                if re.match(r"\s*return .*;$", l):
                    yield rel, i, ""
                # a ? left out is a type error mostly; a match arm with a guard
                m = re.match(r"(.*) if (.*) =>(.*)$", code)
                if m:
                    yield rel, i, "%s =>%s" % (m.group(1), m.group(3))


def corpus():
    hs, seen = [], set()
    for prop, plan in sorted(plans.PLANS.items()):
        for k, (name, quick, _t, kw) in enumerate(plan["families"]):
            if name in ("faults", "read_faults", "large", "due_slices", "races") or (name, str(kw)) in seen:
                continue
            seen.add((name, str(kw)))
            s = SCALE / 20 if name in ("fuzz", "crafted") else SCALE
            n = 1 if quick == 1 else max(6, int(quick * s))
            r = random.Random(17 * k + len(seen))
            tr = random.Random(3)
            got = [gen.retime(tr, h) for h in getattr(gen, name)(r, n, **kw)]
            if quick == 1 and len(got) > 120:
                got = r.sample(got, 120)
            hs += [dict(h, id="%s.%s.%s" % (prop, name, h["id"])) for h in got]
    return hs


def norm(t):
    """Without the order of lines, which hash maps change from run to run."""
    return sorted((t or "").split("\n"))


def sig(h):
    return [(e.get("rc"), norm(e.get("stdout")), bool(e.get("stderr")), {p: norm(t) for p, t in (e.get("set") or {}).items()}, e.get("del")) if e["op"] == "run" else
            [(x["rc"], norm(x["stdout"])) for x in e["runs"]] + [norm(e["texts"][-1])] if e["op"] == "race" else 0 for e in h["events"]]


def main():
    shim = core.build()[1]
    sh = lambda c: subprocess.run(c, cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    assert sh(["cargo", "build", "--offline"]).returncode == 0
    sc = core.scratch_dir()
    hs = corpus()
    core.RUN_TIMEOUT = 12
    # histories in small slices, the quickest to tell first, so that most mutants need only a few of them
    random.Random(5).shuffle(hs)
    base, drop = {}, set()
    for k in range(6):
        for h in core.exec_all(hs, BIN, shim, sc):
            s = sig(h)
            if k and base[h["id"]] != s:
                drop.add(h["id"])       # hash maps
            base[h["id"]] = s
    hs = [h for h in hs if h["id"] not in drop]
    print(len(hs), "histories,", len(drop), "differ from run to run", flush=True)
    ms = [m for k, m in enumerate(mutants()) if k % PARTS == PART]
    print(len(ms), "mutants", flush=True)
    n = collections.Counter()
    out = open(OUT, "a")
    have = set()
    if os.path.exists(OUT):
        have = {tuple(json.loads(l)[:3]) for l in open(OUT)}
    for rel, i, new in ms:
        if (rel, i, new) in have:
            continue
        p = os.path.join(REPO, rel)
        lines = open(p).read().split("\n")
        old = lines[i]
        lines[i] = new
        src = open(p).read()
        open(p, "w").write("\n".join(lines))
        res, det = "?", []
        try:
            if sh(["cargo", "build", "--offline"]).returncode:
                res = "nobuild"
                continue
            try:
                t = subprocess.run(["timeout", "60", "cargo", "test", "--offline"], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if t.returncode:
                    res = "tests"
                    continue
            finally:
                pass
            diff, res = [], "same"
            for k in range(0, len(hs), 250):
                done = core.exec_all(hs[k:k + 250], BIN, shim, sc, limit=10)
                diff = [h for h in done if sig(h) != base[h["id"]]]
                if not diff:
                    continue
                res = "accepted"
                try:
                    rej, _ = core.validate(diff[:40], sc, "mut")
                except core.ToolError as e:
                    res, det = "toolerror", [str(e)[:300]]
                    break
                if rej:
                    res, det = "rejected", sorted({c for v in rej.values() for _i, s in v for c in s})
                    break
                det = [h["id"] for h in diff[:3]]
        finally:
            open(p, "w").write(src)
            n[res] += 1
            out.write(json.dumps([rel, i, new, old, res, det]) + "\n")
            out.flush()
            if n.total() % 25 == 0:
                print(dict(n), flush=True)
            if res in ("same", "accepted", "toolerror"):
                print("%-9s %s:%d\n   - %s\n   + %s   %s" % (res, rel, i + 1, old.strip(), new.strip(), det), flush=True)
    print(dict(n))
    shutil.rmtree(sc)
    shutil.rmtree(W)


main()
