"""Development tool: shows that the specification binds every recorded field. Records histories of the real program,
alters one field of one observation, and counts how often TLC rejects the altered history."""
import collections, copy, os, random, re, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import core, gen
r = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 60
b, sh = core.build()
sc = core.scratch_dir()


def bump(t):
    """Another amount: its last digit changed."""
    i = max((k for k, c in enumerate(t) if c.isdigit()), default=None)
    return None if i is None else t[:i] + str((int(t[i]) + 1 + r.randrange(8)) % 10) + t[i + 1:]


def places(ev):
    o = ev["out"]
    for k, x in enumerate(o["bal"]):
        yield "bal.account", (lambda e, k=k: e["out"]["bal"][k].update(a=e["out"]["bal"][k]["a"] + "x"))
        for q in range(len(x["v"])):
            if bump(x["v"][q]):
                yield "bal.amount", (lambda e, k=k, q=q: e["out"]["bal"][k]["v"].__setitem__(q, bump(e["out"]["bal"][k]["v"][q])))
        yield "bal.row lost", (lambda e, k=k: e["out"]["bal"].pop(k))
    for k, x in enumerate(o["envs"]):
        for q in range(len(x["avail"])):
            yield "env.available", (lambda e, k=k, q=q: e["out"]["envs"][k]["avail"].__setitem__(q, bump(e["out"]["envs"][k]["avail"][q])))
        for q in range(len(x["envs"])):
            for f in ("now", "next", "t1", "t2"):
                yield "env." + f, (lambda e, k=k, q=q, f=f: e["out"]["envs"][k]["envs"][q].update({f: bump(e["out"]["envs"][k]["envs"][q][f])}))
            yield "env.due", (lambda e, k=k, q=q: e["out"]["envs"][k]["envs"][q].update(due="2031-07-08"))
            yield "env.name", (lambda e, k=k, q=q: e["out"]["envs"][k]["envs"][q].update(n="other"))
            yield "env.type", (lambda e, k=k, q=q: e["out"]["envs"][k]["envs"][q].update(t={"goal": "expense", "expense": "goal"}[e["out"]["envs"][k]["envs"][q]["t"]]))
            yield "env.bar", (lambda e, k=k, q=q: e["out"]["envs"][k]["envs"][q].update(b1=[(e["out"]["envs"][k]["envs"][q]["b1"][0] + 17) % 41, 40]))
            yield "env.lost", (lambda e, k=k, q=q: e["out"]["envs"][k]["envs"].pop(q))
    for k, x in enumerate(o["reg"]):
        for f in ("date", "status", "desc", "from", "to"):
            yield "reg." + f, (lambda e, k=k, f=f: e["out"]["reg"][k].update({f: (e["out"]["reg"][k][f] + "x") if isinstance(e["out"]["reg"][k][f], str) else e["out"]["reg"][k][f] + ["x"]}))
        for q in range(len(x["amts"])):
            for f in ("m", "run"):
                if x["amts"][q].get(f) and bump(x["amts"][q][f]):
                    yield "reg.amount " + f, (lambda e, k=k, q=q, f=f: e["out"]["reg"][k]["amts"][q].update({f: bump(e["out"]["reg"][k]["amts"][q][f])}))
        yield "reg.block lost", (lambda e, k=k: e["out"]["reg"].pop(k))
    if ev["set"].get(gen.MAIN):
        def digit(e):
            t, pre = e["set"][gen.MAIN], len(ev["set"][gen.MAIN])
            ls = t.rstrip("\n").split("\n")
            ls[-1] = bump(ls[-1]) or ls[-1] + " 9"
            e["set"][gen.MAIN] = "\n".join(ls) + "\n"
        yield "file.last amount", digit
        yield "file.first byte", (lambda e: e["set"].update({gen.MAIN: "x" + e["set"][gen.MAIN][1:]}))
        yield "file.cut", (lambda e: e["set"].update({gen.MAIN: e["set"][gen.MAIN].rstrip("\n").rsplit("\n", 1)[0] + "\n"}))
        yield "file.unchanged", (lambda e: e["set"].clear())
    if o["cls"] == "ok":
        yield "class", (lambda e: e["out"].update(cls="error"))
    if o["cls"] == "error":
        yield "class (error)", (lambda e: e["out"].update(cls="ok"))
    if o["cls"] in ("ok", "error"):
        yield "crash", (lambda e: e["out"].update(cls="crash"))
        yield "other file", (lambda e: e["set"].update({core.ROOT + "/stray": "x"}))


try:
    hs = []
    for fam in ("balances", "envelopes", "funding", "register", "imports", "includes", "bars", "journals"):
        hs += list(getattr(gen, fam)(r, N))
    done = core.exec_all(hs, b, sh, sc)
    rej, _ = core.validate(done, sc, "corrupt")
    assert not rej, rej
    alt, kind = [], {}
    for h in done:
        for i, e in enumerate(h["events"]):
            if e["op"] != "run":
                continue
            by = collections.defaultdict(list)
            for name, f in places(e):
                by[name].append(f)
            for name, fs in by.items():
                if r.random() < 0.7:
                    continue
                g = copy.deepcopy(h)
                r.choice(fs)(g["events"][i])
                if g["events"][i] == e:
                    continue
                g["id"] = "%s.%d.%s" % (h["id"], i, len(alt))
                g["events"] = g["events"][:i + 1]
                kind[g["id"]] = name
                alt.append(g)
    rej, _ = core.validate(alt, sc, "corrupt")
    tot, got = collections.Counter(kind.values()), collections.Counter(kind[i] for i in rej)
    for k in sorted(tot):
        print("%-20s %5d altered %5d rejected" % (k, tot[k], got[k]))
    if len(sys.argv) > 3:
        for g in alt:
            if g["id"] not in rej and kind[g["id"]] == sys.argv[3]:
                print(g["files"], g["events"][-1]); break
finally:
    shutil.rmtree(sc)
