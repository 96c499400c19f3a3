"""Build silverfox from /repo, run histories with the real binary, parse what it prints, and have
TLC validate the recorded histories against the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SFX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)
ROOT = "/w"                      # the root of the virtual file tree of a history
RUN_TIMEOUT = 60


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- build

def tree_hash():
    h = hashlib.sha256()
    paths = []
    for base, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for n in sorted(names):
            if n.endswith((".rs", ".toml", ".lock")):
                paths.append(os.path.join(base, n))
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def build():
    """Builds the binary from /repo's current tree; returns the paths of the binary and the shim."""
    os.makedirs(CACHE, exist_ok=True)
    bins = os.path.join(CACHE, "bin")
    os.makedirs(bins, exist_ok=True)
    shim = os.path.join(bins, "shim-%s.so" % file_hash(os.path.join(VERIF, "harness", "shim.c")))
    if not os.path.exists(shim):
        tmp = shim + ".%d.tmp" % os.getpid()
        run_tool(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp,
                  os.path.join(VERIF, "harness", "shim.c"), "-ldl"])
        os.replace(tmp, shim)
    key = tree_hash()
    binary = os.path.join(bins, "silverfox-" + key)
    if not os.path.exists(binary):
        target = tempfile.mkdtemp(prefix="build-", dir=CACHE)
        try:
            env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_DEBUG="0",
                       CARGO_INCREMENTAL="0", CARGO_NET_OFFLINE="true")
            run_tool(["cargo", "build", "--offline", "--bin", "silverfox",
                      "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=env)
            tmp = binary + ".%d.tmp" % os.getpid()
            shutil.copy2(os.path.join(target, "debug", "silverfox"), tmp)
            os.replace(tmp, binary)
        finally:
            shutil.rmtree(target, ignore_errors=True)
    return binary, shim


def file_hash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:16]


def run_tool(cmd, env=None, timeout=800):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise ToolError("%s failed:\n%s" % (cmd[0], r.stdout.decode("utf-8", "replace")[-3000:]))
    return r.stdout.decode("utf-8", "replace")


# ---------------------------------------------------------------- histories
#
# A history: {"id", "tol", "files": {virtual path: text}, "events": [...]}. Events:
#   edit: {"op": "edit", "set": {path: text}, "del": [path]}
#   run:  {"op": "run", "args": [...], "env": {...}, "cwd", "now": epoch, "tz", "tty": bool,
#          "fault": optional}  -- the runner adds "today", "out", "set", "del"
#   race: {"op": "race", "watch": path, "runs": [run, ...], "who": [1 = the first run, 0 = the user ...],
#          "user": [texts the user appends]} -- runs that are under way at the same time, one step after
#          another: the first step of a run starts it and takes it to its first mutating call, each later
#          one takes it to its next, or to its end. The runner completes "who" and adds "texts", the
#          watched file after each step.

def edit(set_=None, del_=(), append=None, insert=None):
    """append: {path: text}; insert: {path: (mark, text)}, in front of the first mark."""
    return {"op": "edit", "set": set_ or {}, "del": list(del_), "append": append or {}, "insert": insert or {}}


_tz_lock = threading.Lock()
_tz_cache = {}


def tz_offset(tz, now=0):
    """Seconds east of UTC at the moment `now` under the TZ string."""
    if tz == "UTC":
        return 0
    m = re.fullmatch(r"<[A-Z+\-0-9]+>([+-]?)(\d+)(?::(\d+))?", tz)
    if m:
        s = int(m.group(2)) * 3600 + int(m.group(3) or 0) * 60
        return s if m.group(1) == "-" else -s
    # one with daylight saving time, left to the C library
    if (tz, now) not in _tz_cache:
        with _tz_lock:
            old = os.environ.get("TZ")
            os.environ["TZ"] = tz
            time.tzset()
            _tz_cache[tz, now] = time.localtime(now).tm_gmtoff
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
    return _tz_cache[tz, now]


def local_time(day, secs, tz):
    """The moment at which it is `secs` seconds after midnight of `day`, local time (or one close to
    that on the same local date, if there is no such moment)."""
    t = day * 86400 + secs
    for guess in (t - tz_offset(tz, t - tz_offset(tz, t)), t - tz_offset(tz, t), day * 86400 + 43200 - tz_offset(tz, day * 86400 + 43200)):
        if (guess + tz_offset(tz, guess)) // 86400 == day:
            return guess
    raise ValueError((day, secs, tz))


def run(args, day=None, now=None, tz="UTC", env=None, cwd=ROOT, tty=True, fault=None):
    if now is None:
        now = local_time(day, 43200, tz)
    e = {"op": "run", "args": list(args), "env": dict(env or {}), "cwd": cwd, "now": now, "tz": tz,
         "tty": tty}
    if fault:
        e["fault"] = fault
    return e


def today_of(ev):
    return (ev["now"] + tz_offset(ev["tz"], ev["now"])) // 86400


def race(runs, who, user=(), watch=ROOT + "/main.sfox"):
    return {"op": "race", "watch": watch, "runs": runs, "who": list(who), "user": list(user)}


def runs_of(hist):
    """All runs of a history."""
    return [x for e in hist["events"] for x in ([e] if e["op"] == "run" else e["runs"] if e["op"] == "race" else [])]


def _write(root, vpath, text):
    p = root + vpath[len(ROOT):]
    os.makedirs(os.path.dirname(p), exist_ok=True)
    data = text if isinstance(text, bytes) else text.replace(ROOT + "/", root + "/").encode("utf-8", "surrogateescape")
    with open(p, "wb") as f:
        f.write(data)


def _snapshot(root):
    out = {}
    for base, _dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            v = ROOT + p[len(root):]
            if os.path.islink(p):
                out[v] = "->" + os.readlink(p)
                continue
            with open(p, "rb") as f:
                b = f.read()
            out[v] = b.decode("utf-8", "surrogateescape").replace(root + "/", ROOT + "/")
    return out


def _clean(text):
    """Text as it can be passed on in JSON (undecodable bytes become U+FFFD)."""
    return text.encode("utf-8", "surrogateescape").decode("utf-8", "replace")


def exec_history(hist, binary, shim, scratch):
    """Runs a history in its own directory; returns it with everything observed filled in."""
    base = tempfile.mkdtemp(prefix="h", dir=scratch)
    root = os.path.join(base, "w")
    os.makedirs(root)
    try:
        for d in hist.get("dirs", []):
            os.makedirs(root + d[len(ROOT):], exist_ok=True)
        for p, t in hist["files"].items():
            _write(root, p, t)
        state = _snapshot(root)
        done = []
        for ev in hist["events"]:
            ev = dict(ev)
            if ev["op"] == "edit":
                for p in ev["del"]:
                    os.unlink(root + p[len(ROOT):])
                for p, t in ev["set"].items():
                    _write(root, p, t)
                for p, t in ev.pop("append", {}).items():
                    _write(root, p, _snapshot(root)[p] + t)
                for p, (mark, t) in ev.pop("insert", {}).items():
                    _write(root, p, _snapshot(root)[p].replace(mark, t + mark, 1))
                after = _snapshot(root)
                ev["set"] = {p: _clean(t) for p, t in after.items() if state.get(p) != t}
                state = after
                done.append(ev)
                continue
            if ev["op"] == "race":
                _race(ev, binary, shim, base, root)
                after = _snapshot(root)
                ev["set"] = {p: _clean(t) for p, t in after.items() if state.get(p) != t}
                ev["del"] = sorted(p for p in state if p not in after)
                state = after
                done.append(ev)
                continue
            cmd, env, cwd = _command(ev, binary, shim, base, root)
            try:
                # into files, whose size the shim limits
                with open(base + "/out", "wb") as fo, open(base + "/err", "wb") as fe:
                    rc = subprocess.run(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                                        timeout=RUN_TIMEOUT).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            _observed(ev, rc, base, root)
            after = _snapshot(root)
            ev["set"] = {p: _clean(t) for p, t in after.items() if state.get(p) != t}
            ev["del"] = sorted(p for p in state if p not in after)
            state = after
            done.append(ev)
        return dict(hist, events=done)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _command(ev, binary, shim, base, root, tag=""):
    real = lambda s: s.replace(ROOT + "/", root + "/") if s != ROOT else root
    env = {"LD_PRELOAD": shim, "SFX_NOW": str(ev["now"]), "TZ": ev["tz"], "PATH": "/usr/bin:/bin",
           "HOME": "/nonexistent", "SFX_LOG": base + "/log" + tag, "SFX_ROOT": root + "/"}
    if ev["tty"]:
        env["SFX_TTY"] = str(ev.get("cols", 120))
    if ev.get("fault"):
        env["SFX_FAULT"] = ev["fault"]
    for k, v in ev["env"].items():
        env[k] = real(v)
    cwd = real(ev["cwd"])
    os.makedirs(cwd, exist_ok=True)
    return [binary] + [real(a) for a in ev["args"]], env, cwd


def _observed(ev, rc, base, root, tag=""):
    with open(base + "/out" + tag, "rb") as fo, open(base + "/err" + tag, "rb") as fe:
        so, se = fo.read(), fe.read()
    so = so.decode("utf-8", "replace").replace(root + "/", ROOT + "/")
    se = se.decode("utf-8", "replace").replace(root + "/", ROOT + "/")
    ev["today"] = today_of(ev)
    ev["out"] = observe(rc, so, se, bool(ev.get("fault")))
    ev["stdout"], ev["stderr"], ev["rc"] = so, se, rc
    try:
        with open(base + "/log" + tag, encoding="utf-8", errors="replace") as f:
            calls = f.read().replace(root, ROOT).splitlines()
        ev["syscalls"] = [c for c in calls if not c.startswith("r:")]
        ev["reads"] = [c[2:] for c in calls if c.startswith("r:")]
        os.unlink(base + "/log" + tag)
    except FileNotFoundError:
        ev["syscalls"], ev["reads"] = [], []
    ev["wrote"] = touched_paths(ev["syscalls"])


class _Stepped:
    """A run that is under way and stops before each of its mutating calls."""

    def __init__(self, ev, tag, binary, shim, base, root):
        self.ev, self.tag, self.base, self.root = ev, tag, base, root
        cmd, env, cwd = _command(ev, binary, shim, base, root, tag)
        self.status, so = os.pipe()
        si, self.go = os.pipe()
        env["SFX_STEP"] = "%d:%d" % (so, si)
        with open(base + "/out" + tag, "wb") as fo, open(base + "/err" + tag, "wb") as fe:
            self.p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                                      pass_fds=(so, si))
        os.close(so)
        os.close(si)
        self.over = False
        self.wait()

    def wait(self, limit=4):
        """Until it stops again, or for a while (it may wait for another run)."""
        if select.select([self.status], [], [], limit)[0] and not os.read(self.status, 1):
            self.over = True

    def step(self):
        if not self.over:
            try:
                os.write(self.go, b".")
            except BrokenPipeError:
                pass
            self.wait()

    def end(self):
        try:
            rc = self.p.wait(RUN_TIMEOUT if self.over else 0.1)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = "timeout"
        os.close(self.status)
        os.close(self.go)
        _observed(self.ev, rc, self.base, self.root, self.tag)


def _race(ev, binary, shim, base, root):
    ev["runs"] = [dict(e) for e in ev["runs"]]
    live, who, texts = {}, [], []
    path = root + ev["watch"][len(ROOT):]
    user = list(ev["user"])

    def step(p):
        if p == 0:
            if not user:
                return
            with open(path, "ab") as f:
                f.write(user.pop(0).encode())
        elif p not in live:
            live[p] = _Stepped(ev["runs"][p - 1], "-%d" % p, binary, shim, base, root)
        elif live[p].over:
            return
        else:
            live[p].step()
        who.append(p)
        try:
            with open(path, "rb") as f:
                texts.append(_clean(f.read().decode("utf-8", "surrogateescape").replace(root + "/", ROOT + "/")))
        except FileNotFoundError:
            texts.append("")
    for p in ev["who"]:
        step(p)
    for p in range(1, len(ev["runs"]) + 1):       # whatever is left goes on, one run after another
        k = 0
        while (p not in live or not live[p].over) and k < 40:
            step(p)
            k += 1
    for p in sorted(live):
        live[p].end()
    ev["ran"], ev["texts"] = who, texts


def touched_paths(calls):
    """The paths of the files the process opened for writing, removed, renamed and so on."""
    out = set()
    for c in calls:
        name, _, rest = c.partition(" ")
        if "/" in rest:
            out |= {os.path.normpath(p) for p in rest.split("\t")}
    return sorted(p for p in out if not p.startswith(("/dev/", "/proc/")))


# ---------------------------------------------------------------- observation

def observe(rc, so, se, faulty=False):
    out = {"cls": "ok", "kind": "none", "bal": [], "envs": [], "reg": []}
    if rc == -9 and faulty:
        out["cls"] = "killed"
        return out
    if rc == "timeout" or (isinstance(rc, int) and (rc < 0 or rc >= 100)) or "panicked at" in se:
        out["cls"] = "crash"
        return out
    if se.strip():
        out["cls"] = "mixed" if so.strip() else "error"
        return out
    if rc != 0:
        out["cls"] = "error"      # fails without a word
        out["kind"] = "silent"
        return out
    text = so
    if not text.strip():
        out["kind"] = "empty"
        return out
    for kind, f in (("help", parse_help), ("env", parse_env), ("reg", parse_reg), ("bal", parse_bal)):
        r = f(text)
        if r is not None:
            out["kind"] = kind
            if kind == "bal":
                out["bal"] = r
            elif kind == "env":
                out["envs"] = r
            elif kind == "reg":
                out["reg"] = r
            return out
    out["kind"] = "unreadable"
    return out


def parse_help(text):
    return [] if "subcommands to get information" in text else None


def parse_bal(text):
    rows = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        if line.startswith("\t"):
            if not rows or rows[-1].get("one"):
                return None
            rows[-1]["v"].append(line.strip())
            continue
        m = re.fullmatch(r"(\S+)(\s+(\S.*?))?\s*", line)
        if not m:
            return None
        rows.append({"a": m.group(1), "v": [m.group(3)] if m.group(3) else [], "one": bool(m.group(3))})
    for r in rows:
        del r["one"]
    return rows


ENVLINE = re.compile(r"      (now|next(?: \(on (\S+)\))?)\s+(\S.*?) / (.*?) \|(.*)\|")


def bar(s):
    """[filled, width] of a bar, or [-1, 0] if it isn't one."""
    return [len(s.rstrip(" ")), len(s)] if " " not in s.rstrip(" ") else [-1, 0]


def parse_env(text):
    accts, cur, sect, env = [], None, None, None
    for line in text.split("\n"):
        if not line.strip():
            continue
        if not line[0].isspace():
            cur = {"a": line.strip(), "avail": [], "envs": []}
            accts.append(cur)
            sect = env = None
        elif cur is None:
            return None
        elif re.fullmatch(r"  (available|expenses|goals)", line):
            sect, env = line.strip(), None
        elif line.startswith("      ") and sect in ("expenses", "goals"):
            m = ENVLINE.fullmatch(line)
            if not m or env is None:
                return None
            if m.group(1) == "now":
                env["now"], env["t1"], env["b1"] = m.group(3).strip(), m.group(4).strip(), bar(m.group(5))
            else:
                env["next"], env["t2"], env["due"], env["b2"] = m.group(3).strip(), m.group(4).strip(), m.group(2) or "", bar(m.group(5))
        elif line.startswith("    ") and sect == "available":
            cur["avail"].append(line.strip())
        elif line.startswith("    ") and sect in ("expenses", "goals"):
            env = {"t": sect[:-1], "n": line.strip(), "now": "", "t1": "", "next": "", "t2": "", "due": "",
                   "b1": [-1, 0], "b2": [-1, 0]}
            cur["envs"].append(env)
        else:
            return None
    if not accts or any(not a["envs"] for a in accts):
        return None
    return accts


def parse_reg(text):
    rows = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        if " -> " in line:
            left, right = line.rsplit(" -> ", 1)
            lt = left.split()
            if len(lt) < 3 or lt[1] not in ("?", "~", "*"):
                return None
            m = re.fullmatch(r"\s*(\S+)\s+(\S.*?)\s\s+(\S.*?)\s*", right)
            if not m:
                return None
            frm = lt[-1]
            head = left.rstrip()
            head = head[:len(head) - len(frm)]
            desc = " ".join(head.split()[2:])
            rows.append({"date": lt[0], "status": lt[1], "desc": desc, "from": frm, "to": m.group(1),
                         "amts": [{"m": m.group(2), "run": m.group(3)}]})
        else:
            m = re.fullmatch(r"\s{4,}(\S.*?)\s\s+(\S.*?)\s*", line)
            if not m or not rows:
                return None
            rows[-1]["amts"].append({"m": m.group(1), "run": m.group(2)})
    return rows


# ---------------------------------------------------------------- TLC

def java(mod, cfg, workdir, env=None, extra=(), heap="1500m", timeout=850, workers=1):
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss64m", "-Xmx" + heap,
           "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", JARS, "tlc2.TLC", "-metadir", workdir, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [mod]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    e["LC_ALL"] = "C.UTF-8"
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")
REJECT = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


SHORT = re.compile(r"write (\d+) = (-?\d+)")


def fault_of(ev):
    """The fault that was injected into a run, if the run got that far."""
    if not ev.get("fault"):
        return "none"
    at, mode = ev["fault"].split(":")[:2]
    if at.startswith("r"):      # a short or interrupted read is no failure
        return "reio" if any(c.partition(" ")[0].endswith("!") for c in ev["reads"]) else "none"
    hit = any(c == "DIE" or c.partition(" ")[0].endswith("!") or (SHORT.match(c) and len(set(SHORT.match(c).groups())) > 1)
              for c in ev["syscalls"])
    return mode if hit else "none"


def _slim_run(ev):
    return {"op": "run", "args": ev["args"], "env": _obj(ev["env"]), "cwd": ev["cwd"], "today": ev["today"],
            "tty": ev["tty"], "out": ev["out"], "wrote": ev["wrote"], "fault": fault_of(ev)}


def slim(hist):
    """The part of a recorded history the specification reads."""
    evs = []
    for ev in hist["events"]:
        if ev["op"] == "edit":
            evs.append({"op": "edit", "set": _obj(ev["set"]), "del": ev["del"]})
        elif ev["op"] == "race":
            evs.append({"op": "race", "watch": ev["watch"], "who": ev["ran"], "texts": ev["texts"],
                        "runs": [_slim_run(e) for e in ev["runs"]], "set": _obj(ev["set"]), "del": ev["del"]})
        else:
            evs.append(dict(_slim_run(ev), set=_obj(ev["set"]), **{"del": ev["del"]}))
    return {"id": hist["id"], "level": hist.get("level", "full"), "tol": hist.get("tol", 0), "files": _obj(hist["files"]), "events": evs}


def _obj(d):
    # an empty JSON object isn't read as an empty function by every version of the Json module
    return {k: _clean(v) for k, v in d.items()} if d else []


def validate(hists, scratch, tag="t"):
    """TLC validates recorded histories; returns (rejects {id: [(event index, {conjuncts})]}, stats)."""
    rejects, stats = {}, {"states": 0, "transitions": 0, "histories": 0, "events": 0}
    by_k = {}
    for h in hists:
        by_k.setdefault(h.get("K", 2), []).append(h)
    for hs in by_k.values():
        for h in list(hs):
            # a run blew a file up beyond anything the specification allows
            big = [i for i, e in enumerate(h["events"], 1) if e["op"] != "edit"
                   and any(len(t) > 150000 for t in e["set"].values())]
            if big:
                hs.remove(h)
                rejects[h["id"]] = [(big[0], {"overflow"})]
    jobs = []
    for k, hs in sorted(by_k.items()):
        if not hs:
            continue
        weight = lambda h: sum(len(json.dumps(e)) for e in h["events"]) + len(json.dumps(h["files"])) * (1 + len(h["events"]))
        total = sum(map(weight, hs)) or 1
        n = max(1, min(NPROC, len(hs), 1 + total // 150000))
        buckets = [[0, []] for _ in range(n)]
        for h in sorted(hs, key=weight, reverse=True):
            b = min(buckets, key=lambda x: x[0])
            b[0] += weight(h)
            b[1].append(h)
        jobs += [(k, i, b[1]) for i, b in enumerate(buckets)]

    def tlc(k, i, hs):
        d = tempfile.mkdtemp(prefix="tlc-%s-%d-%d-" % (tag, k, i), dir=scratch)
        trace = os.path.join(d, "trace.ndjson")
        with open(trace, "w", encoding="utf-8") as f:
            for h in hs:
                f.write(json.dumps(slim(h), ensure_ascii=False) + "\n")
        cfg = os.path.join(d, "Trace.cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT K %s\n" % ("= %d" % k if k >= 0 else "<- Minus%d" % -k))
        rc, out = java("Trace.tla", cfg, d, env={"TRACE_FILE": trace})
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def one(job):
        k, i, hs = job
        rc, out = tlc(k, i, hs)
        want = sum(len(h["events"]) + 1 for h in hs)
        m = STATES.search(out)
        if "Overflow when computing" in out or "overflow" in tlc_error(out):
            # a number beyond the integers of TLC was observed: find the history it is in
            if len(hs) == 1:
                return [('<<"REJECT", "%s", 0, {"overflow"}>>' % hs[0]["id"], 1, 1, hs)]
            half = len(hs) // 2
            return one((k, i, hs[:half])) + one((k, i, hs[half:]))
        if rc != 0 or not m or "Model checking completed. No error" not in out:
            raise ToolError("TLC failed on %s (K=%d):\n%s" % (tag, k, tlc_error(out)))
        if int(m.group(2)) != want:
            raise ToolError("TLC visited %s states instead of %d" % (m.group(2), want))
        return [(out, int(m.group(1)), int(m.group(2)), hs)]

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for out, gen, dist, hs in [x for xs in ex.map(one, jobs) for x in xs]:
            stats["states"] += dist
            stats["transitions"] += sum(len(h["events"]) for h in hs)
            stats["histories"] += len(hs)
            stats["events"] += sum(len(runs_of(h)) for h in hs)
            if out.count('"REJECT"') != len(REJECT.findall(out)):
                raise ToolError("what TLC prints isn't understood:\n" + out[-3000:])
            for m in REJECT.finditer(out):
                names = set(re.findall(r'"([^"]+)"', m.group(3)))
                rejects.setdefault(m.group(1), []).append((int(m.group(2)), names))
    return rejects, stats


def tlc_error(out):
    i = out.find("Error:")
    return out[max(0, i - 200):i + 2500] if i >= 0 else out[-2500:]


def exec_all(hists, binary, shim, scratch, limit=40):
    """Runs all histories. Once `limit` runs have hung or burnt their processor time, the remaining
    histories are left out."""
    hung = [0]

    def one(h):
        if hung[0] >= limit:
            return None
        x = exec_history(h, binary, shim, scratch)
        hung[0] += sum(1 for e in runs_of(x) if e["rc"] in ("timeout", -24, -9)
                       and not e.get("fault"))
        return x
    with cf.ThreadPoolExecutor(NPROC * 2) as ex:
        return [h for h in ex.map(one, hists) if h]


def scratch_dir():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="sfx", dir=base)
