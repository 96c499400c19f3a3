"""Seeded generators of histories. Every generator yields histories (see core.py) whose meaning the
specification settles; what they avoid is listed in DESIGN.md (Exclusions)."""
import csv
import datetime as dt
import io
import random
import re
from core import ROOT, edit, local_time, race, run, today_of

EPOCH = dt.date(1970, 1, 1)
MAIN = ROOT + "/main.sfox"


def day(y, m, d):
    return (dt.date(y, m, d) - EPOCH).days


def date(n):
    return EPOCH + dt.timedelta(days=n)


FMTS = ["%Y/%m/%d", "%Y-%m-%d", "%d.%m.%Y", "%m/%d/%Y", "%d/%m/%Y", "%Y.%m.%d", "%m-%d-%Y", "%Y%m%d"]


# the year in two digits, names of months, no leading zeros, the day of the year
MORE_FMTS = ["%d/%m/%y", "%m/%d/%y", "%y%m%d", "%d-%b-%Y", "%b-%d-%Y", "%d.%B.%Y", "%Y/%-m/%-d", "%-d.%-m.%Y", "%F", "%D", "%Y-%j", "%d%b%y", "%Y%%%m%%%d", "%h/%d/%Y"]


def fdate(n, fmt="%Y/%m/%d"):
    return date(n).strftime(fmt.replace("%Y", "{Y}")).replace("{Y}", "%04d" % date(n).year)


def num(q, k=2):
    """q (an integer count of 10^-k) as a decimal text without superfluous zeros."""
    s = "-" if q < 0 else ""
    q = abs(q)
    if k < 0:
        q, k = q * 10 ** -k, 0
    a, b = divmod(q, 10 ** k)
    t = str(b).rjust(k, "0").rstrip("0") if k else ""
    return s + str(a) + ("." + t if t else "")


def group(s):
    """Thousands commas."""
    neg = s.startswith("-")
    s = s.lstrip("-")
    a, _, b = s.partition(".")
    out = ""
    while len(a) > 3:
        out = "," + a[-3:] + out
        a = a[:-3]
    return ("-" if neg else "") + a + out + ("." + b if b else "")


def notation(r, q, cur, k=2, plain=False):
    """An amount in one of the notations silverfox takes."""
    n = num(q, k)
    if not plain:
        if abs(q) >= 1000 * 10 ** k and r.random() < 0.4:
            n = group(n)
        if r.random() < 0.15 and "." not in n:
            n += r.choice([".0", ".00", "."])
        elif r.random() < 0.1 and "." in n:
            n += "0"
        if r.random() < 0.05:
            n = n.replace("-", "-0") if n.startswith("-") else "0" + n
        if abs(q) < 10 ** k and q != 0 and r.random() < 0.3:
            n = n.replace("0.", ".", 1)
    if not cur:
        return n
    neg = n.startswith("-")
    b = n.lstrip("-")
    forms = ["%s%s" % (n, cur), "%s %s" % (n, cur)]
    if neg:
        forms += ["-%s%s" % (cur, b), "%s-%s" % (cur, b), "%s -%s" % (cur, b), "-%s %s" % (cur, b)]
    else:
        forms += ["%s%s" % (cur, b), "%s %s" % (cur, b)]
    return r.choice(forms)


CURS = ["", "$", "USD", "usd", "€", "BTC", "C$", "US$", "CAD", "¥", "kr", "£", "x"]
ACCTS = ["assets:checking", "assets:savings", "assets:check", "assets:checking:joint", "assets", "asset",
         "Assets:checking", "expenses:food", "expenses:food:dining", "expenses:rent", "expenses", "income:salary",
         "income", "liabilities:card", "equity", "assets_old", "my:assets", "e:f", "a", "expenses:Food",
         "übrig:geld", "assets:très", "assets:a_rather_long_name:of_some_account:that_is_wider_than_any_column", "goal:x", "accountant", "included", "2020", "currency:x"]
WORDS = ["Groceries", "rent", "Paid", "the", "bill", "for", "Fancy's", "café", "50%", "#1", "2020/01/01", "->", "a",
         "Transfer", "(again)", "@home", "!", "=", "~", "*", "?", "account", "include", "envelope", "x", "Über",
         "co.", "and/or", "-5", "$20", "\"quoted\"", "http:x", "/"]


class Text:
    """Randomised layout of journal text."""

    def __init__(self, r, wild=0.0):
        self.r = r
        self.wild = wild

    def gap(self):
        if self.r.random() < self.wild:
            return self.r.choice(["  ", "    ", "\t", " \t ", "          "])
        return " "

    def wide(self):
        return self.r.choice(["  ", "    ", "      ", "\t"]) if self.r.random() < max(self.wild, 0.3) else " "

    def indent(self):
        if self.r.random() < self.wild:
            return self.r.choice([" ", "  ", "\t", "      ", "\t\t", "   \t"])
        return "    "

    def end(self):
        if self.r.random() >= self.wild:
            return "\n"
        t = self.r.choice(["", " ", "\t", "   ", " // note", "  ; note", "; a // b", "// a ; b", " //", " ;",
                           " // 5 $ [x", ";;", " // assets:checking 5", "\t; 2020/01/01 * x",
                           " // été ☕ 日本", ";ü", " // \"quoted", " ; % & * ? ~", " // include x", "\t//", "  // a  //  b ; c"])
        eol = "\r\n" if self.r.random() < 0.15 else "\n"
        extra = ""
        while self.r.random() < 0.3:
            extra += self.r.choice(["\n", "   \n", "// comment\n", "; comment\n", "    // indented comment\n",
                                    "\t; 2020/01/01 * x\n", "  \t \n", "//\n", "\r\n", "// café ☕\n", ";é\n", " ;\n",
                                    "\n\n\n", "    // assets:checking 5\n"])
        return t + eol + extra


def desc(r, words=None, payee=None):
    n = r.choice([0, 1, 1, 2, 2, 3, 5])
    d = " ".join(r.choice(words or WORDS) for _ in range(n))
    if (r.random() < 0.3 if payee is None else payee):
        d += (" " if r.random() < 0.8 else "") + "[" + " ".join(r.choice(["Bob", "shop", "x]y", "", "Fancy's", "a b"])
                                                             for _ in range(r.choice([0, 1, 2]))) + "]"
        if r.random() < 0.1:
            d += " tail"
        if r.random() < 0.06:
            d = r.choice(["]", "a] b ", "x]"]) + d
    return d


def split_zero(r, total, n, step):
    """n amounts (multiples of step) that add up to total."""
    out = [r.randrange(-40, 200) * step for _ in range(n - 1)]
    return out + [total - sum(out)]


def magnitude(r, k=2, style="mixed"):
    """A positive scaled amount."""
    sc = 10 ** k
    if style == "int":
        return r.randrange(1, 400) * sc
    if style == "quarter":
        return r.randrange(1, 2000) * (sc // 4)
    x = r.random()
    if x < 0.3:
        return r.randrange(1, 500) * sc
    if x < 0.6:
        return r.randrange(1, 50000) * (sc // 100 if k >= 2 else 1)
    if x < 0.7:
        return r.randrange(1000, 30000) * sc
    if x < 0.8:
        return r.randrange(1, 100) * (sc // 100 if k >= 2 else 1)
    if x < 0.9:
        return sc * r.choice([1, 10, 100, 1000])
    return r.randrange(1, 200) * (sc // 4 if k >= 2 else 1)


ZONES = ["<EST>+5", "<JST>-9", "<IST>-5:30", "<NZT>-13", "<HST>+10", "<NPT>-5:45", "<LIT>-14", "<BIT>+12",
         "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "CST5CDT,M3.2.0/0,M11.1.0/1", "<-03>3<-02>,M10.3.0/0,M2.3.0/0"]
SECONDS = [0, 1, 59, 60, 3599, 3600, 7200, 43200, 61200, 75600, 82800, 86340, 86399]


def retime(r, h):
    """The same history in another time zone, at other times of the same local days."""
    if any(e.get("tz", "UTC") != "UTC" for e in h["events"]) or r.random() < 0.55:
        return h
    tz = r.choice(ZONES + ["UTC"] * 2)
    evs = []
    for e in h["events"]:
        if e["op"] == "run":
            now = local_time(today_of(e), r.choice(SECONDS) if r.random() < 0.7 else r.randrange(86400), tz)
            e = dict(e, tz=tz, now=now) if now >= 0 else e
        elif e["op"] == "race":
            return h
        evs.append(e)
    return dict(h, events=evs)


# ------------------------------------------------------------------ journals

def entry(r, t, accts, when, fmt="%Y/%m/%d", k=2, curs=("",), shape=None, style="mixed", envs=(), words=None,
          payee=None, notate=True):
    """One valid entry. shape: balanced | blank | mixed (several currencies, no blank) |
    priced (several currencies, a blank, prices) | manual (envelope postings) | bare"""
    if shape is None:
        shape = r.choice(["balanced", "blank", "blank", "mixed", "priced"] + (["manual", "manual+"] if envs else []))
    fmtq = (lambda q, c: notation(r, q, c, k)) if notate else (lambda q, c: notation(r, q, c, k, True))
    ps = []
    sc = 10 ** k
    step = {"int": sc, "quarter": sc // 4}.get(style, sc // 100 if k >= 2 else 1)
    if shape in ("balanced", "blank"):
        c = r.choice(curs)
        n = r.choice([2, 2, 2, 3, 3, 4, 6, 9])
        if shape == "balanced" and n == 2:
            m = magnitude(r, k, style) * r.choice([1, -1])
            qs = [m, -m]
        elif shape == "balanced":
            qs = split_zero(r, 0, n, step)
        else:
            qs = [magnitude(r, k, style) * r.choice([1, -1]) for _ in range(n - 1)]
        ps = [(r.choice(accts), fmtq(q, c)) for q in qs]
        if shape == "blank":
            ps.insert(r.randrange(len(ps) + 1), (r.choice(accts), ""))
    elif shape == "mixed":
        two = [c for c in curs]
        r.shuffle(two)
        two = two[:r.choice([2, 2, 3])]
        if len(two) < 2:
            return entry(r, t, accts, when, fmt, k, curs, "balanced", style, envs, words, payee, notate)
        for c in two:
            ps.append((r.choice(accts), fmtq(magnitude(r, k, style) * r.choice([1, -1]), c)))
        if r.random() < 0.4:
            ps.append((r.choice(accts), fmtq(magnitude(r, k, style), two[0])))
        r.shuffle(ps)
    elif shape == "priced":
        fs = [c for c in curs if c]
        if not fs:
            return entry(r, t, accts, when, fmt, k, curs, "blank", style, envs, words, payee, notate)
        c = r.choice(fs)
        for _ in range(r.choice([1, 1, 2])):
            q = r.randrange(1, 40) * r.choice([1, -1]) * (sc if r.random() < 0.6 or k < 4 else sc // 4)
            if r.random() < 0.5:
                price = r.randrange(1, 900) * (sc if r.random() < 0.5 else sc // 4)
                cost = " @ " + fmtq(price, "")
            else:
                cost = " = " + fmtq(magnitude(r, k, "quarter") * (1 if q > 0 else -1), "")
            ps.append((r.choice(accts), fmtq(q, c) + cost))
        for _ in range(r.choice([0, 1, 1, 2])):
            ps.append((r.choice(accts), fmtq(magnitude(r, k, "quarter") * r.choice([1, -1]), "")))
        ps.insert(r.randrange(len(ps) + 1), (r.choice(accts), ""))
    if shape in ("balanced", "blank", "mixed") and r.random() < 0.05:
        ps.insert(r.randrange(len(ps) + 1), (r.choice(accts), fmtq(0, r.choice(curs) if shape == "mixed" else c)))
    if shape in ("manual", "manual+"):
        if shape == "manual+":
            m = magnitude(r, k, style)
            c = r.choice(curs)
            ps = [(r.choice(accts), fmtq(m, c)), (r.choice(accts), fmtq(-m, c))]
            if r.random() < 0.4:
                ps[1] = (ps[1][0], "")
        for _ in range(r.choice([1, 1, 2, 3])):
            a, n, c = r.choice(envs)
            q = magnitude(r, k, style) * r.choice([1, 1, 1, -1])
            ps.insert(r.randrange(len(ps) + 1), ("envelope%s%s%s%s" % (t.gap(), a, t.gap(), n), fmtq(q, c)))
    for j in range(len(ps) if r.random() < 0.15 else 0):      # what the balance is said to be (nothing follows from it)
        if not ps[j][0].startswith("envelope") and r.random() < 0.4:
            m, at, x = re.match("([^@=]*)(.*)", ps[j][1], re.S).groups() + (fmtq(r.choice([0, sc, magnitude(r, k, style)]), r.choice(curs)),)
            said = r.choice(["!", "!", "!!"]) + " " + x
            m, at = m.strip(), at.strip()
            ps[j] = (ps[j][0], " ".join(p for p in r.choice([[m, said, at], [m, at, said]]) if p))
    s = "%s%s%s" % (fdate(when, fmt), t.gap(), r.choice("?~*"))
    d = desc(r, words, payee)
    if d:
        s += t.gap() + d
    s += t.end()
    for a, q in ps:
        s += t.indent() + a + ((t.wide() + q) if q else "") + t.end()
    return s


def declare(r, t, names):
    s = ""
    for n in names:
        s += "account" + t.gap() + n + t.end()
    return s


# envelopes: text and (account, name, currency)

WDAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
ORD = {1: "st", 2: "nd", 3: "rd", 21: "st", 22: "nd", 23: "rd", 31: "st"}


def weekday_word(r, w):
    x = WDAYS[w]
    return r.choice([x, x, x[:3], x.capitalize(), x[:3].upper()])


def dom_word(r, d):
    return "%d%s" % (d, r.choice([ORD.get(d, "th"), ORD.get(d, "th"), ""]))


def schedule(r, today, fmt="%Y/%m/%d", kinds=None, begun=None):
    """The due clause of an envelope; (text, kind, start). begun: True: a starting date isn't after
    today; False: it is; None: either."""
    kind = r.choice(kinds or ["never", "once", "past", "weekly", "biweekly", "monthly", "monthly", "bimonthly",
                              "annually"])
    due = r.choice(["due", "due by", "by", "due"])
    if kind == "never":
        return "no date", kind, None
    if kind in ("once", "past"):
        n = today + r.choice([1, 2, 7, 30, 31, 365, 400]) if kind == "once" else today - r.choice([0, 1, 2, 30, 365, 800])
        return "%s %s" % (r.choice(["by", "due by", "due"]), fdate(n, fmt)), kind, None

    def start(pred=lambda n: True):
        for _ in range(2000):
            ahead = r.random() < 0.25 if begun is None else not begun
            n = today + r.choice([1, 2, 5, 13, 14, 15, 31, 62, 200, 366]) + r.randrange(0, 9) if ahead \
                else today - r.choice([0, 0, 1, 6, 7, 13, 14, 15, 27, 28, 29, 59, 60, 61, 364, 365, 366, 730, 1500, 4000]) \
                - (r.randrange(0, 9) if r.random() < 0.5 else 0)
            if pred(n):
                return n
        return today

    if kind == "weekly":
        w = r.randrange(7)
        s = ""
        if r.random() < 0.25:
            s = " starting " + fdate(start(lambda n: date(n).weekday() == w), fmt)
        return "%s every %s%s" % (due, weekday_word(r, w), s), kind, s
    if kind == "monthly":
        d = r.choice([1, 5, 15, 28, 29, 30, 31, 31, r.randrange(1, 32)])
        s = ""
        if r.random() < 0.25:
            s = " starting " + fdate(start(lambda n: date(n).day == d), fmt)
        return "%s every %s%s" % (due, dom_word(r, d), s), kind, s
    n = start()
    if kind == "biweekly":
        return "%s every other %s starting %s" % (due, weekday_word(r, date(n).weekday()), fdate(n, fmt)), kind, n
    if kind == "bimonthly":
        return "%s every other %s starting %s" % (due, dom_word(r, date(n).day), fdate(n, fmt)), kind, n
    return "%s every year starting %s" % (due, fdate(n, fmt)), kind, n


ENVNAMES = ["food", "foo", "rent", "car", "boat", "gifts", "Food", "food2", "fun", "x", "très", "tax_2020", "food:out",
            "amount", "goal"]


def envelope(r, t, acct, name, today, fmt="%Y/%m/%d", k=2, cur="", links=(), funding=None, target=None, kinds=None,
             etype=None, begun=None, style="quarter"):
    cl, kind, _ = schedule(r, today, fmt, kinds, begun)
    ind = t.indent()
    s = ind + "%s %s %s" % (etype or r.choice(["expense", "expense", "goal"]), name, cl) + t.end()
    props = ["amount " + notation(r, magnitude(r, k, style) if target is None else target, cur, k)]
    for l in links:
        props.append("for " + l)
    f = funding or r.choice(["manual", "aggressive", "conservative", None])
    if f:
        props.append("funding " + f)
    r.shuffle(props)
    for p in props:
        s += ind + t.indent() + p + t.end()
    return s


TODAYS = [day(2024, 2, 28), day(2024, 2, 29), day(2024, 3, 1), day(2023, 2, 28), day(2023, 3, 1), day(2024, 12, 31),
          day(2025, 1, 1), day(2025, 1, 31), day(2025, 4, 30), day(2025, 5, 31), day(2000, 2, 29), day(2100, 2, 28),
          day(2100, 3, 1), day(2026, 11, 18), day(2025, 12, 30), day(2025, 1, 29), day(2025, 1, 30), day(2024, 1, 31),
          day(2025, 10, 31), day(2025, 11, 30), day(2025, 6, 15), day(2096, 2, 29), day(2027, 7, 7)]


def some_day(r):
    return r.choice(TODAYS) if r.random() < 0.6 else day(2019, 1, 1) + r.randrange(0, 4000)


def pick(r, seq, lo, hi):
    n = min(len(seq), r.randint(lo, hi))
    return r.sample(seq, n)


def H(hid, files, events, k=2, tol=0, **kw):
    return dict({"id": hid, "K": k, "tol": tol, "files": files, "events": events}, **kw)


def reports(r, today, main=MAIN, which="ber", move=False):
    evs = []
    for c in which:
        a = [c, "-f", main] if move else ([c, "-n", "-f", main] if r.random() < 0.5 else [c, "-f", main, "--no-move"])
        evs.append(run(a, today))
    return evs


# ------------------------------------------------------------------ C01 balances

def balances(r, n, prefix="bal"):
    for i in range(n):
        t = Text(r, r.choice([0, 0, 0.15]))
        k = r.choice([2, 2, 2, 4])
        accts = pick(r, ACCTS, 2, 9)
        curs = pick(r, CURS, 1, 4)
        if r.random() < 0.6 and "" not in curs:
            curs.append("")
        today = some_day(r)
        style = r.choice(["mixed", "mixed", "quarter", "int"])
        # envelopes that are only moved by hand
        envs = []
        head = ""
        for a in accts:
            head += "account " + a + t.end()
            if r.random() < 0.3:
                nm = r.choice(ENVNAMES)
                c = r.choice(curs)
                head += envelope(r, t, a, nm, today, k=k, cur=c, funding="manual", links=[])
                envs.append((a, nm, c))
        body = []
        for _ in range(r.choice([1, 2, 3, 5, 8, 8, 25])):
            body.append(entry(r, t, accts, today - r.randrange(-30, 700), k=k, curs=curs, style=style, envs=envs))
        twins(r, body)
        evs = [run(["b", "-n", "-f", MAIN], today)]
        if r.random() < 0.3:
            evs.append(run(["balance", "-f", MAIN], today + 1))
        yield H("%s%d" % (prefix, i), {MAIN: head + "".join(body)}, evs, k)


def twins(r, body, p=0.35):
    """Some entries once more, next to themselves or elsewhere."""
    if r.random() < p:
        for _ in range(r.choice([1, 1, 2, 3])):
            j = r.randrange(len(body))
            body.insert(r.choice([j + 1, len(body), r.randrange(len(body) + 1)]), body[j])


def large(r, n, prefix="big"):
    """Amounts close to the largest the specification holds, balanced or off by the smallest step; and
    much larger ones, of which it carries the first digits only."""
    for i in range(n):
        k = r.choice([0, 1, 2, 2, 3, 4, -1, -2, -3, -4, -6])
        top = 1900000000
        c = r.choice(["", "", "$", "BTC", "£"])
        accts = pick(r, ACCTS, 2, 5)
        s = "".join("account %s\n" % a for a in accts)
        left = top
        bad = r.random() < 0.35
        ne = r.choice([1, 2, 3])
        for e in range(ne):
            room = left // (2 * (ne - e))
            q = r.choice([room - r.randrange(0, 1 + room // 10), 16777217, 33554433, 99999999, 123456789, 10 ** 8 + 1, r.randrange(1, room)])
            q = max(1, min(q, room))
            left -= 2 * q
            off = r.choice([1, -1, 1, 2, -5]) if bad and e == ne - 1 else 0
            parts = [q]
            if q > 10 and r.random() < 0.5:
                x = r.randrange(1, q)
                parts = [x, q - x]
            shape = r.choice(["given", "given", "blank"]) if not off else "given"
            ps = [(r.choice(accts), notation(r, x, c, k)) for x in parts]
            ps.append((r.choice(accts), notation(r, -q + off, c, k) if shape == "given" else ""))
            r.shuffle(ps)
            s += "%s * big\n" % fdate(day(2024, 1, 1) + r.randrange(300)) + "".join("  %s%s\n" % (a, "  " + x if x else "") for a, x in ps)
        yield H("%s%d" % (prefix, i), {MAIN: s}, [run([r.choice("bbr"), "-n", "-f", MAIN], day(2024, 12, 1))], k)


def many(r, accts, c, when, off=0):
    """An entry of very many postings, maybe with a blank one."""
    ps = [(r.choice(accts), notation(r, q, c)) for q in split_zero(r, off, r.choice([12, 20, 33, 70]), 25)]
    if not off and r.random() < 0.5:
        ps[r.choice([0, len(ps) - 1, r.randrange(len(ps))])] = (r.choice(accts), "")
    return "%s * many\n" % when + "".join("  %s  %s\n" % p for p in ps)


def crowds(r, n, prefix="crowd", cmds="ber"):
    """Journals of many entries, accounts, currencies, postings and envelopes."""
    for i in range(n):
        t = Text(r, 0)
        today = some_day(r)
        accts = [a + r.choice(["", ":x", "%d" % j]) for j, a in enumerate(r.sample(ACCTS, r.choice([6, 14, 26])))]
        accts = list(dict.fromkeys(accts))
        linked = r.random() < 0.5
        curs = [""] if linked else pick(r, CURS, 3, 12)
        head, envs = "", []
        for a in accts:
            head += "account " + a + "\n"
            if r.random() < 0.25:
                for nm in pick(r, ENVNAMES + ["e%d" % j for j in range(9)], 1, r.choice([2, 5, 14])):
                    c = r.choice(curs)
                    head += envelope(r, t, a, nm, today, cur=c, funding=r.choice(["manual", "manual", "aggressive"]),
                                     links=pick(r, [x for x in accts if x != a], 0, 3) if linked else [])
                    envs.append((a, nm, c))
        body = []
        for _ in range(r.choice([30, 60, 110])):
            es = entry(r, t, accts, today - r.choice([r.randrange(0, 9), r.randrange(-30, 700)]), curs=curs, style="quarter",
                       envs=envs if r.random() < 0.5 else (), shape=r.choice(["balanced", "blank", "mixed", None]))
            body.append(es)
        twins(r, body)
        if r.random() < 0.5:        # an entry of very many postings
            body.append(many(r, accts, r.choice(curs), fdate(today - 40)))
        yield H("%s%d" % (prefix, i), {MAIN: head + "".join(body)},
                [run([c] + r.choice([["-n"], ["-n"], []]) + ["-f", MAIN], today) for c in r.sample(cmds, r.choice([1, min(2, len(cmds))]))], 2)


# ------------------------------------------------------------------ C02 blanks

def blanks(r, n, prefix="blank"):
    for i in range(n):
        t = Text(r, 0.05)
        k = r.choice([2, 4])
        accts = pick(r, ACCTS, 3, 7)
        today = some_day(r)
        cur = r.choice(CURS[1:])
        other = r.choice([c for c in CURS[1:] if c != cur])
        nm = "food"
        head = "".join("account %s\n" % a for a in accts)
        env_acct = r.choice(accts)
        head = head.replace("account %s\n" % env_acct, "account %s\n  expense %s due every 1st\n    amount 100\n" % (env_acct, nm))
        s = ""
        for _ in range(r.choice([1, 1, 2, 4])):
            kind = r.choice(["one", "one", "priced", "priced", "foreign", "envelope", "unpriced", "two_foreign",
                             "foreign_price", "only_foreign_priced"])
            # the kinds that are refused are rare in journals with more than one entry
            if kind in ("unpriced", "two_foreign", "foreign_price") and s:
                kind = "priced"
            fq = lambda q, c: notation(r, q, c, k)
            ps = []
            if kind in ("one", "envelope"):
                c = r.choice(["", cur])
                ps = [(r.choice(accts), fq(magnitude(r, k) * r.choice([1, -1]), c)) for _ in range(r.choice([1, 2, 3, 7]))]
                if r.random() < 0.2:
                    ps.append((r.choice(accts), fq(0, c)))
                if c == cur and r.random() < 0.4:   # a price changes nothing when there is one currency
                    a, q = ps[0]
                    ps[0] = (a, q + " @ " + fq(300, ""))
            elif kind in ("priced", "unpriced", "foreign_price", "two_foreign"):
                for _ in range(r.choice([1, 1, 2, 3])):
                    q = r.randrange(1, 60) * 10 ** k * r.choice([1, -1])
                    cost = r.choice([" @ " + fq(r.randrange(1, 2000) * (10 ** k // 4), ""),
                                     " = " + fq(magnitude(r, k, "quarter") * r.choice([1, -1]), "")])
                    ps.append((r.choice(accts), fq(q, cur) + cost))
                for _ in range(r.choice([1, 1, 2])):
                    ps.append((r.choice(accts), fq(magnitude(r, k) * r.choice([1, -1]), "")))
                if kind == "unpriced":
                    ps.append((r.choice(accts), fq(500, cur)))
                if kind == "foreign_price":
                    ps.append((r.choice(accts), fq(500, cur) + r.choice([" @ ", " = "]) + fq(200, other)))
                if kind == "two_foreign":
                    ps.append((r.choice(accts), fq(500, other) + " @ " + fq(200, "")))
            else:
                ps = [(r.choice(accts), fq(r.randrange(1, 60) * 10 ** k * r.choice([1, -1]), cur)
                       + (r.choice([" @ ", " = "]) + fq(700, "") if kind.endswith("priced") else ""))
                      for _ in range(r.choice([1, 2, 3]))]
            r.shuffle(ps)
            ps.insert(r.randrange(len(ps) + 1), (r.choice(accts), ""))
            if kind == "envelope" or r.random() < 0.15:
                for _ in range(r.choice([1, 2])):
                    ps.insert(r.randrange(len(ps) + 1), ("envelope %s %s" % (env_acct, nm), fq(magnitude(r, k), "")))
            s += "%s %s %s\n" % (fdate(today - r.randrange(60)), r.choice("?~*"), desc(r))
            for a, q in ps:
                s += t.indent() + a + ("  " + q if q else "") + t.end()
        yield H("%s%d" % (prefix, i), {MAIN: head + s}, [run(["b", "-n", "-f", MAIN], today)]
                + ([run(["e", "-n", "-f", MAIN], today)] if r.random() < 0.3 else []), k)


# ------------------------------------------------------------------ C03 validity

BAD_DATES = ["2023/02/29", "2020/13/01", "2020/00/10", "2020/01/32", "2020/04/31", "2020-01-01", "20x0/01/01",
             "2020/01", "01/01/2020x", "2020/01/01/", "yesterday", "2100/02/29", "//"]
BAD_STATUS = ["", "!", "x", "**", "~*", "-", "?x", "cleared", "#"]
BAD_AMOUNTS = ["5.5.5", "abc", "--", "5 6 7", "1-2", "$", "-", ".", "5 $ x", "5-", "$-", "- 5 USD x", "-.-", "@", "5 @",
               "5 =", "5 !", "5 @ x", "5 $ @ 3 @ 4", "1.2.3 USD", "= ="]


def undeclared(r, b, accts):
    """A name like that of the declared account b, but not declared."""
    c = [b + "x", b + ":sub", b + ":", ":" + b, b[:-1], b[1:], b.rsplit(":", 1)[0], b.split(":")[0], b.split(":")[-1], b.upper(), b.lower(),
         b.capitalize(), b.swapcase(), b.replace("a", "á"), b.replace(":", "."), b.replace(":", "::"), b + b, "x" + b, b[::-1], b + "_"]
    c = [x for x in c if x and x not in accts and x not in ("account", "include", "envelope", "date_format", "currency")]
    return r.choice(c)


def journals(r, n, prefix="val", defects=0.6, cmds=None, multi=True):
    for i in range(n):
        t = Text(r, r.choice([0, 0.1]))
        accts = pick(r, ACCTS, 3, 6)
        curs = ["", r.choice(CURS[1:])]
        today = some_day(r)
        m = r.choice([1, 2, 3, 6, 12])
        head = declare(r, t, accts)
        es = [entry(r, t, accts, today - r.randrange(0, 400), k=2, curs=curs, notate=r.random() < 0.5) for _ in range(m)]
        d = fdate(today - r.randrange(0, 400))
        a, b = r.sample(accts, 2)
        bad = None
        if r.random() < defects:
            bad = r.choice(["date", "status", "undeclared", "late", "amount", "blanks", "unbalanced", "unbalanced",
                            "payee", "lonely", "near", "spaces", "unbalanced1", "many"])
        pos = r.randrange(m + 1)
        dd = desc(r, payee=False)
        q = magnitude(r)
        c = r.choice(curs)
        fq = lambda q, c=c: notation(r, q, c)
        if bad == "date":
            es.insert(pos, "%s * %s\n  %s 5\n  %s -5\n" % (r.choice(BAD_DATES), dd, a, b))
        elif bad == "status":
            es.insert(pos, "%s %s %s\n  %s 5\n  %s -5\n" % (d, r.choice(BAD_STATUS), r.choice(["Groceries", "rent bill"]), a, b))
        elif bad == "undeclared":
            es.insert(pos, "%s * %s\n  %s 5\n  %s -5\n" % (d, dd, a, undeclared(r, b, accts)))
        elif bad == "late":
            head = head.replace("account %s\n" % b, "account %s\n" % b)
            es.insert(pos, "%s * %s\n  %s 5\n  late:%s -5\naccount late:%s\n" % (d, dd, a, b, b))
        elif bad == "amount":
            x = r.choice(BAD_AMOUNTS)
            es.insert(pos, "%s * %s\n  %s %s\n  %s%s\n" % (d, dd, a, x, b, r.choice(["", " -5"])))
        elif bad == "blanks":
            ps = [a + " " + fq(q), b, r.choice(accts)]
            if r.random() < 0.5:
                ps.insert(0, r.choice(accts) + " " + fq(-q))
            r.shuffle(ps)
            es.insert(pos, "%s * %s\n  %s\n" % (d, dd, "\n  ".join(ps)))
        elif bad in ("unbalanced", "near"):
            off = r.choice([1, 1, 10, 100, 12345]) * r.choice([1, -1])
            x = [q, -q + off]
            if r.random() < 0.5:
                x += [magnitude(r), 0]
                x[-1] = -x[-2]
            r.shuffle(x)
            if 0 in (x[0],) and len(x) == 2:
                off = 1
            es.insert(pos, "%s * %s\n" % (d, dd) + "".join("  %s %s\n" % (r.choice(accts), fq(y)) for y in x))
        elif bad == "many":        # all sorts of defects in an entry of many postings
            x = many(r, accts, c, d, r.choice([1, -25, 300, 0])).rstrip("\n").split("\n")
            z = r.choice(["", "", "blanks", "undeclared", "amount"])
            if z:
                x[r.choice([-1, 1, r.randrange(1, len(x))])] = "  " + {"blanks": a, "undeclared": undeclared(r, b, accts) + " 5", "amount": a + " 5.5.5"}[z]
                if z == "blanks" and r.random() < 0.7:
                    x.append("  " + b)
            es.insert(pos, "\n".join(x) + "\n")
        elif bad == "unbalanced1":
            es.insert(pos, "%s * %s\n  %s %s\n" % (d, dd, a, fq(q)))
        elif bad == "payee":
            es.insert(pos, "%s * %s [shop\n  %s 5\n  %s -5\n" % (d, dd, a, b))
        elif bad == "lonely":
            es.insert(pos, "%s * %s\n  %s\n" % (d, dd, a))
        elif bad == "spaces":
            head += "account " + r.choice(["two words", "", "a b c"]) + "\n"
        if r.random() < 0.35:      # money that would be moved
            head = ("account assets:fund\n  expense due1 due every %s\n    amount 20\n    funding aggressive\naccount inc:fund\n" % r.choice(
                ["1st", "friday", "31"])) + head
            es.insert(r.choice([0, len(es)]), "%s * money\n  assets:fund 100\n  inc:fund\n" % fdate(today - 3))
        cs = cmds or r.choice([["b"], ["e"], ["r"], ["b", "e", "r"], ["b", "r"]])
        evs = []
        for cmd in cs:
            evs.append(run([cmd] + (["-n"] if r.random() < 0.5 else []) + ["-f", MAIN], today))
        files = {MAIN: head + "".join(es)}
        if multi and r.random() < 0.2:
            files = {MAIN: head + "include sub/inc.sfox\n", ROOT + "/sub/inc.sfox": "".join(es)}
        yield H("%s%d" % (prefix, i), files, evs)


def broken(r, n, prefix="brk"):
    """Valid journals of all kinds of entries, with one thing (or two) changed somewhere in an entry."""
    for i in range(n):
        t = Text(r, r.choice([0, 0, 0.1]))
        accts = pick(r, ACCTS, 3, 6)
        curs = ["", r.choice(CURS[1:])]
        today = some_day(r)
        owner = r.choice(accts)
        envs = [(owner, "food", ""), (owner, "trip", curs[1])]
        head = declare(r, Text(r, 0), accts).replace("account %s\n" % owner, "account %s\n  expense food due every 1st\n    amount 5\n    for %s\n%s"
                                             "  goal trip no date\n    amount %s\n" % (
                                                 owner, r.choice(accts), r.choice(["", "", "    funding aggressive\n"]), notation(r, 500, curs[1])), 1)
        es = [entry(r, t, accts, today - r.randrange(0, 400), k=2, curs=curs, notate=r.random() < 0.5, envs=envs) for _ in range(r.choice([1, 1, 2, 4]))]
        for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
            k = r.randrange(len(es))
            ls = es[k].rstrip("\n").split("\n")
            j = r.randrange(len(ls))
            w = ls[j].split()
            if not w or not ls[j].strip() or ls[j].strip().startswith((";", "//")):
                continue
            if not ls[j][:1].isspace():
                op = r.choice(["date", "status", "nostatus", "swap", "onlydate"])
                if op == "date":
                    w[0] = r.choice(BAD_DATES)
                elif op == "status" and len(w) > 1:
                    w[1] = r.choice(BAD_STATUS)
                elif op == "nostatus":
                    del w[1:2]
                elif op == "swap" and len(w) > 1:
                    w[0], w[1] = w[1], w[0]
                elif op == "onlydate":
                    w = w[:1]
                ls[j] = " ".join(w)
            else:
                env = w[0] == "envelope"
                at = 3 if env else 1
                op = r.choice(["acct", "acct", "noamt", "dup", "gone", "digit", "digit", "junk", "cur", "sign", "cost", "name"])
                a, rest = w[:at], w[at:]
                if op == "acct" and len(a) > (1 if env else 0):
                    q = 1 if env else 0
                    a[q] = r.choice([undeclared(r, a[q], accts), r.choice(accts)] if env else [undeclared(r, a[q], accts)])
                elif op == "name" and env:
                    a[2:3] = [r.choice(["foo", "Food", "foods", "trips", "FOOD", "f"])]
                elif op == "noamt":
                    rest = []
                elif op == "digit":
                    x = " ".join(rest)
                    ds = [q for q, c in enumerate(x) if c.isdigit()]
                    if ds:
                        q = r.choice(ds)
                        x = x[:q] + str((int(x[q]) + r.randrange(1, 10)) % 10) + x[q + 1:]
                        rest = [x]
                elif op == "junk":
                    rest = [r.choice(BAD_AMOUNTS)]
                elif op == "cur":
                    rest = [notation(r, magnitude(r) * r.choice([1, -1]), r.choice(curs + ["EUR"]))]
                elif op == "sign":
                    x = " ".join(rest)
                    rest = [x.replace("-", "", 1) if "-" in x else "-" + x if x else ""]
                elif op == "cost":
                    x = re.split(r" [@=] ", " ".join(rest))[0]
                    rest = [x] + r.choice([[], ["@ 3"], ["= -4"], ["@ 0.5"], ["= 7 EUR"], ["@ 2 EUR"]]) if x else []
                ls[j] = "  " + " ".join(a + [x for x in rest if x])
                if op == "dup":
                    ls.insert(j, ls[j])
                elif op == "gone":
                    del ls[j]
            es[k] = "\n".join(ls) + "\n"
        cs = r.choice([["b"], ["e"], ["r"], ["b", "e"]])
        yield H("%s%d" % (prefix, i), {MAIN: head + "".join(es)}, [run([c] + r.choice([["-n"], []]) + ["-f", MAIN], today) for c in cs])


def precise(r, n, prefix="prec"):
    """Entries that miss a balance by the smallest amount, or balance exactly, at 8 decimals."""
    for i in range(n):
        a = [r.randrange(-10 ** 8, 10 ** 8) for _ in range(r.choice([1, 2, 4]))]
        off = r.choice([0, 0, 1, -1, 2])
        c = r.choice(["", "BTC", "$"])
        a.append(-sum(a) + off)
        s = "account assets:c\naccount b\n2020/01/01 * x\n" + "".join(
            "  %s %s\n" % (r.choice(["assets:c", "b"]), notation(r, x, c, 8)) for x in a)
        yield H("%s%d" % (prefix, i), {MAIN: s}, [run([r.choice("ber"), "-n", "-f", MAIN], day(2020, 3, 4))], 8)


def declarations(r, n, prefix="decl"):
    """Declarations of accounts, envelopes and settings, good and bad."""
    today = day(2025, 6, 15)
    good = ["account a:b", "account  a:b", "account\ta:b", "date_format %Y-%m-%d", "currency $", "currency USD"]
    badl = ["account", "account a b", "account a b c", "date_format", "currency", "include", "include missing.sfox"]
    envs = ["expense food due every 1st\n    amount 100", "goal boat by 2026/01/01\n    amount $5,000\n    funding aggressive",
            "expense food due every monday\n    amount 5 USD\n    for a:b", "goal x no date\n    amount 3",
            "expense y due every other fri starting 2025/06/13\n    amount 1", "expense z no date",
            "expense food due every 1st\n    amount 100\n    funding manual\n    for a:b\n    for b:c"]
    bade = ["expense food\n    amount 5", "expense", "expenses food due every 1st\n    amount 5", "goals x no date",
            "expense food due every 1st\n    amount x", "expense food due every 1st\n    amount",
            "expense food due every 1st\n    funding never", "expense food due every 1st\n    foo bar",
            "expense food due every 1st\n    for a b", "expense food due every other 1st\n    amount 5",
            "expense food due every year\n    amount 5", "expense food due every blue moon\n    amount 5",
            "expense food due every other year starting 2025/01/01\n    amount 5",
            "expense food due 2025/13/01\n    amount 5", "expense food due every 1st starting tomorrow\n    amount 5",
            "expense food due every other monday starting 2025/02/30\n    amount 5", "saving food due every 1st",
            "expense food due every month starting 2025/01/01\n    amount 5", "goal food by every week starting 2025/01/01\n    amount 5",
            "expense food due every years starting 2025/01/01\n    amount 5", "expense food due every other week starting 2025/01/01\n    amount 5",
            "expense food due every Year starting 2025/01/01\n    amount 5", "expense food due yearly starting 2025/01/01\n    amount 5",
            "expense food due every day starting 2025/01/01\n    amount 5", "expense food every monday\n    amount 5",
            "expense food due every other friday\n    amount 5", "expense food due on monday\n    amount 5",
            "expense food due every 1st\n    amount 5 6 7", "amount 5", "expense food due someday"]
    for i in range(n):
        s = "account assets:c\n"
        parts = [r.choice(envs)] if r.random() < 0.8 else []
        if r.random() < 0.5:
            parts.append(r.choice(bade))
        if r.random() < 0.2:
            parts.append(r.choice(envs))
        if r.random() < 0.12:        # twice the same, or two that are not
            p = r.choice(envs)
            parts += [p, r.choice([p, p, p.replace("expense", "goal", 1), p.replace(" food", " foods", 1)])] + [
                "goal other no date\n    amount 7"] * r.choice([0, 1])
        r.shuffle(parts)
        for p in parts:
            s += "  " + p + "\n"
        top = [r.choice(good) for _ in range(r.choice([0, 1]))]
        if r.random() < 0.25:
            top.append(r.choice(badl))
        r.shuffle(top)
        fmt = "%Y-%m-%d" if any("date_format %" in x for x in top) else "%Y/%m/%d"
        # the date format has to come last, since envelopes above use the default one
        s += "\n".join(top) + ("\n" if top else "") + "account inc:x\n"
        s += "%s * x\n  assets:c 50\n  inc:x\n" % fdate(today - 3, fmt)
        yield H("%s%d" % (prefix, i), {MAIN: s}, [run([r.choice("ber"), "-n", "-f", MAIN], today)])


# ------------------------------------------------------------------ C04 layouts

def layouts(r, n, prefix="lay"):
    """The same journal in a plain and in several wild layouts."""
    for i in range(n):
        today = some_day(r)
        seed = r.random()
        accts = ["assets:checking", "assets:savings"] + pick(r, [a for a in ACCTS if not a.startswith("assets:")], 2, 4)
        files = {}
        evs = []
        for v, wild in enumerate([0, r.choice([0.2, 0.6, 0.95])]):
            q = random.Random(seed)
            t = Text(random.Random(r.random()), wild)
            s = "".join([t.end()[len("\n"):] if wild else ""])
            for a in accts:
                s += "account" + t.gap() + a + t.end()
                if a.startswith("assets:"):
                    for nm in ["food", "rent"][:q.randrange(3)]:
                        s += t.indent() + "%s %s %s" % (q.choice(["expense", "goal"]), nm,
                                                        schedule(q, today, begun=True)[0]) + t.end()
                        for p in ["amount " + num(q.randrange(1, 400) * 25), "for " + q.choice(accts[2:]),
                                  "funding " + q.choice(["manual", "aggressive"])]:
                            s += t.indent() + p + t.end()
            for _ in range(q.choice([1, 2, 4, 6])):
                x = q.randrange(1, 900) * 25
                w = fdate(today - q.randrange(0, 90))
                st = q.choice("?~*")
                d = desc(q)
                m = q.choice(["two", "blank", "cost"])
                ps = [(q.choice(accts), num(x)), (q.choice(accts[:2]), num(-x) if m == "two" else "")]
                if m == "cost":
                    ps[0] = (ps[0][0], "3 EUR @ " + num(x))
                    ps.append((q.choice(accts), num(x)))
                s += w + t.gap() + st + (t.gap() + t.gap().join(d.split(" ")) if d else "") + t.end()
                for a, y in ps:
                    s += t.indent() + a + (t.wide() + (t.gap().join(y.split(" "))) if y else "") + t.end()
            if wild and r.random() < 0.3:
                s = s.rstrip("\n")
            p = ROOT + "/v%d.sfox" % v
            files[p] = s
            evs += reports(r, today, p, "ber" if r.random() < 0.6 else r.choice(["b", "e", "r"]))
        yield H("%s%d" % (prefix, i), files, evs)


# ------------------------------------------------------------------ C05 notations

def notations(r, n, prefix="note"):
    nums = ["5", "5.5", "0.5", ".5", "5.", "1,234", "1,234.56", "1234.5", "0", "0.00", "007", "12,345.10", "1,2,3", "999",
            "0.01", "10.10", "100000", "3.", ",5", "1000000"]
    curs = ["$", "USD", "usd", "Usd", "€", "C$", "$C", "A B", "µ", "kr", "x", "US$", "#", "%", "'", "円", "@@", "e", "E", "+"]
    for i in range(n):
        # twelve amounts, each on an account of its own
        s = ""
        body = ""
        for a in range(r.choice([6, 12])):
            u, c = r.choice(nums), r.choice(curs + ["", "", ""])
            neg = r.random() < 0.5
            if " " in c:
                c = "AB"
            if not c:
                f = r.choice(["%s%s", "%s%s"]) % ("-" if neg else "", u)
                if r.random() < 0.05:
                    f = "- " + u if neg else f
            else:
                f = r.choice(["{s}{u}{c}", "{s}{u} {c}", "{s}{c}{u}", "{c}{s}{u}", "{c} {s}{u}", "{s}{c} {u}", "{c}{u}",
                              "{u} {c}", "{u}{c}"]).format(s="-" if neg else "", u=u, c=c)
            s += "account a%d\naccount b%d\n" % (a, a)
            body += "2024/05/06 * n\n    a%d%s%s\n    b%d\n" % (a, r.choice([" ", "  ", "\t", "      "]), f, a)
        yield H("%s%d" % (prefix, i), {MAIN: s + body}, [run(["b", "-n", "-f", MAIN], day(2024, 5, 7))])
        # one amount that is refused, or not, in a place of its own
        if i % 2 == 0:
            x = r.choice(BAD_AMOUNTS + ["Ft. 5.5", "5.5 Ft.", "5.0.", "1.000.000", "$5.5.5", "5 5 $", "US 5 $", "$$5$", "--5", "5--",
                                        "$--5", "5--3", "$ 5 -", "-5-", "1 2", "5,5", "5 $", "$ 5", "½", "٣", "1e3",
                                        "0x10", "+5", "5+", "1_000", "(5)", "inf", "nan", "NaN", "5 inf", "-inf", "infinity"])
            where = r.choice(["posting", "price", "total", "target", "envelope", "assert"])
            s = "account a\n"
            if where in ("target", "envelope"):
                s += "  expense food due every 1st\n    amount %s\n" % (x if where == "target" else "5")
            s += "account b\n2024/05/06 * n\n"
            s += {"posting": "  a %s\n  b\n", "price": "  a 3 EUR @ %s\n  b 5\n  a\n", "total": "  a 3 EUR = %s\n  b 5\n  a\n",
                  "target": "  a 5 // %s\n  b\n", "envelope": "  envelope a food %s\n", "assert": "  a 5 ! %s\n  b\n"}[where] % x
            yield H("%sx%d" % (prefix, i), {MAIN: s}, [run([r.choice("be"), "-n", "-f", MAIN], day(2024, 5, 7))])


# ------------------------------------------------------------------ C06-C08 envelopes

def near_days(r, today):
    o = r.choice([0, 0, 1, 2, 3, 6, 7, 8, 13, 14, 15, 27, 28, 29, 30, 31, 32, 58, 59, 60, 61, 62, 89, 364, 365, 366, 367, 730,
                  r.randrange(0, 62), r.randrange(0, 62), r.randrange(0, 800), -1, -2, -7, -31, -r.randrange(1, 400)])
    return today - o


def due_days(r, today, sched):
    """Days around the recent due dates of a schedule (as its text says), for boundary cases."""
    text, kind, st = sched
    c = date(today)
    out = []
    if kind == "monthly":
        d = int("".join(x for x in text.split(" every ")[1].split()[0] if x.isdigit()))
        for back in range(3):
            y, m = divmod(c.year * 12 + c.month - 1 - back, 12)
            m += 1
            last = (dt.date(y + m // 12, m % 12 + 1, 1) - dt.timedelta(days=1)).day
            out.append(day(y, m, min(d, last)))
    elif kind == "weekly":
        w = [x[:3] for x in WDAYS].index(text.split(" every ")[1].split()[0].lower()[:3])
        x = today - ((date(today).weekday() - w) % 7)
        out += [x, x - 7]
    elif kind == "biweekly":
        x = st + 14 * ((today - st) // 14)
        out += [x, x - 14]
    elif kind in ("bimonthly", "annually"):
        sd = date(st)
        for back in range(26):
            y, m = divmod(c.year * 12 + c.month - 1 - back, 12)
            m += 1
            if (kind == "bimonthly" and (y * 12 + m - sd.year * 12 - sd.month) % 2 == 0) or \
               (kind == "annually" and m == sd.month):
                last = (dt.date(y + m // 12, m % 12 + 1, 1) - dt.timedelta(days=1)).day
                out.append(day(y, m, min(sd.day, last)))
                if len(out) > 2:
                    break
    elif kind in ("once", "past"):
        out.append(today)
    return [x + r.choice([-1, 0, 0, 1]) for x in out] or [today]


def envelopes(r, n, prefix="env", size=None, kinds=None, curr=None, begun=None, cmds="e", only=None):
    """only: manual | linked | None"""
    for i in range(n):
        t = Text(r, 0)
        today = some_day(r)
        assets = pick(r, ["assets:checking", "assets:savings", "assets:cash", "assets", "bank"], 1, 3)
        links = pick(r, ["expenses:food", "expenses:rent", "expenses:food:out", "expenses", "liabilities:card", "fun",
                         "expenses:Food"], 2, 4)
        cur = r.choice(["", "", "", "$", "EUR"]) if curr is None else curr
        head, envs, days = "", [], []
        for a in assets:
            head += "account %s\n" % a
            for nm in pick(r, ENVNAMES, 0 if len(assets) > 1 else 1, 4):
                sch = schedule(r, today, kinds=kinds, begun=begun)
                ty = r.choice(["expense", "expense", "goal"])
                head += "  %s %s %s\n    amount %s\n" % (ty, nm, sch[0], notation(r, magnitude(r, 2, "quarter"), cur, 2, True))
                ls = [] if only == "manual" else pick(r, links + (assets if r.random() < 0.15 else []), 0, 2)
                for l in ls:
                    head += "    for %s\n" % l
                if r.random() < 0.4:
                    head += "    funding %s\n" % r.choice(["manual", "conservative", "aggressive"])
                envs.append((a, nm, cur, ls))
                days += due_days(r, today, sch)
        head += "".join("account %s\n" % l for l in links + ["income:job"])
        if not envs:
            continue
        es = []
        allacc = assets + links
        for _ in range(size or r.choice([1, 2, 3, 4, 6, 10, 20])):
            w = r.choice(days) if r.random() < 0.5 else near_days(r, today)
            kind = r.choice(["spend", "spend", "refund", "manual", "manual", "income", "split", "split", "net", "swap",
                             "foreign", "cross", "unrelated", "manual+"])
            if only == "manual":
                kind = r.choice(["manual", "manual", "manual+", "income", "swap"])
            if only == "linked":
                kind = r.choice(["spend", "refund", "split", "net", "foreign", "cross", "unrelated", "spend", "manual+"])
            a, nm, c, ls = r.choice(envs)
            l = r.choice(ls) if ls and r.random() < 0.8 else r.choice(links)
            q = magnitude(r, 2, r.choice(["quarter", "quarter", "int"]))
            f = lambda x, cc=None: notation(r, x, c if cc is None else cc)
            if kind == "spend":
                ps = [(l, f(q)), (a, f(-q))]
                if r.random() < 0.4:
                    j = r.randrange(2)
                    ps[j] = (ps[j][0], "")
            elif kind == "refund":
                ps = [(l, f(-q)), (a, f(q))]
                if r.random() < 0.3:
                    ps[0] = (l, "")
            elif kind == "split":       # several accounts on both sides
                m = r.choice([2, 3, 4])
                xs = [magnitude(r, 2, "quarter") * r.choice([1, 1, 1, -1]) for _ in range(m)]
                ps = [(r.choice(links), f(x)) for x in xs]
                if r.random() < 0.5:
                    ps.append((a, f(-sum(xs))))
                elif r.random() < 0.5:
                    ps.append((a, ""))
                else:
                    y = r.choice([x for x in (100, 250, 1000, 5000)])
                    ps += [(r.choice(assets), f(-sum(xs) + y)), (r.choice(assets + ["income:job"]), f(-y))]
            elif kind == "net":         # the account's postings differ from the linked ones
                x = magnitude(r, 2, "quarter")
                ps = [(l, f(q)), (a, f(-x)), (r.choice(["income:job", r.choice(links)]), f(x - q))]
                if r.random() < 0.3:
                    ps.append((a, f(100)))
                    ps.append((l, f(-100)))
            elif kind == "swap":        # between assets
                b = r.choice(assets)
                ps = [(a, f(q)), (b, f(-q))]
            elif kind == "income":
                ps = [(a, f(q)), ("income:job", "")]
            elif kind == "manual":
                ps = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    b, nn, cc, _ls = r.choice(envs)
                    # names that occur nowhere, or under another account, are harmless
                    if r.random() < 0.08:
                        nn = r.choice(["nothing", nn + "x", nn.upper() + "_"])
                    x = magnitude(r, 2, "quarter") * r.choice([1, 1, 1, -1])
                    ps.append(("envelope %s %s" % (b, nn), f(x, cc)))
            elif kind == "manual+":     # a real movement whose envelopes are given by hand
                x = magnitude(r, 2, "quarter")
                ps = [(l, f(q)), (a, "" if r.random() < 0.5 else f(-q)), ("envelope %s %s" % (a, nm), f(-x))]
            elif kind == "foreign" and c == "":
                x = r.randrange(1, 40) * 100
                p = r.randrange(1, 40) * 25
                y = (x * p) // 100
                fx = r.choice(["GBP", "£"])
                ps = [(l, notation(r, x, fx) + r.choice([" @ " + num(p), " = " + num(y)])), (a, f(-y) if r.random() < 0.5 else "")]
                if r.random() < 0.25:
                    ps[0], ps[1] = (a, notation(r, -x, fx) + " @ " + num(p)), (l, f(y))
            elif kind == "cross":       # both sides under one account
                ps = [(a, f(q)), (a, f(-q)), (l, f(q)), (l, f(-q))]
                if r.random() < 0.5:
                    ps = [(a, f(q)), (a, f(-q - 100)), (l, f(100))]
            else:
                ps = [(r.choice(links), f(q)), ("income:job", f(-q))]
            r.shuffle(ps)
            es.append("%s %s %s\n%s" % (fdate(w), r.choice("?~*"), r.choice(["x", "Paid rent", "y [Bob]"]),
                                        "".join("    %s%s\n" % (p, "  " + x if x else "") for p, x in ps)))
        evs = []
        twins(r, es, 0.25)
        for c in cmds:
            evs.append(run([c, "-n", "-f", MAIN], today))
        files = {MAIN: head + "".join(es)}
        if len(es) > 1 and r.random() < 0.4:      # the same entries in another order
            r.shuffle(es)
            evs.append(edit({MAIN: head + "".join(es)}))
            evs.append(run(["e", "-n", "-f", MAIN], today))
        if r.random() < 0.3:                      # the same journal, some days later
            for dlt in r.sample([1, 2, 7, 14, 28, 31, 60, 365], 2):
                evs.append(run(["e", "-n", "-f", MAIN], today + dlt))
        yield H("%s%d" % (prefix, i), files, evs)


def purses(r, n, prefix="purse", rich=False):
    """Accounts with envelopes in several currencies: money of one currency never counts for another.
    rich: amounts of more digits than the specification carries, of which all but the first are zeros"""
    for i in range(n):
        k = r.choice([-1, -2, -3, -4, -6]) if rich else 2
        mag = (lambda: r.choice([r.randrange(1, 1000), r.randrange(1, 10 ** 6), 2147484, 4294968, 10 ** r.randrange(1, 7)])) if rich else (
            lambda: magnitude(r, 2, "quarter"))
        today = some_day(r)
        curs = pick(r, ["", "$", "EUR", "USD", "usd", "£"], 2, 3)
        assets = pick(r, ["assets:checking", "assets:savings"], 1, 2)
        head, envs, days = "", [], []
        for a in assets:
            head += "account %s\n" % a
            for nm in pick(r, ENVNAMES, 2, 5):
                c = r.choice(curs)
                sch = schedule(r, today)
                head += "  %s %s %s\n    amount %s\n" % (r.choice(["expense", "goal"]), nm, sch[0], notation(r, mag(), c, k))
                if r.random() < 0.7:
                    head += "    for spent:%d\n" % curs.index(c)
                head += "    funding %s\n" % r.choice(["manual", "aggressive", "aggressive"])
                envs.append((a, nm, c))
                days += due_days(r, today, sch)
        head += "".join("account spent:%d\n" % k for k in range(len(curs))) + "account income\n// MARK\n"
        es = []
        for _ in range(r.choice([2, 4, 8])):
            w = r.choice(days) if r.random() < 0.4 else near_days(r, today)
            a, nm, c = r.choice(envs)
            q = mag() * r.choice([1, 1, -1])
            f = lambda x: notation(r, x, c, k)
            z = r.random()
            if z < 0.35:
                ps = [(a, f(q)), ("income", "")]
            elif z < 0.6:
                ps = [("spent:%d" % curs.index(c), f(q)), (a, "")]
            elif z < 0.8:
                ps = [("envelope %s %s" % (a, nm), f(q))]
            elif z < 0.9:      # an exchange
                c2 = r.choice([x for x in curs if x != c])
                ps = [(a, f(q)), (r.choice(assets), notation(r, -mag(), c2, k))]
            else:
                ps = [(r.choice(assets), f(q)), (r.choice(assets), f(-q))]
            es.append("%s %s x\n%s" % (fdate(w), r.choice("?~*"), "".join("    %s%s\n" % (p, "  " + x if x else "") for p, x in ps)))
        evs = []
        d = today
        for _ in range(r.choice([1, 2, 3])):
            evs.append(run(["e", "-n", "-f", MAIN], d))
            if r.random() < 0.7:
                evs.append(run([r.choice("ber"), "-f", MAIN], d))
                evs.append(run([r.choice("ebr"), "-n", "-f", MAIN], d))
            d += r.choice([1, 1, 7, 31])
        yield H("%s%d" % (prefix, i), {MAIN: head + "".join(es)}, evs, k)


DECL_WORDS = ["account", "expense", "goal", "due", "by", "every", "other", "starting", "no date", "no", "date", "amount", "for", "funding", "manual",
              "aggressive", "conservative", "monday", "1st", "31st", "year", "2020/01/31", "5", "-5", "0", "$5", "5 EUR", "currency", "date_format",
              "envelope", "*", "~", "food", "assets:checking", "expenses:food", "other 3rd", "every 2nd", "month", "week", "day", "tue", "Sun", "by 2030/01/01"]


def env_broken(r, n, prefix="ebrk"):
    """Journals with envelopes, with one thing (or two) changed anywhere in them."""
    for h in envelopes(r, 2 * n, prefix, size=r.choice([1, 2, 4])):
        if n <= 0:
            return
        n -= 1
        s = h["files"][MAIN]
        today = today_of(h["events"][0])
        for _ in range(r.choice([1, 1, 1, 2])):
            t = edit_journal(r, s)
            if not any(unusual(l) for l in t.split("\n")):
                s = t
        yield dict(h, files={MAIN: s}, events=[run([c] + r.choice([["-n"], ["-n"], ["-n"] if "conservative" in s else []]) + ["-f", MAIN], today)
                                                         for c in r.choice(["e", "e", "be", "re", "b"])])


def unusual(line):
    """A day of the month of many digits, an amount of more digits than the specification holds or a currency of two
    words: what those mean is left open."""
    if sum(c.isdigit() for c in line.partition("every")[2].partition("starting")[0]) > 8:
        return True
    w = re.split(";|//", line)[0].split()
    if not w or not line[:1].isspace():
        return False
    for seg in re.split(" [@=!]+ ", " ".join(w[3 if w[0] == "envelope" else 1:])):
        if sum(c.isdigit() for c in seg.split(".")[0]) > 6 and w[0] not in ("expense", "goal"):
            return True
        if sum(any(c not in "0123456789.,-" for c in x) for x in seg.split()) > 1 and w[0] not in ("expense", "goal"):
            return True
    return False


def edit_journal(r, s):
    ls = s.split("\n")
    n = max(1, next((k for k, l in enumerate(ls) if l[:1].isdigit()), len(ls)))      # the declarations
    j = r.randrange(n if r.random() < 0.85 else len(ls))
    ind = ls[j][:len(ls[j]) - len(ls[j].lstrip())]
    w = ls[j].split()
    z = r.randrange(12)
    if z == 0:
        del ls[j]
    elif z == 1:
        ls.insert(r.randrange(n + 1), ls[j])
    elif z == 2:
        k = r.randrange(n)
        ls[j], ls[k] = ls[k], ls[j]
    elif z == 3:
        ls[j] = r.choice(["", "  ", "    ", "\t", "      "]) + ls[j].strip()
    elif z in (4, 5) and w:
        w[r.randrange(len(w))] = r.choice(DECL_WORDS)
        ls[j] = ind + " ".join(w)
    elif z == 6 and w:
        del w[r.randrange(len(w))]
        ls[j] = ind + " ".join(w)
    elif z == 7:
        w.insert(r.randrange(len(w) + 1), r.choice(DECL_WORDS))
        ls[j] = ind + " ".join(w)
    elif z == 8 and len(w) > 1:
        a, b = r.sample(range(len(w)), 2)
        w[a], w[b] = w[b], w[a]
        ls[j] = ind + " ".join(w)
    elif z == 9 and ls[j]:
        k = r.randrange(len(ls[j]))
        ls[j] = ls[j][:k] + ls[j][k + 1:]
    elif z == 10:
        k = r.randrange(len(ls[j]) + 1)
        ls[j] = ls[j][:k] + r.choice([" ", "  ", "\t", ";", "//", "/", "x", "1", "0", "-", ".", ",", "$", "\n", "\r"]) + ls[j][k:]
    else:
        ls[j] = ls[j].upper() if r.random() < 0.4 else ls[j].title()
    return "\n".join(ls)


# ------------------------------------------------------------------ C09 due dates

def due_dates(r, n, prefix="due", per=14, days=6):
    """Many envelopes at once, on several days."""
    for i in range(n):
        base = some_day(r)
        s = "account assets:c\n"
        for k in range(per):
            cl, kind, st = schedule(r, base)
            if kind == "never" and r.random() < 0.7:
                cl, kind, st = schedule(r, base, kinds=["monthly", "bimonthly", "annually"])
            s += "  %s e%d %s\n    amount 5\n" % (r.choice(["expense", "goal"]), k, cl)
        deltas = r.choice([list(range(days)), sorted(r.sample(range(0, 70), days)), [0, 1, 28, 29, 30, 31, 59, 61, 365, 366][:days],
                           sorted(r.sample(range(0, 1500), days))])
        yield H("%s%d" % (prefix, i), {MAIN: s}, [run(["e", "-n", "-f", MAIN], base + x) for x in deltas])


def due_grid(chunk, chunks, prefix="dg", todays=None):
    """Every kind of schedule at every day of the month/week, on every boundary day: one slice of the
    grid (deterministic)."""
    sch = []
    for w in WDAYS:
        sch.append("due every " + w)
    for d in range(1, 32):
        sch.append("due every %d" % d)
    starts = [day(2023, 12, 31), day(2024, 1, 1), day(2024, 1, 29), day(2024, 1, 30), day(2024, 1, 31), day(2024, 2, 29),
              day(2024, 3, 31), day(2024, 8, 31), day(2023, 6, 15), day(2024, 11, 30), day(2024, 12, 31), day(2020, 2, 29),
              day(2025, 2, 28), day(2022, 12, 30)]
    for st in starts:
        sch.append("due every other %s starting %s" % (WDAYS[date(st).weekday()], fdate(st)))
        sch.append("due every other %d starting %s" % (date(st).day, fdate(st)))
        sch.append("due every year starting %s" % fdate(st))
        sch.append("by " + fdate(st))
    s = "account assets:c\n" + "".join("  expense e%d %s\n    amount 5\n" % (k, x) for k, x in enumerate(sch))
    if todays is None:
        todays = []
        for y in (2024, 2025):
            for m in range(1, 13):
                for d in (1, 2, 15, 27, 28, 29, 30, 31):
                    try:
                        todays.append(day(y, m, d))
                    except ValueError:
                        pass
    mine = [x for k, x in enumerate(todays) if k % chunks == chunk]
    yield H("%s%d" % (prefix, chunk), {MAIN: s}, [run(["e", "-n", "-f", MAIN], x) for x in mine])


# ------------------------------------------------------------------ C10-C12 funding

def funding(r, n, prefix="fund", steps=None, methods=None, exact=None, kinds=None, rich=None, cmds="ber", touch=True, k=None,
            daily=None):
    """Journals used day after day, with money moved automatically."""
    for i in range(n):
        ex = r.random() < 0.5 if exact is None else exact
        kk = k or (2 if ex else r.choice([4, 4, 8]))
        tol = 0
        today = some_day(r)
        small = kk == 8
        sc = 10 ** kk
        cur = r.choice(["", "", "$", "USD"])
        two = r.random() < 0.2 and not small
        assets = pick(r, ["assets:checking", "assets:savings"], 1, 2)
        head, envs = "", []
        for a in assets:
            head += "account %s\n" % a
            for nm in pick(r, ["food", "rent", "car", "boat", "x", "tax"], 1, 4):
                f = r.choice(methods or (["aggressive", "manual", "aggressive", None] if ex else
                                         ["conservative", "conservative", "conservative", "aggressive", "manual"]))
                if f == "conservative" and ex:
                    ks = ["once"]
                else:
                    ks = kinds
                c = r.choice([cur, "EUR"]) if two else cur
                sch = schedule(r, today, kinds=ks)
                tgt = (r.randrange(1, 40) * (sc // 20)) if small else r.choice(
                    [r.randrange(1, 400) * (sc // 4), r.randrange(1, 400) * sc, 0 if r.random() < 0.1 else 50 * sc])
                if r.random() < 0.03:
                    tgt = -tgt
                head += "  %s %s %s\n    amount %s\n" % (r.choice(["expense", "goal"]), nm, sch[0], notation(r, tgt, c, kk, True))
                if f:
                    head += "    funding %s\n" % f
                if r.random() < 0.5:
                    head += "    for expenses:%s\n" % nm
                envs.append((a, nm, c, tgt))
        head += "".join("account expenses:%s\n" % x for x in ["food", "rent", "car", "boat", "x", "tax"]) + "account income\n"
        body = ""
        wealth = r.choice(["poor", "rich", "none", "debt", "mid"]) if rich is None else rich
        for a in assets:
            for c in {cur, "EUR"} if two else {cur}:
                want = sum(abs(e[3]) for e in envs if e[0] == a)
                q = {"poor": want // 3, "rich": want * 2 + 5 * sc, "none": 0, "debt": -want // 2 - sc, "mid": want}[wealth]
                if small:
                    q = max(min(q, 8 * sc), -3 * sc)
                q = q // (sc // 4) * (sc // 4)
                if wealth != "none":
                    body += "%s * opening\n  %s  %s\n  income\n" % (fdate(today - r.randrange(1, 400)), a, notation(r, q, c, kk))
        if r.random() < 0.3 and touch:
            for _ in range(r.choice([1, 2])):
                a, nm, c, tgt = r.choice(envs)
                q = min(magnitude(r, kk, "quarter"), sc) if small else magnitude(r, kk, "quarter")
                body += "%s * by hand\n  envelope %s %s  %s\n" % (
                    fdate(near_days(r, today - 1)), a, nm, notation(r, q * r.choice([1, 1, -1]), c, kk))
        evs = []
        d = today
        m = steps or r.choice([1, 2, 3, 6])
        for _ in range(m):
            x = r.random()
            if touch and x < 0.5:
                a, nm, c, tgt = r.choice(envs)
                q = min(magnitude(r, kk, "quarter"), sc) if small else r.choice([magnitude(r, kk, "quarter"), sc, 20 * sc])
                w = r.choice([d, d, d, d - 1, d - 40, d + 1, d + 30])
                fq = lambda y: notation(r, y, c, kk)
                e = r.choice([
                    "%s * spent\n    %s  %s\n    expenses:%s\n" % (fdate(w), a, fq(-q), nm),
                    "%s * spent\n    %s  %s\n    expenses:%s\n" % (fdate(w), a, fq(-q), nm),
                    "%s * paid\n    %s  %s\n    income\n" % (fdate(w), a, fq(q)),
                    "%s ~ moved\n    envelope %s %s  %s\n" % (fdate(w), a, nm, fq(q)),
                    "%s ~ moved back\n    envelope %s %s  %s\n" % (fdate(w), a, nm, fq(-q))])
                if r.random() < 0.4:
                    evs.append(edit(insert={MAIN: ("// MARK\n", e)}))
                else:
                    evs.append(edit(append={MAIN: "\n" + e}))
            c = r.choice(cmds)
            evs.append(run([c, "-f", MAIN], d))
            if r.random() < 0.4:
                evs.append(run([r.choice(cmds), "-f", MAIN], d))
            elif r.random() < 0.3:
                evs.append(run([r.choice(cmds), "-n", "-f", MAIN], d))
            d += r.choice([1, 1, 1, 1, 2, 3, 7, 15, 31]) if daily is None else daily
        if not ex:
            tol = 4 if small else 30
        yield H("%s%d" % (prefix, i), {MAIN: head + "// MARK\n" + body}, evs, kk, tol)


def saving_up(r, n, prefix="save"):
    """Conservative funding on every day of a whole period: the target is met on the due date and not
    before."""
    for i in range(n):
        today = some_day(r)
        kind = r.choice(["weekly", "biweekly", "monthly", "once", "bimonthly"])
        if kind == "once":
            cl = "by " + fdate(today + r.randrange(2, 30))
        elif kind == "bimonthly":
            st = today + r.randrange(2, 40)
            cl = "due every other %d starting %s" % (date(st).day, fdate(st))
        else:
            cl = schedule(r, today, kinds=[kind], begun=True)[0]
        tgt = r.randrange(1, 2000) * 100
        k = r.choice([2, 4])
        ty = r.choice(["expense", "goal"])
        s = "account assets:c\n  %s trip %s\n    amount %s\n    funding conservative\naccount income\n" % (ty, cl, num(tgt))
        s += "%s * x\n  assets:c 9000\n  income\n" % fdate(today - 3)
        m = r.choice([8, 16, 33])
        evs = [run([r.choice("eeb"), "-f", MAIN], today + x) for x in range(m)]
        yield H("%s%d" % (prefix, i), {MAIN: s}, evs, k, 1 + m)


# ------------------------------------------------------------------ C14 reading back

ENDINGS = ["", "\n", "\n\n", "  ", "\t", " // end", "\n// end", "\n   ", "\r\n", "\n; x", "\n\n\n", " ;"]


def readback(r, n, prefix="back"):
    """Runs that write, on journals that end in every way, under several date formats."""
    for i in range(n):
        fmt = r.choice(FMTS)
        today = some_day(r)
        cur = r.choice(CURS + ["", ""])
        c2 = r.choice(CURS)
        tgt = lambda: num(r.randrange(1, 4000) * 25)
        acct = r.choice(["assets:checking", "übrig:geld", "a", "assets:x:y"])
        s = "date_format %s\naccount %s\n" % (fmt, acct)
        envs = pick(r, ENVNAMES, 1, 4)
        for nm in envs:
            s += "  %s %s %s\n    amount %s\n    funding %s\n" % (
                r.choice(["expense", "goal"]), nm, schedule(r, today, fmt, kinds=["once", "weekly", "monthly", "annually"])[0],
                notation(r, r.randrange(1, 4000) * 25, r.choice([cur, cur, c2])), r.choice(["aggressive", "aggressive", "conservative"]))
        s += "account b\naccount expenses:unknown\naccount income:unknown\naccount unknown\n"
        for c in {cur, c2}:
            s += "%s * opening [x]\n  %s  %s\n  b\n" % (fdate(today - r.randrange(1, 90), fmt), acct,
                                                       notation(r, r.randrange(1, 9000) * 25, c))
        if r.random() < 0.3:
            s += "account last"
        s = s.rstrip("\n") + r.choice(ENDINGS)
        if r.random() < 0.2:
            s = s.replace("\n", "\r\n")
        evs = []
        files = {MAIN: s}
        d = today
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.45:
                csv, rules = simple_import(r, acct, d)
                files[ROOT + "/s%d.csv" % len(evs)] = csv
                files[ROOT + "/s%d.csv.rules" % len(evs)] = rules
                evs.append(run(["import", "-f", MAIN, "--csv", ROOT + "/s%d.csv" % len(evs)], d))
            else:
                evs.append(run([r.choice("ber"), "-f", MAIN], d))
            for c in "ber":
                if r.random() < 0.6:
                    evs.append(run([c, "-n", "-f", MAIN], d))
            d += r.choice([1, 1, 5, 40])
        yield H("%s%d" % (prefix, i), files, evs, 4 if "conservative" in s else 2, 30 if "conservative" in s else 0)


def simple_import(r, acct, today):
    rows = []
    for _ in range(r.choice([1, 2, 5])):
        q = r.randrange(-4000, 4000) * 25
        rows.append("%s,%s,%s" % (fdate(today - r.randrange(40)), r.choice(["Shop", "Big store", "x y"]), num(q)))
    rules = "fields date, description, amount\nskip 0\naccount %s\namount %s%%amount%%%s\n" % (
        acct, r.choice(["", "", "$"]), "")
    if r.random() < 0.4:
        rules += "if shop\n  account2 b\n"
    if r.random() < 0.3:
        rules += "payee Big Co.\n"
    if r.random() < 0.3:
        rules += "comment imported\n"
    return "\n".join(rows) + "\n", rules


# ------------------------------------------------------------------ C15-C17 imports

def csv_field(r, v):
    if any(c in v for c in ',"\n\r') or r.random() < 0.15:
        return '"' + v.replace('"', '""') + '"'
    return v


CSVWORDS = ["Coffee", "SHOP", "shop", "Big Store", "Café", "Ünder", "Acme, Inc.", "pay \"day\"", "RENT payment", "a", "", "Refund",
            "  padded ", "#42", "x  y", "50 off", "amount", "ÉTÉ", "Été", "Жук", "ΣΑΠ".replace("Σ", "Π"), "CAFÉ", "shop", "SHoP", "coffee"]


RULE_SAME = {"note": "comment", "decimal": "decimal_symbol", "comment": "comment", "decimal_symbol": "decimal_symbol"}


def imports(r, n, prefix="imp", bad=0.0, groups=None, wide=True):
    """Histories with one to three imports. bad: the chance that something is wrong with an import."""
    for i in range(n):
        today = some_day(r)
        accts = ["assets:bank", "assets:other", "expenses:food", "expenses:rent", "income:job", "fees", "b2"]
        unk = ["expenses:unknown", "income:unknown", "unknown"]
        missing = r.choice(unk) if bad and r.random() < 0.15 else None
        jfmt = r.choice(["%Y/%m/%d"] * 3 + FMTS)
        s = "date_format %s\n" % jfmt + "".join("account %s\n" % a for a in accts + unk if a != missing)
        s += "%s * before\n  assets:bank 100\n  income:job\n" % fdate(today - 9, jfmt)
        if r.random() < 0.3:
            s = s.replace("account assets:bank\n", "account assets:bank\n  expense food due every 1st\n    amount 5\n"
                          "    for expenses:food\n    funding %s\n" % r.choice(["aggressive", "manual"]))
        s = s.rstrip("\n") + r.choice(["", "\n", "\n\n"])
        files = {MAIN: s}
        evs = []
        for m in range(r.choice([1, 1, 1, 2, 3])):
            name = r.choice(["s%d.csv"] * 6 + ["s%d", "s%d.txt", "s%d.b.csv", "s%d.CSV", ".s%d", "my bank %d.csv", "s%d.", "d.e/s%d"]) % m
            csv, rules, extra = one_import(r, accts, today, bad, groups)
            files[ROOT + "/" + name] = csv
            args = ["import", "-f", MAIN, r.choice(["--csv", "--csv", "--csv-file"]), ROOT + "/" + name]
            if r.random() < 0.3:
                rp = ROOT + "/r%d.rules" % m
                args += [r.choice(["--rules", "--rules-file"]), rp]
            else:
                rp = ROOT + "/" + name + ".rules"
            files[rp] = rules
            files.update(extra)
            if bad and r.random() < 0.06:
                args[4] = ROOT + "/nothere.csv"
            if bad and r.random() < 0.06:
                del files[rp]
            if r.random() < 0.3:
                args.insert(1, "-n")
            evs.append(run(args, today))
            if r.random() < 0.4:
                evs.append(run([r.choice("ber"), "-n", "-f", MAIN], today))
            if r.random() < 0.12:        # the same file again
                evs.append(run(args, today + r.choice([0, 0, 1])))
        yield H("%s%d" % (prefix, i), files, evs)


def one_import(r, accts, today, bad, groups=None):
    cols = ["date", "description", "amount"] + pick(r, ["kind", "note", "cost", "who", "account", "balance", "amount2", "date 2",
                                                        "amount in", "desc", "", "Note", "accounts"], 0, 3)
    r.shuffle(cols)
    dfmt = r.choice(["%Y/%m/%d", "%Y/%m/%d", "%m/%d/%Y", "%d.%m.%Y", "%Y-%m-%d", "%Y%m%d"] + ([r.choice(MORE_FMTS + ["%b %d %Y", "%d %B %Y", "%B %-d, %Y", "%d %b, %Y"])] if r.random() < 0.6 else []))
    if "%y" in dfmt or "%D" in dfmt:
        today = min(today, day(2060, 1, 1))
    dec = r.choice([".", ".", ".", ","])
    cur = r.choice(["", "", "$", "EUR"])
    curtpl = {"": "%amount%", "$": "$%amount%", "EUR": "%amount% EUR"}[cur]
    skip = r.choice([0, 1, 1, 2, 3, None])
    rows = []
    for _ in range(skip if skip is not None else 1):
        rows.append([c.title() for c in cols])
    nrec = r.choice([0, 1, 2, 3, 5, 9] if r.random() < 0.96 else [33, 70])
    for _ in range(nrec):
        if len(rows) > (skip if skip is not None else 1) and r.random() < 0.12:
            rows.append(list(r.choice(rows[skip if skip is not None else 1:])))      # the same record twice
            continue
        q = r.randrange(-400, 400) * r.choice([1, 25, 100, 7])
        if r.random() < 0.07:
            q = 0
        if r.random() < 0.06:
            q = r.choice([1, -1, 2, -2, 9, -9])
        v = {"date": fdate(today - r.randrange(0, 400), dfmt), "description": " ".join(r.choice(CSVWORDS) for _ in range(r.choice([1, 1, 2]))),
             "amount": num(q).replace(".", dec), "kind": r.choice(["debit", "credit", "FEE", ""]), "note": r.choice(CSVWORDS),
             "cost": num(r.randrange(1, 9) * 100).replace(".", dec), "who": r.choice(["Bob", "Ann Lee", "Acme, Inc.", "x"]),
             "account": r.choice(accts), "balance": num(r.randrange(0, 90000)).replace(".", dec)}
        if r.random() < 0.1 and abs(q) > 100000:
            v["amount"] = group(num(q)) if dec == "." else group(num(q)).replace(",", "_").replace(".", ",").replace("_", ".")
        rows.append([v.get(c, num(r.randrange(1, 90) * 25).replace(".", dec) if c == "amount2" else r.choice(["", "w", "Shop"])) for c in cols])
    lines = []
    if skip is not None:
        lines.append("skip %d" % skip)
    if dec != "." or r.random() < 0.1:
        lines.append("%s %s" % (r.choice(["decimal_symbol", "decimal"]), dec))
    if dfmt != "%Y/%m/%d" or r.random() < 0.1:
        lines.append("date_format " + dfmt)
    if r.random() < 0.3:
        lines.append("status " + r.choice("?~*"))
    if r.random() < 0.3:
        lines.append("description " + r.choice(["%description%", "Paid %description%", "%desc% %description%", "%date 2%%amount in%.", "%amount2% %amount%", "%Note%",
                                                "%note% / %description%" if "note" in cols
                                                else "fixed text", "100%% %description%", "%nofield%", "%description% (%kind%)"
                                                if "kind" in cols else "%description%%description%"]))
    if r.random() < 0.08 and nrec:     # values that look like variables
        for row in rows[-nrec:]:
            if r.random() < 0.7:
                row[cols.index("description")] = r.choice(["get %amount% now", "%date%", "%description%", "50%% off", "50% off", "%%", "%", "a%", "%who%%", "%note% %amount%"])
    if r.random() < 0.3:
        lines.append("payee " + r.choice(["%who%", "Shop", "%who% Co."] if "who" in cols else ["Shop", "The Shop"]))
    if r.random() < 0.15:
        lines.append("date %date%")
    if r.random() < 0.2:
        lines.append(r.choice(["comment", "note"]) + " imported %description%")
    style = r.choice(["plain", "plain", "two", "two", "numbered", "field", "three"])
    if style == "field" and "account" not in cols:
        style = "plain"
    if style in ("plain", "two"):
        lines.append("account assets:bank")
        if cur or r.random() < 0.3:
            lines.append("amount " + curtpl)
        if style == "two":
            lines.append("account2 " + r.choice(accts))
    elif style == "numbered":
        lines += ["account1 assets:bank", "amount1 " + curtpl, "account2 " + r.choice(accts)]
    elif style == "three":
        if "cost" in cols:
            lines += ["account1 assets:bank", "amount1 " + curtpl, "account2 fees", "amount2 " + curtpl.replace("amount", "cost"),
                      "account3 b2"]
        else:
            lines += ["account1 assets:bank", "amount1 " + curtpl, "account2 fees", "amount2 -" + curtpl if cur == "" else
                      "amount2 " + curtpl, "account3 b2"]
    elif cur:
        lines.append("amount " + curtpl)
    r.shuffle(lines)
    if r.random() < 0.25:        # a rule that is discarded: as if it had never been written
        nm, val = r.choice([("comment", "gone"), ("note", "gone %description%"), ("comment", " "), ("payee", "Gone"), ("payee", " "), ("description", "gone"), ("status", "?"),
                            ("date", "%nothere%"), ("date_format", "%d|%m|%Y"), ("decimal", "_"), ("decimal_symbol", ","), ("amount9", "5 GONE"), ("account7", "nowhere"),
                            ("skip", "9")])
        was = [k for k, l in enumerate(lines) if RULE_SAME.get(l.split()[0], l.split()[0]) == RULE_SAME.get(nm, nm)]
        for k in reversed(was):
            lines.insert(k, nm + " -")
            lines.insert(k, nm + " " + val)
        if nm == "skip" and skip == 1 and was:
            del lines[was[0] + 2]
        if not was:
            lines += [nm + " " + val, r.choice([k for k in [nm] + [a for a, b in RULE_SAME.items() if b == RULE_SAME.get(nm)]]) + " -"]
    names = list(cols)
    if r.random() < 0.03:        # two columns of the same name
        names[r.randrange(len(names))] = r.choice(cols)
    if r.random() < 0.12 and len(names) > 1:       # the columns named in two lines
        h = r.randrange(1, len(names))
        a, b = r.choice([0, len(lines)]), len(lines) + 1
        lines.insert(a, "fields " + ", ".join(names[:h]))
        lines.insert(b, "fields " + ",".join(names[h:]))
    else:
        lines.insert(r.choice([0, 0, len(lines)]), "fields " + r.choice([", ", ","]).join(names))
    extra = {}
    if r.random() < 0.15 and len(lines) > 2:
        extra[ROOT + "/common.rules"] = "\n".join(lines[:2]) + "\n"
        lines = [r.choice(["include", "use"]) + " " + ROOT + "/common.rules"] + lines[2:]
    ng = r.choice([0, 0, 1, 2, 3, 4]) if groups is None else groups
    pats = ["ÉT", "жУ", "πα", "CAFÉ", "Ü", "shop", "SHOP", "coffee", "store", "rent", "café", "a", "refund", "bob", "fee", "-", "big store", "inc", "zzz", "pay", "bs"]
    for g in range(ng):
        blk = []
        if r.random() < 0.5:
            blk.append("if " + r.choice(pats))
        else:
            blk.append("if")
            blk += [r.choice(pats) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.15:
            blk.append(r.choice(pats))
        opts = ["account2 " + r.choice(accts), "description Group %d" % g, "description %description% again", "payee Someone",
                "status " + r.choice("?~*"), "comment hi", "account " + r.choice(accts) if style in ("plain", "two", "field") else
                "account1 " + r.choice(accts), "payee -", "description -", "status -", "account2 -" if style != "numbered" else "payee X",
                "amount2 5" if style == "plain" and False else "note there"]
        for o in r.sample(opts, r.choice([1, 1, 2, 3])):
            blk.append(r.choice(["  ", "\t", "    "]) + o)
        at = len(lines)
        if r.random() < 0.35:        # in the middle of the rules
            at = r.randrange(1, len(lines) + 1)
            while at < len(lines) and lines[at][:1].isspace():
                at += 1
            if at < len(lines) and lines[at - 1][:2] == "if":
                at = len(lines)
        if any(x.startswith("if") for x in lines[:at]) and not lines[at - 1][:1].isspace() and g and at == len(lines):
            pass
        lines[at:at] = blk
        if r.random() < 0.2:
            lines.insert(at, "")
    if r.random() < 0.2:
        lines.insert(r.choice([0, len(lines)]), r.choice(["; a comment", "// a comment", ""]))
    if ng and not extra and r.random() < 0.15:     # the whole of it, groups included, in another file
        extra[ROOT + "/all.rules"] = "\n".join(lines) + "\n"
        lines = ["use " + ROOT + "/all.rules"] + ([r.choice(["status ?", "payee Later", "if shop\n  status *"])] if r.random() < 0.5 else [])
    recs = rows
    if bad and r.random() < bad and nrec:
        j = len(rows) - 1 - r.choice([0, 0, nrec - 1, r.randrange(nrec)])
        what = r.choice(["date", "date", "amount", "amount", "ragged", "ragged+", "newline", "bracket", "account", "account+", "status",
                         "rule", "skip", "dec", "fields", "badrule", "semicolon"])
        row = list(rows[j])
        if what == "date":
            row[cols.index("date")] = r.choice(["", "x", "2020/13/01", "31/31/2020", "2020-02-30", "2020"])
        elif what == "amount":
            row[cols.index("amount")] = r.choice(["", "abc", "1.2.3", "5 6 7", "--", "-"])
        elif what == "ragged":
            row = row[:-1]
        elif what == "ragged+":
            row = row + ["more"]
        elif what == "newline":
            row[cols.index("description")] = "two\nlines"
        elif what == "bracket":
            row[cols.index("description")] = r.choice(["open [bracket", "a [", "shop [ x"])
        elif what == "account":
            lines = [x if not x.startswith("account") else x.split(" ")[0] + " not:there" for x in lines]
        elif what == "account+":
            if "account" in cols:
                row[cols.index("account")] = r.choice(["not:there", "", "assets", "assets:bank:x", "Assets:bank"])
                lines = [x for x in lines if not x.startswith(("account ", "account1 "))]
        elif what == "status":
            lines.append("status " + r.choice(["!", "cleared", "%kind%", "**", "%"]))
        elif what == "rule":
            lines.insert(r.choice([0, len(lines)]), r.choice(["frobnicate yes", "account", "justoneword", "skip", "xyzzy 5"]))
        elif what == "skip":
            lines.append("skip " + r.choice(["x", "1.5", "one"]))
        elif what == "dec":
            lines.append("decimal_symbol " + r.choice([",,", "ab"]))
        elif what == "fields":
            lines = [x if not x.startswith("fields") else x + ", " + cols[0] for x in lines]
        elif what == "badrule":
            lines.append("include " + ROOT + "/nothere.rules")
        elif what == "semicolon":
            row[cols.index("date")] += "x"
        rows[j] = row
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    csv = ""
    for row in recs:
        csv += ",".join(csv_field(r, v) for v in row) + eol
        if r.random() < 0.03:
            csv += eol
    csv = csv[:-len(eol)] + r.choice([eol, eol, "", eol + eol]) if recs else csv
    rules = "\n".join(lines) + r.choice(["\n", "\n", ""])
    if r.random() < 0.1:
        rules = rules.replace("\n", "\r\n")
    return csv, rules, extra


RULE_NAMES = ["skip", "fields", "account", "account1", "account2", "amount", "amount1", "amount2", "date", "date_format", "decimal", "decimal_symbol",
              "description", "payee", "status", "comment", "note", "include", "use", "if"]


def import_broken(r, n, prefix="ibrk"):
    """Imports with one thing (or two) changed somewhere in the CSV or the rules: the outcome is that of the changed text."""
    made = 0
    for h in imports(r, 4 * n, prefix, bad=0.0):
        if made >= n:
            return
        files = dict(h["files"])
        names = sorted(p for p in files if p != MAIN)
        for _ in range(r.choice([1, 1, 1, 2])):
            p = r.choice(names)
            if len(files[p]) > 6000:
                continue
            t = edit_csv(r, files[p]) if p.endswith(".csv") else edit_rules(r, files[p])
            # left open: values of several lines in other places than the description (bad_at has those), dates for amounts
            if p.endswith(".csv") and any("\n" in v or "\r" in v for row in csv.reader(io.StringIO(t, newline="")) for v in row):
                continue
            if any(l.strip().startswith("amount") and "%date%" in l for l in t.split("\n")):
                continue
            files[p] = t
        made += 1
        yield dict(h, files=files)


def edit_csv(r, s):
    z = r.randrange(9)
    i = r.randrange(len(s) + 1)
    ls = s.split("\n")
    j = r.randrange(len(ls))
    if z == 0:
        return s[:i] + s[i + 1:]
    if z == 1:
        return s[:i] + r.choice(['"', '""', ",", "\n", "\r\n", " ", "x", "-", "1", ".", "/", "[", "]", ";", "\t", "é", "a,b"]) + s[i:]
    if z == 2:
        ls.insert(j, ls[j])
    elif z == 3:
        del ls[j]
    elif z == 4:
        k = r.randrange(len(ls))
        ls[j], ls[k] = ls[k], ls[j]
    else:
        fs = ls[j].split(",")
        k = r.randrange(len(fs))
        if z == 5:
            del fs[k]
        elif z == 6:
            fs[k] = r.choice(["", "x", "0", "-0", "0.00", "5", "-5", "1,000", '"1,000"', "2020/01/01", "2021-02-03", "2020/02/30", "shop", '"say ""hi"""', " 7 ", "%amount%", "%date%", "50% off", "50%% off", "%", "%%", "%description%%amount%", "$3", "3 EUR", "*"])
        elif z == 7:
            m = r.randrange(len(fs))
            fs[k], fs[m] = fs[m], fs[k]
        else:
            fs.insert(k, r.choice(["", "x", "5"]))
        ls[j] = ",".join(fs)
    return "\n".join(ls)


def edit_rules(r, s):
    ls = s.split("\n")
    j = r.randrange(len(ls))
    ind = ls[j][:len(ls[j]) - len(ls[j].lstrip())]
    w = ls[j].strip().split(" ", 1)
    z = r.randrange(12)
    if z == 0:
        del ls[j]
    elif z == 1:
        ls.insert(r.randrange(len(ls) + 1), ls[j])
    elif z == 2:
        k = r.randrange(len(ls))
        ls[j], ls[k] = ls[k], ls[j]
    elif z == 3:
        ls[j] = ls[j].strip() if ind else "  " + ls[j]
    elif z == 4:
        ls[j] = ind + " ".join([r.choice(RULE_NAMES)] + w[1:])
    elif z == 5 and w[0]:
        o = [x.strip().split(" ", 1)[1] for x in ls if " " in x.strip()] + ["-", "x", "", "%amount%", "%date%", "0", "1", "2", ",", "*"]
        ls[j] = ind + w[0] + " " + r.choice(o)
    elif z == 6:
        ls[j] = ind + w[0]
    elif z == 7:
        ls.insert(j, r.choice(["", "; c", "// c", "  ; c", "  ", "if", "if shop", "  status *", "payee Late", "  payee Late", "frob x", "account3 -", "amount -"]))
    elif z == 8 and ls[j]:
        k = r.randrange(len(ls[j]))
        ls[j] = ls[j][:k] + ls[j][k + 1:]
    elif z == 9:
        ls[j] = ls[j].replace("%", "%%", 1) if r.random() < 0.5 else ls[j].replace("%", "", 1)
    elif z == 10:
        ls[j] += r.choice([" ", "  ", " ; c", " // c", "x", "%", " %kind%", "\t"])
    else:
        ls[j] = ls[j].upper() if r.random() < 0.3 else ls[j].replace(" ", r.choice(["  ", "\t", ""]), 1)
    return "\n".join(ls)


# ------------------------------------------------------------------ C18 register

def register(r, n, prefix="reg", big=False):
    for i in range(n):
        today = some_day(r)
        fmt = r.choice(["%Y/%m/%d"] * 4 + FMTS)
        accts = pick(r, ["assets:checking", "assets:savings", "asset", "assets", "assets_old", "asset:x", "assetsX"], 1, 4) + \
            pick(r, ["expenses:food", "expenses", "income:job", "my:assets", "Assets:checking", "liabilities:card", "e", "equity",
                     "expenses:assets", "ass"], 2, 4)
        curs = pick(r, ["", "$", "EUR", "£", "BTC"], 1, 3)
        t = Text(r, 0)
        head = "date_format %s\n" % fmt + declare(r, t, accts)
        envs = []
        if r.random() < 0.3:
            head += "account assets:env\n  expense food due every 1st\n    amount %s\n" % notation(r, 500, curs[0])
            envs = [("assets:env", "food", curs[0])]
            accts = accts + ["assets:env"]
        es = []
        span = r.choice([1, 3, 30, 900])
        for _ in range(r.choice([1, 2, 3, 5, 8, 15, 40 if big else 12])):
            w = today - r.randrange(-5, span)
            sh = r.choice(["balanced", "blank", "blank", "mixed", "priced"] + (["manual", "manual+"] if envs else []))
            es.append(entry(r, t, accts, w, fmt, 2, curs, sh, r.choice(["quarter", "int"]), envs, words=[
                "Groceries", "rent", "Paid", "bill", "x", "a", "50%", "and", "->", "*", "café"], notate=r.random() < 0.5))
        yield H("%s%d" % (prefix, i), {MAIN: head + "".join(es)},
                [dict(run([r.choice(["r", "register", "reg"]), "-n", "-f", MAIN], today), cols=r.choice([120, 120, 80, 60, 30, 8, 240]))])


# ------------------------------------------------------------------ C19 includes

def includes(r, n, prefix="inc"):
    for i in range(n):
        today = some_day(r)
        t = Text(r, 0)
        accts = pick(r, ACCTS, 3, 5)
        curs = ["", "$"]
        chunks = ["account %s\n" % a for a in accts]
        if r.random() < 0.5:
            chunks.append("account assets:env\n  expense food due every 5th\n    amount 25\n    for %s\n    funding %s\n" % (
                accts[0], r.choice(["aggressive", "manual"])))
            chunks.append("%s * x\n  assets:env 100\n  %s\n" % (fdate(today - 50), accts[1]))
        for _ in range(r.choice([2, 4, 7])):
            chunks.append(entry(r, t, accts, today - r.randrange(0, 99), k=2, curs=curs, style="quarter", shape=r.choice(["balanced", "blank"])))
        if r.random() < 0.25:       # another date format from here on, whichever file it lands in
            f2 = r.choice(FMTS)
            chunks.append("date_format %s\n" % f2)
            for _ in range(r.choice([1, 3])):
                chunks.append(entry(r, t, accts, today - r.randrange(0, 99), fmt=f2, k=2, curs=curs, style="quarter", shape="blank"))
        # cut the chunks into a tree of files
        files = {}
        names = ["a.sfox", "sub/b.sfox", "sub/deep/c.sfox", "other/d.sfox", "e", "sub/f.sfox", "sub/a.sfox", "g.txt", "über/h.sfox"]
        r.shuffle(names)
        root = "/".join([ROOT] + r.choice([[], ["home"], ["home", "me"]]))
        main = root + "/" + r.choice(["main.sfox", "books/2020.sfox", "sub/j"])

        def rel(frm, to):
            import os.path
            x = os.path.relpath(to, os.path.dirname(frm))
            z = r.random()
            if z < 0.15:
                return to
            if z < 0.3:
                return "./" + x
            if z < 0.36:
                return "././" + x
            return x

        def build_tree(path, cs, depth):
            out = []
            j = 0
            while j < len(cs):
                if names and depth < 4 and r.random() < (0.45 if depth else 0.5):
                    m = r.randrange(1, max(2, len(cs) - j))
                    p = root + "/" + names.pop()
                    out.append("include" + r.choice([" ", "  ", "\t"]) + rel(path, p) + r.choice(["\n", "  // c\n", "\n\n"]))
                    build_tree(p, cs[j:j + m], depth + 1)
                    j += m
                else:
                    out.append(cs[j])
                    j += 1
            txt = "".join(out)
            if r.random() < 0.3:
                txt = txt.rstrip("\n")
            files[path] = txt

        build_tree(main, chunks, 0)
        z = r.random()
        if z < 0.1:        # something missing
            k = r.choice([p for p in files])
            files[k] = files[k] + "\ninclude nothere.sfox\n"
        elif z < 0.16 and len(files) > 1:
            p = r.choice([p for p in files if p != main])
            files[p] += "\ninclude " + r.choice([main, p]) + "\n"
        elif z < 0.22 and len(files) > 1:
            del files[r.choice([p for p in files if p != main])]
        elif z < 0.3:
            files[main] += "\ninclude %s\ninclude %s\n" % ((ROOT + "/twice.sfox",) * 2)
            files[ROOT + "/twice.sfox"] = "%s * twice\n  %s 5\n  %s\n" % (fdate(today - 1), accts[0], accts[1])
        evs = []
        move = r.random() < 0.4
        for c in r.sample("ber", r.choice([1, 2])):
            cwd = r.choice([ROOT, root, root + "/sub", ROOT + "/elsewhere"])
            import os.path
            f = main if r.random() < 0.3 else os.path.relpath(main, cwd)
            if r.random() < 0.2:
                f = "./" + f if not f.startswith("/") else f
            a = [c] + ([] if move else ["-n"])
            env = {}
            if r.random() < 0.6:
                a += ["-f", f]
            else:
                env[r.choice(["SILVERFOX_FILE", "LEDGER_FILE"])] = f
            evs.append(run(a, today, cwd=cwd, env=env))
        if move and r.random() < 0.5:
            files[ROOT + "/x.csv"] = "%s,Thing,25.5\n" % fdate(today)
            files[ROOT + "/x.rules"] = "skip 0\nfields date, description, amount\naccount %s\naccount2 %s\n" % (accts[0], accts[1])
            cwd = r.choice([ROOT, root + "/sub"])
            evs.append(run(["i", "-f", os.path.relpath(main, cwd), "--csv", os.path.relpath(ROOT + "/x.csv", cwd), "--rules",
                            os.path.relpath(ROOT + "/x.rules", cwd)], today, cwd=cwd))
            evs.append(run(["b", "-n", "-f", main], today))
        yield H("%s%d" % (prefix, i), files, evs, dirs=[ROOT + "/elsewhere", root + "/sub"])


# ------------------------------------------------------------------ C21 command lines

def clis(r, n, prefix="cli"):
    base = ("account assets:c\n  expense food due every 5th\n    amount 10\n    funding aggressive\naccount inc%s\n"
            "2025/05/01 * x\n  assets:c %d\n  inc%s\n")
    files0 = {ROOT + "/a.sfox": base % ("a", 100, "a"), ROOT + "/b.sfox": base % ("b", 200, "b"), ROOT + "/d/c.sfox": base % ("c", 300, "c"),
              ROOT + "/x.csv": "2025/05/02,Thing,5\n", ROOT + "/x.csv.rules": "skip 0\nfields date, description, amount\naccount assets:c\naccount2 %s\n",
              ROOT + "/y.rules": "skip 0\nfields date, description, amount\naccount assets:c\naccount2 %s\nstatus *\n",
              ROOT + "/bad.sfox": "account a\nnonsense here\n"}
    cmds = ["b", "e", "r", "i", "s", "n", "balance", "envelopes", "register", "import", "summary", "new", "bal", "e2", "bogus", "x",
            "help", "-f", "--help", "", "B", "add", "-n", "ü", "ir", "next"]
    paths = ["a.sfox", ROOT + "/a.sfox", "b.sfox", "./b.sfox", "d/c.sfox", "d/../a.sfox", "none.sfox", ROOT + "/nodir/x", "bad.sfox", "", "d"]
    for i in range(n):
        files = dict(files0)
        for p in list(files):
            if p.endswith("rules"):
                files[p] = files[p].replace("%s", r.choice(["inca", "incb", "incc"]))
        today = day(2025, 6, 15)
        evs = []
        for _ in range(r.choice([1, 2, 3])):
            a = []
            if r.random() < 0.96:
                c = r.choice(cmds[:6]) if r.random() < 0.6 else r.choice(cmds)
                a.append(c)
                z = r.random()
                flags = []
                if z < 0.65:
                    flags.append([r.choice(["-f", "--file"]), r.choice(paths) if r.random() < 0.5 else paths[r.randrange(6)]])
                if r.random() < 0.4:
                    flags.append([r.choice(["-n", "--no-move"])])
                if a[0][:1] == "i" and r.random() < 0.85 or r.random() < 0.1:
                    flags.append([r.choice(["--csv", "--csv-file"]), r.choice(["x.csv", ROOT + "/x.csv", "x.csv", "none.csv"])])
                    if r.random() < 0.5:
                        flags.append([r.choice(["--rules", "--rules-file"]), r.choice(["y.rules", "none.rules", "x.csv.rules"])])
                if r.random() < 0.15:
                    flags.append(r.choice([["-x", "y"], ["--bogus"], ["--filee", "a.sfox"], ["stray"], ["-f"], ["--csv"], ["-nf", "a.sfox"],
                                           ["--no-movee"], ["-F", "a.sfox"], ["-f=a.sfox"], ["--file", "a.sfox", "b.sfox"],
                                           ["-f", "b.sfox"], ["--rules"], [""]]))
                r.shuffle(flags)
                for f in flags:
                    a += f
            env = {}
            if r.random() < 0.45:
                env["SILVERFOX_FILE"] = r.choice(paths) if r.random() < 0.5 else paths[r.randrange(6)]
            if r.random() < 0.45:
                env["LEDGER_FILE"] = r.choice(paths) if r.random() < 0.5 else paths[r.randrange(6)]
            evs.append(run(a, today, env=env, cwd=r.choice([ROOT, ROOT, ROOT + "/d"]), tty=r.random() < 0.9))
        yield H("%s%d" % (prefix, i), files, evs)


# ------------------------------------------------------------------ C22 date formats

def formats(r, n, prefix="fmt"):
    allf = FMTS + ["%Y/%d/%m", "%d-%m-%Y", "%Y_%m_%d", "%d,%m,%Y", "y%Ym%md%d"]
    for i in range(n):
        fmt = r.choice(allf) if r.random() < 0.7 else r.choice(MORE_FMTS)
        other = r.choice(allf + MORE_FMTS)
        tz = r.choice(["UTC", "UTC", "<EST>+5", "<JST>-9", "<IST>-5:30", "<NZT>-13", "<HST>+10", "<PKT>-5"])
        today = some_day(r)
        while ("y" in fmt or "D" in fmt) and fmt[0] != "y" and not 1975 < date(today).year < 2060:
            today = some_day(r)
        # close to midnight, local time
        now = today * 86400 - tz_off(tz) + r.choice([0, 1, 59, 3600, 43200, 82800, 86399, 86340])
        s = "date_format %s\n" % fmt
        z = r.random()
        use = fmt
        if z < 0.15:
            s, use = "", "%Y/%m/%d"
        elif z < 0.3:                  # changed halfway
            s = "account early\n%s * e\n  early 5\n  early -5\n" % fdate(today - 3) + s
        s += "account assets:c\n"
        for k in range(r.choice([1, 2, 3])):
            f = other if r.random() < 0.08 else use
            s += "  %s e%d %s\n    amount %d\n    funding %s\n" % (r.choice(["expense", "goal"]), k, schedule(
                r, today, f, kinds=["once", "biweekly", "annually", "bimonthly", "monthly"])[0], r.randrange(1, 50),
                r.choice(["aggressive", "aggressive", "manual"]))
        s += "account inc:x\n"
        for _ in range(r.choice([1, 2, 4])):
            w = near_days(r, today)
            f = other if r.random() < 0.1 else use
            d = fdate(w, f)
            if r.random() < 0.15 and any(x in f for x in "/.-"):
                d = "".join((x.lstrip("0") or "0") if x.isdigit() and len(x) < 4 else x for x in split_digits(d))
            s += "%s * x\n  assets:c %d\n  inc:x\n" % (d, r.randrange(1, 90))
        evs = [run([r.choice("erb"), "-f", MAIN], now=now, tz=tz)]
        evs.append(run(["r", "-n", "-f", MAIN], now=now, tz=tz))
        if r.random() < 0.5:
            evs.append(run([r.choice("erb"), "-f", MAIN], now=now + r.choice([1, 60, 3600, 86400]), tz=tz))
        if r.random() < 0.3:
            evs.append(run(["e", "-n", "-f", MAIN], now=now, tz=tz))
        yield H("%s%d" % (prefix, i), {MAIN: s}, evs)


def split_digits(d):
    import re
    return re.findall(r"\d+|\D+", d)


def tz_off(tz):
    from core import tz_offset
    return tz_offset(tz)


# ------------------------------------------------------------------ C13 faults

def fault_bases(r, n, prefix="flt"):
    """Histories whose last run writes to the journal (or might)."""
    for i in range(n):
        today = some_day(r)
        inc = r.random() < 0.4
        body = "%s * x\n  assets:c 500\n  b\n" % fdate(today - 3)
        s = "account assets:c\n"
        for k in range(r.choice([1, 2, 5])):
            s += "  expense e%d due every 5th\n    amount %d\n    funding aggressive\n" % (k, r.randrange(1, 50))
        s += "account b\naccount expenses:unknown\naccount income:unknown\n"
        files = {MAIN: s + body}
        if inc:
            files = {MAIN: s + "include more.sfox\n", ROOT + "/more.sfox": body}
        files[MAIN] = files[MAIN].rstrip("\n") + r.choice(ENDINGS)
        if r.random() < 0.3:
            files[MAIN] += "\n" + "; padding %s\n" % ("x" * 70) * r.choice([20, 200])
        files[ROOT + "/s.csv"] = "".join("%s,Thing %d,%d.25\n" % (fdate(today - k), k, k + 1) for k in range(r.choice([1, 3, 30])))
        files[ROOT + "/s.csv.rules"] = "skip 0\nfields date, description, amount\naccount assets:c\n" + r.choice(["", "account2 b\n"])
        kind = r.choice(["report", "report", "import", "import", "import-n"])
        a = {"report": [r.choice("ber"), "-f", MAIN], "import": ["i", "-f", MAIN, "--csv", ROOT + "/s.csv"],
             "import-n": ["i", "-n", "-f", MAIN, "--csv", ROOT + "/s.csv"]}[kind]
        yield H("%s%d" % (prefix, i), files, [run(a, today)])


def with_faults(h, done, dense=False):
    """h: a history; done: the same as it ran. One history for every mutating call and every way it
    can go wrong."""
    calls = [c for e in done["events"] if e["op"] == "run" for c in e["syscalls"]]
    for k, c in enumerate(calls, 1):
        modes = ["killb", "killa", "eio", "enospc"]
        if c.startswith("write"):
            n = int(c.split()[1])
            cuts = sorted({0, 1, 2, n // 2, n - 2, n - 1} | (set(range(0, n, 7)) if dense else set()))
            modes += ["%s:%d" % (m, x) for x in cuts if 0 <= x < n for m in ("short", "shortk", "shorte")]
        for m in modes:
            last = h["events"][-1]
            ev = dict(last, fault="%d:%s" % (k, m))
            # afterwards: the same again, and a report
            rep = dict(last, args=["be"[k % 2]] + (["-n"] if k % 3 else []) + ["-f", MAIN])
            yield dict(h, id="%s.%d.%s" % (h["id"], k, m.replace(":", "_")),
                       events=h["events"][:-1] + [ev] + ([rep, dict(last)] if k % 2 else [dict(last), rep]))


def read_bases(r, n, prefix="rd"):
    """Histories whose last run reads several files."""
    base = [includes(r, n * 4, prefix), imports(r, n * 4, prefix), fault_bases(r, n * 4, prefix), balances(r, n * 4, prefix)]
    i = 0
    while i < n:
        h = next(base[r.choice([0, 0, 1, 1, 2, 3])])
        runs = [k for k, e in enumerate(h["events"]) if e["op"] == "run"]
        if not runs:
            continue
        yield dict(h, id="%s%d" % (prefix, i), events=h["events"][:runs[0] + 1])
        i += 1


def directories(r, n, prefix="dir"):
    """Histories in which one of the files is a directory, or is missing."""
    for i, h in enumerate(read_bases(r, n, prefix)):
        p = r.choice(sorted(h["files"]))
        files = {q: t for q, t in h["files"].items() if q != p}
        kw = {"dirs": h.get("dirs", []) + [p]} if r.random() < 0.75 else {}
        yield dict(h, id="%s%d" % (prefix, i), files=files, **kw)


def with_read_faults(h, done, dense=False):
    """h: a history; done: the same as it ran. One history for every call that reads in its last run and
    every way it can go wrong."""
    for k, c in enumerate(done["events"][-1]["reads"], 1):
        modes = ["eio"]
        if c.startswith("read"):
            modes += ["short:1", "eintr"] + (["short:2", "short:5", "short:13"] if dense else ["short:%d" % (2 + k % 9)])
        for m in modes:
            last = h["events"][-1]
            ev = dict(last, fault="r%d:%s" % (k, m))
            yield dict(h, id="%s.r%d.%s" % (h["id"], k, m.replace(":", "_")), events=h["events"][:-1] + [ev, dict(last)])


# ------------------------------------------------------------------ C20 robustness

SNIPPETS = ["\n", "\t", " ", "[", "]", "\"", "%", "%%", "@", "=", "!", "!!", "-", "--", ".", ",", "0", "9999999999999999999999",
            "1e400", "inf", "nan", "é", "ß", "İ", "日本", "\U0001f984", "\u0301", "\u00a0", "\u2028", "\u3000", "\x00", "\x0b", "\x85",
            ";", "//", "/", "account", "include", "envelope", "expense x", "goal y", "due", "by", "starting", "no date", "every other",
            "every", "every 99999999999", "every 0th", "every 31st", "year", "amount", "for", "funding", "date_format", "%Q", "%Y",
            "date_format %s", "date_format %H", "date_format", "currency", "if", "skip -1", "skip 99999999999999999999", "fields", "fields ,",
            "decimal_symbol é", "account2", "amount2", "use", "\r", "\r\n", "\ufeff", "~", "*", "?", "$", "€", "-$5", "$-", "9999/12/31",
            "0000/01/01", "0001/01/01", "2024/02/30", "+2024/01/01", "-0001/01/01", "262142/12/31", "99999/01/01", "envelope assets:c",
            "envelope a b", "@ 5", "= 5", "5 @", "5 = ", "expenses:unknown", "asset", "  ", "    "]
RCMD = ["b", "e", "r", "b", "e", "r", "s", "n"]


def mutate(r, s, m=None):
    for _ in range(m or r.choice([1, 1, 2, 3, 6, 15])):
        z = r.random()
        i = r.randrange(len(s) + 1)
        if z < 0.4:
            s = s[:i] + r.choice(SNIPPETS) + s[i:]
        elif z < 0.55:
            s = s[:i] + s[i + r.choice([1, 1, 2, 5, 20]):]
        elif z < 0.65:
            j = r.randrange(len(s) + 1)
            s = s[:i] + s[j:j + r.choice([3, 10, 40])] + s[i:]
        elif z < 0.75:
            ls = s.split("\n")
            a = r.randrange(len(ls))
            if r.random() < 0.5:
                del ls[a]
            else:
                ls.insert(r.randrange(len(ls) + 1), ls[a])
            s = "\n".join(ls)
        elif z < 0.85:     # replace a token
            ts = s.split(" ")
            ts[r.randrange(len(ts))] = r.choice(SNIPPETS)
            s = " ".join(ts)
        elif z < 0.93:     # truncate
            s = s[:i]
        else:
            s = s[:i] + chr(r.choice([r.randrange(1, 128), r.randrange(128, 0x2000), r.randrange(0x1f300, 0x1f600)])) + s[i + 1:]
    return s


def seeds(r):
    """An endless stream of well-formed histories of all kinds."""
    while True:
        s = r.random()
        rr = random.Random(s)
        f = r.choice([balances, blanks, envelopes, envelopes, funding, formats, imports, imports, includes, register, declarations,
                      layouts, readback])
        for h in f(rr, 1):
            yield h


def fuzz(r, n, prefix="fuzz"):
    g = seeds(r)
    k = 0
    while k < n:
        h = next(g)
        ps = list(h["files"])
        for _ in range(3):
            files = dict(h["files"])
            p = r.choice(ps)
            files[p] = mutate(r, files[p])
            if r.random() < 0.03:
                b = files[p].encode("utf-8", "replace")
                i = r.randrange(len(b) + 1)
                files[p] = (b[:i] + bytes([r.randrange(128, 256)]) + b[i:]).decode("utf-8", "surrogateescape")
            evs = []
            runs = [e for e in h["events"] if e["op"] == "run"]
            for e in r.sample(runs, min(len(runs), 2)):
                e = dict(e)
                if r.random() < 0.1:
                    e["now"] = r.choice([86400, 10 ** 9, 253402300799 - 86400 * 3, 86400 * r.randrange(1, 2900000),
                                         day(2024, 12, 31) * 86400, day(2024, 2, 29) * 86400 + 86399])
                if r.random() < 0.3:
                    e["args"] = [r.choice(RCMD)] + e["args"][1:]
                if r.random() < 0.3 and "-n" in e["args"][1:]:
                    e["args"] = [e["args"][0]] + [x for x in e["args"][1:] if x != "-n"]
                if r.random() < 0.2:
                    e["cols"] = r.choice([1, 2, 5, 20, 40, 60, 79, 80, 81, 300, 1000])
                if r.random() < 0.05:
                    e["tty"] = False
                evs.append(e)
            yield H("%s%d" % (prefix, k), files, evs, 2, 0, level="robust", dirs=h.get("dirs", []))
            k += 1
            if k >= n:
                return


def crafted(r, n, prefix="craft"):
    """Short inputs, made of the program's own vocabulary."""
    v = SNIPPETS + ["2024/01/01", "2024/01/01 *", "2024/01/01 * x", "assets:c", "b", "5", "-5", "5 $", "$5", "account assets:c\n", "account b\n",
                    "  expense food due every 1st\n", "    amount 5\n", "    funding aggressive\n", "    funding conservative\n",
                    "    for b\n", "\n  assets:c 5\n", "\n  b\n", "\n  assets:c\n", "  goal g by 2030/01/01\n", " starting 2024/01/01",
                    "  envelope assets:c food 5\n", "include x.sfox", "include main.sfox"]
    for i in range(n):
        s = "account assets:c\naccount b\n" if r.random() < 0.6 else ""
        s += "".join(r.choice(v) + r.choice(["", " ", "\n", "\n  "]) for _ in range(r.randrange(1, 14)))
        today = some_day(r)
        files = {MAIN: s, ROOT + "/x.sfox": "".join(r.choice(v) for _ in range(3))}
        evs = [run([r.choice("ber"), "-f", MAIN], today)]
        if r.random() < 0.35:
            rv = ["fields date,description,amount\n", "skip 0\n", "account assets:c\n", "amount %amount%\n", "account2 b\n", "if x\n", "if\n", "x\n",
                  "  account2 b\n", "  payee %x%\n", "decimal ,\n", "date_format %d\n", "status *\n", "- -\n", "account -\n", "amount -\n",
                  "include x.csv.rules\n", "description %description\n"] + SNIPPETS
            files[MAIN] = "account assets:c\naccount b\naccount unknown\naccount expenses:unknown\naccount income:unknown\n" + (s if r.random() < 0.2 else "")
            files[ROOT + "/x.csv"] = "".join(r.choice(["2024/01/01", ",", ",", "\n", "\"", "5", "x", "-5.5", "é", "\r\n"]) for _ in range(r.randrange(0, 14)))
            files[ROOT + "/x.csv.rules"] = "".join(r.choice(rv) for _ in range(r.randrange(0, 9)))
            evs = [run(["i", "-n", "-f", MAIN, "--csv", ROOT + "/x.csv"], today)]
        yield H("%s%d" % (prefix, i), files, evs, level="robust")


# ------------------------------------------------------------------ more families

def register_bal(r, n, prefix="rgb"):
    for h in register(r, n, prefix):
        h["events"] = [dict(e, args=["b"] + e["args"][1:]) for e in h["events"]]
        yield h


def comments(r, n, prefix="com"):
    """Comment markers in every place of a small journal."""
    base = ["account assets:c", "  expense food due every 5th", "    amount 5", "    for exp", "account exp", "2024/05/01 * Paid the bill [Bob]",
            "  exp  3.5", "  assets:c", "", "2024/05/02 ? x", "  assets:c  10", "  exp  -10", "include more.sfox", "2024/05/04 ~ y",
            "  envelope assets:c food 2"]
    for i in range(n):
        ls = []
        for l in base:
            z = r.random()
            if z < 0.25:
                l = l + r.choice([" // c", ";c", "//c", " ; x // y", " // 5", ";", "//", " ;; ", " // a [b", " //;", "; include x", " / //"[2:]])
            elif z < 0.3 and l.startswith(" "):
                l = l.replace(" ", "\t", 1)
            elif z < 0.36:
                l = l + r.choice([" ", "\t", "   ", "\r"])
            ls.append(l)
            while r.random() < 0.2:
                ls.append(r.choice(["// full line", "; full line", "   // indented", "\t;x", "", "   ", "//", ";", "// account x", "  // 2024/01/01 * x",
                                    ";2024/01/01 * x"]))
        cut = r.random()
        text = "\n".join(ls) + r.choice(["\n", "", "\n\n"])
        if cut < 0.3:      # a comment that starts in the middle of something
            p = r.choice([j for j, c in enumerate(text) if c != "\n"])
            text = text[:p] + r.choice([";", "//"]) + text[p:]
        files = {MAIN: text, ROOT + "/more.sfox": "2024/05/03 * inc\n  assets:c 1 // one\n  exp // rest\n"}
        yield H("%s%d" % (prefix, i), files, reports(r, day(2024, 5, 20), which=r.choice(["ber", "be", "r"])))


def notation_grid(r, n, prefix="ng"):
    """Every number form x currency x arrangement."""
    nums = ["5", "5.5", ".5", "5.", "1,234.5", "0", "12,345", "0.07", "007", "1,000,000"]
    curs = ["$", "USD", "usd", "€", "C$", "円", "x"]
    arr = ["{s}{u}{c}", "{s}{u} {c}", "{s}{c}{u}", "{c}{s}{u}", "{c} {s}{u}", "{s}{c} {u}"]
    texts = [s + u for u in nums for s in ("", "-")]
    texts += [a.format(s=s, u=u, c=c) for u in nums for c in curs for a in arr for s in ("", "-")]
    per = 16
    for i in range(0, len(texts), per):
        head, body = "", ""
        for k, t in enumerate(texts[i:i + per]):
            head += "account a%d\naccount b%d\n" % (k, k)
            body += "2024/05/06 * n\n    a%d  %s\n    b%d\n" % (k, t, k)
        yield H("%s%d" % (prefix, i // per), {MAIN: head + body}, [run(["b", "-n", "-f", MAIN], day(2024, 5, 7))])


def splits(r, n, prefix="spl"):
    """Money put in and taken out around the due dates, one envelope at a time."""
    for i in range(n):
        today = some_day(r)
        sch = schedule(r, today, begun=True)
        ds = due_days(r, today, sch)
        s = "account assets:c\n  %s e %s\n    amount %s\n    for exp\naccount exp\naccount inc\n" % (
            r.choice(["expense", "goal"]), sch[0], num(r.randrange(1, 400) * 25))
        for _ in range(r.choice([1, 2, 3, 5])):
            w = r.choice(ds) + r.choice([0, 0, 0, -1, 1])
            q = r.randrange(1, 200) * 25
            s += r.choice(["%s * in\n  envelope assets:c e %s\n" % (fdate(w), num(q)),
                           "%s * in\n  envelope assets:c e %s\n" % (fdate(w), num(q)),
                           "%s * out\n  envelope assets:c e %s\n" % (fdate(w), num(-q)),
                           "%s * out\n  assets:c %s\n  exp\n" % (fdate(w), num(-q)),
                           "%s * back\n  assets:c %s\n  exp\n" % (fdate(w), num(q))])
        evs = [run(["e", "-n", "-f", MAIN], today + d) for d in sorted({0, 1, r.choice([2, 7, 14, 30, 31])})]
        yield H("%s%d" % (prefix, i), {MAIN: s}, evs)


def due_slices(r, n, prefix="dg"):
    for c in range(n):
        yield from due_grid(c, n, prefix)


def due_every_day(r, n, prefix="ded"):
    """Every single day of eight years, in n slices."""
    all_days = list(range(day(2023, 1, 1), day(2031, 1, 1)))
    for c in range(n):
        yield from due_grid(c, n, prefix, all_days)


def same_day(r, n, prefix="same"):
    """Several runs on one day, with entries of that day written anywhere in the journal."""
    for i in range(n):
        today = some_day(r)
        names = pick(r, ["food", "rent", "car", "boat"], 1, 4)
        head = "account assets:c\n"
        for nm in names:
            head += "  %s %s %s\n    amount %d\n    funding %s\n    for exp:%s\n" % (
                r.choice(["expense", "goal"]), nm, schedule(r, today, kinds=["monthly", "weekly", "once", "annually"], begun=True)[0],
                r.choice([r.randrange(1, 200), 64]), "aggressive", nm)
        head += "account assets:d\n" + "".join("account exp:%s\n" % x for x in names) + "account inc\n"
        es = ["%s * open\n  assets:c %d\n  inc\n" % (fdate(today - r.choice([0, 1, 1, 30])), r.choice([20, 100, 1000]))]
        for _ in range(r.choice([0, 1, 2, 3])):
            nm = r.choice(names)
            w = today - r.choice([0, 0, 0, 1, 2, 30, -1, -20])
            q = r.randrange(1, 40)
            es.append(r.choice(["%s * s\n  assets:c -%d\n  exp:%s\n" % (fdate(w), q, nm), "%s * m\n  envelope assets:c %s %d\n" % (fdate(w), nm, q),
                                "%s * m\n  envelope assets:c %s -%d\n" % (fdate(w), nm, q), "%s * r\n  assets:c %d\n  exp:%s\n" % (fdate(w), q, nm)]))
        r.shuffle(es)
        evs = []
        cmds = r.choice(["bb", "ee", "rr", "be", "eb", "re", "ebr", "bbb", "eee"])
        for c in cmds:
            evs.append(run([c, "-f", MAIN], today))
        if r.random() < 0.4:     # more money on the same day
            evs.append(edit(append={MAIN: "\n%s * more\n  assets:c %d\n  inc\n" % (fdate(today), r.randrange(1, 300))}))
            evs.append(run(["e", "-f", MAIN], today))
            evs.append(run(["e", "-f", MAIN], today))
        if r.random() < 0.3:
            evs.append(run(["e", "-f", MAIN], today + 1))
            evs.append(run(["e", "-f", MAIN], today + 1))
        yield H("%s%d" % (prefix, i), {MAIN: head + "// MARK\n" + "".join(es)}, evs)


def import_costs(r, n, prefix="icost"):
    """Imports with currencies, prices and totals in the postings."""
    for i in range(n):
        today = some_day(r)
        fmt = r.choice(FMTS)
        s = "date_format %s\naccount assets:bank\naccount assets:coin\naccount fees\naccount expenses:unknown\naccount income:unknown\naccount unknown\n" % fmt
        rows = []
        for _ in range(r.choice([1, 2, 4])):
            rows.append("%s,Trade %d,%s,%s" % (fdate(today - r.randrange(90)), r.randrange(9), num(r.randrange(1, 40) * 100 * r.choice([1, -1])),
                                              num(r.choice([r.randrange(1, 400) * 25, r.randrange(1, 400) * 25, r.randrange(1, 100), 50, r.randrange(1, 99999)]))))
        c = r.choice(["BTC", "£", "x", "EUR", "BTC", "£", ""])
        kind = r.choice(["unit", "total", "cur", "two"])
        u = r.choice(["", "", " EUR", "$"] if c else [" EUR", "$", " kr", ""])       # the currency of the price
        price = "%price%" + u if u != "$" else "$%price%"
        rules = "skip 0\nfields date, description, amount, price\naccount1 assets:coin\n"
        a = r.choice(["%%amount%% %s" % c, "%s %%amount%%" % c])
        if r.random() < 0.25:        # what the balance should be is kept with the posting
            price += r.choice([" ! %amount%", " ! 500 " + c, " !! 500", " ! $%price%"])
            if r.random() < 0.5:
                a += r.choice([" ! %amount%", " ! 500 " + c, " ! $%price%"])
        if kind == "unit":
            rules += "amount1 %s @ %s\naccount2 fees\namount2 %d\naccount3 assets:bank\n" % (a, price, r.choice([1, 2]))
        elif kind == "total":
            rules += "amount1 %s = %s\naccount2 fees\namount2 -%d.5\naccount3 assets:bank\n" % (a, price, r.choice([1, 2]))
        elif kind == "cur":
            rules += "amount1 %s\n" % a
        else:
            rules += "amount1 %s\naccount2 assets:bank\namount2 %%price%%\n" % a
        if r.random() < 0.4:
            rules += "payee Exchange\n"
        if r.random() < 0.3:
            rules += "status *\n"
        evs = [run(["i", "-f", MAIN, "--csv", ROOT + "/t.csv"], today)] + reports(r, today, which="br")
        yield H("%s%d" % (prefix, i), {MAIN: s, ROOT + "/t.csv": "\n".join(rows) + "\n", ROOT + "/t.csv.rules": rules}, evs)


def import_fine(r, n, prefix="fine"):
    """Imports of amounts with many decimals, or of many digits."""
    for i in range(n):
        today = some_day(r)
        k = r.choice([3, 4, 6, 8, 8, -1, -3, -4, -6])
        sc = 10 ** abs(k)
        cur = r.choice(["", "BTC", "$"])
        dec = r.choice([".", ".", ","])
        rows = []
        for j in range(r.choice([1, 2, 3])):
            q = r.choice([r.randrange(-3 * sc, 3 * sc), r.randrange(-99, 99), 1, -1, sc - 1, sc + 1, sc // 3, 2 * sc // 3, sc // 10 * r.randrange(1, 9), 10])
            rows.append("%s%sThing %d%s%s" % (fdate(today - j), ",", j, ",", '"%s"' % num(q, k).replace(".", dec)))
        s = "account assets:c\naccount b\naccount expenses:unknown\naccount income:unknown\naccount unknown\n%s * x\n  assets:c %d %s\n  b\n" % (fdate(today - 5), 10 ** max(0, -k), cur)
        rules = ["skip 0", "fields date, description, amount", "account assets:c", "amount " + {"": "%amount%", "BTC": "%amount% BTC", "$": "$%amount%"}[cur]]
        if dec == ",":
            rules.append("decimal_symbol ,")
        if r.random() < 0.5:
            rules.append("account2 b")
        files = {MAIN: s, ROOT + "/s.csv": "\n".join(rows) + "\n", ROOT + "/s.csv.rules": "\n".join(rules) + "\n"}
        yield H("%s%d" % (prefix, i), files, [run(["i", "-f", MAIN, "--csv", ROOT + "/s.csv"], today)] + [
            run([c, "-n", "-f", MAIN], today) for c in "br"], k)


def rule_groups(r, n, prefix="grp"):
    """Conditional rules: overlapping patterns, rules set before, inside, between and after groups."""
    for i in range(n):
        today = day(2025, 3, 4)
        s = "".join("account %s\n" % a for a in ["assets:bank", "a1", "a2", "a3", "a4", "expenses:unknown", "income:unknown", "unknown"])
        words = ["alpha", "beta", "gamma", "Delta", "ALPHA beta", "beta  x", "delta debit", "gamma alpha", "epsilon", "betagamma", "", "a", "9", "CAFÉ beta", "Été alpha",
                 "жук"]
        rows = ["%s,%s,%s,%d" % (fdate(today - k), r.choice(words), r.choice(["debit", "Credit", "x"]), r.choice([5, -5, 12, 0, 95, -3]))
                for k in range(r.choice([1, 3, 6, 10]))]
        rules = ["skip 0", "fields date, description, kind, amount", "account assets:bank"]
        tops = ["description Base", "payee P0", "status ?", "account2 a1", "comment c0", "description %kind%: %description%", "note n0 %kind%", "amount $%amount%"]
        grps = ["description G%d", "payee P%d", "status *", "account2 a2", "account2 a3", "account2 -", "payee -", "description -", "status -",
                "description %%kind%% %d", "account a4", "status ~", "comment -", "note -", "comment C%d %%kind%%", "note N%d", "amount -", "amount %%amount%% EUR",
                "amount2 -", "skip -", "skip 3", "date -", "date_format -", "decimal -", "decimal_symbol ,"]
        other = r.random() < 0.2         # dates of another form, that some groups (or all of them) set aside
        if other:
            tops = tops + ["date_format %d.%m.%Y", "date %kind%"]
            grps = grps + ["date 2024/02/0%d", "date %%date%%", "date_format %%Y/%%m/%%d", "date -", "date_format -"]
        if r.random() < 0.06:
            grps = grps + ["if alpha", "if -", "fields -", "include -", "frob -", "frob x", "fields extra"] * 2
        for x in r.sample(tops, r.choice([0, 1, 2])):
            rules.append(x)
        for g in range(r.choice([1, 2, 2, 3, 4])):
            ps = r.sample(["alpha", "BETA", "gamma", "delta", "eps", "debit", "credit", "a", "5", "2025/03/0", "zz", "ab", "ta", "xa", "lphad", "café", "É", "ЖУ"], r.choice([1, 1, 2, 3]))
            if r.random() < 0.25:        # blanks count
                ps = [r.choice([p + " ", p + " ", p + " " + r.choice(ps), p + "  x", p.title()]) for p in ps]
            w = "if"
            if r.random() < 0.5:
                rules.append(w.rstrip() + r.choice([" "] * 6 + ["  ", "\t"]) + ps[0])
                rules += ps[1:]
            else:
                rules.append(w)
                rules += ps
            body = r.sample(grps, r.choice([1, 1, 2, 3]))
            if "amount $%amount%" in rules and r.random() < 0.3:
                body.append("amount -")
            names = set()
            for b in body:
                if "%d" in b or "%%" in b:
                    b = b % ((g,) if "%d" in b.replace("%%", "") else ())
                rules.append(r.choice(["  ", "\t", " "]) + b)
            if r.random() < 0.15:
                rules.append("")
                rules.append("  status " + r.choice("?*"))
            if r.random() < 0.45:
                rules.append(r.choice(tops))
        evs = [run(["i", "-n", "-f", MAIN, "--csv", ROOT + "/g.csv"], today)]
        files = {MAIN: s, ROOT + "/g.csv": "\n".join(rows) + "\n", ROOT + "/g.csv.rules": "\n".join(rules) + "\n"}
        if r.random() < 0.06:
            files[ROOT + "/g.csv.rules"] = files[ROOT + "/g.csv.rules"].replace("\n", "\r\n")
        if r.random() < 0.3:     # the records in another order
            r.shuffle(rows)
            files[ROOT + "/h.csv"] = "\n".join(rows) + "\n"
            evs.append(run(["i", "-n", "-f", MAIN, "--csv", ROOT + "/h.csv", "--rules", ROOT + "/g.csv.rules"], today))
        yield H("%s%d" % (prefix, i), files, evs)


def bad_at(r, n, prefix="bad"):
    """One bad record at every position of an import."""
    for i in range(n):
        today = day(2025, 3, 4)
        long = r.random() < 0.08
        m = r.choice([40, 90, 140]) if long else r.choice([2, 3, 5])
        s = "account assets:bank\naccount expenses:unknown\naccount income:unknown\naccount b\n2025/01/01 * x\n  assets:bank 5\n  b" + r.choice(["", "\n"])
        fund = r.random() < 0.2
        if fund:
            s = s.replace("account assets:bank\n", "account assets:bank\n  expense e due every 5th\n    amount 2\n    funding aggressive\n", 1)
        good = ["%s,Thing %d,%s" % (fdate(today - k), k, num((k + 1) * 125 * r.choice([1, -1]))) for k in range(m)]
        bad = r.choice(["2025/02/30,x,5", "2025/03/01,x,", "2025/03/01,x,abc", "x,y,5", "2025/03/01,x,5,6", "2025/03/01,x", "2025/03/01,\"a\nb\",5",
                        "2025/03/01,open [,5", "2025/03/01,x,0", "2025/03/01,x,1.2.3", "2025/03/01", "2025/03/01,x,5 6 7", "2025/13/01,x,5"])
        files = {MAIN: s}
        evs = []
        rules = "skip 0\nfields date, description, amount\naccount assets:bank\n"
        for k in [m, r.randrange(m)][:r.choice([1, 2])] if long else range(m + 1):
            rows = good[:k] + [bad] + good[k:]
            files[ROOT + "/p%d.csv" % k] = "\n".join(rows) + "\n"
            evs.append(run(["i"] + (["-n"] if not fund or r.random() < 0.5 else []) + ["-f", MAIN, "--csv", ROOT + "/p%d.csv" % k, "--rules", ROOT + "/p.rules"], today))
        files[ROOT + "/p.rules"] = rules
        evs.append(run(["b", "-n", "-f", MAIN], today))
        yield H("%s%d" % (prefix, i), files, evs)


def include_grid(r, n, prefix="ig"):
    """A chain of includes at growing depth, in every directory arrangement, started anywhere."""
    import os.path
    for i in range(n):
        depth = r.choice([1, 2, 3, 4, 6])
        today = day(2025, 3, 4)
        dirs = [r.choice(["", "/d1", "/d1/d2", "/d3", "/d1/d2/d4"]) for _ in range(depth + 1)]
        paths = [ROOT + d + "/f%d.sfox" % k for k, d in enumerate(dirs)]
        files = {}
        for k, p in enumerate(paths):
            t = "account a%d\naccount b%d\n2025/02/%02d * before %d\n  a%d %d\n  b%d\n" % (k, k, k + 1, k, k, 10 ** min(k, 4), k)
            if k < depth:
                t += "include %s\n" % os.path.relpath(paths[k + 1], os.path.dirname(p))
                t += "2025/02/%02d * after %d\n  a%d 1\n  b%d -1\n" % (k + 11, k, k + 1, k)
            files[p] = t
        for p in (ROOT, ROOT + "/d1", ROOT + "/d1/d2", ROOT + "/d3"):
            files.setdefault(p + "/keep.txt", "x\n")
        evs = []
        for cwd in r.sample([ROOT, ROOT + "/d1", ROOT + "/d1/d2", ROOT + "/d3"], 2):
            evs.append(run([r.choice("br"), "-n", "-f", os.path.relpath(paths[0], cwd)], today, cwd=cwd))
        files[ROOT + "/all.sfox"] = flat(files, paths[0])
        evs.append(run([r.choice("br"), "-n", "-f", ROOT + "/all.sfox"], today))
        yield H("%s%d" % (prefix, i), files, evs)


def flat(files, path):
    import os.path
    out = ""
    for l in files[path].splitlines(True):
        out += flat(files, os.path.normpath(os.path.join(os.path.dirname(path), l.split()[1]))) if l.startswith("include ") else l
    return out


def cli_grid(r, n, prefix="cg"):
    """Every combination of where the journal is named."""
    base = "account assets:c\n  expense food due every 5th\n    amount 10\n    funding aggressive\naccount inc\n2025/05/01 * x\n  assets:c %d\n  inc\n"
    files = {ROOT + "/a.sfox": base % 100, ROOT + "/b.sfox": base % 200, ROOT + "/c.sfox": base % 300}
    i = 0
    for flag in ([], ["-f", "a.sfox"], ["--file", ROOT + "/a.sfox"], ["-f", "none.sfox"], ["-f"]):
        for s in (None, "b.sfox", ROOT + "/b.sfox", "none.sfox"):
            for l in (None, "c.sfox", "none.sfox"):
                for c in ("b", "env", "r"):
                    for nm in ([], ["-n"]):
                        env = {}
                        if s:
                            env["SILVERFOX_FILE"] = s
                        if l:
                            env["LEDGER_FILE"] = l
                        fl = nm + flag if i % 2 else flag + nm
                        if flag == ["-f"]:
                            fl = nm + flag
                        yield H("%s%d" % (prefix, i), files, [run([c] + fl, day(2025, 6, 15), env=env)])
                        i += 1


def extremes(r, n, prefix="ext"):
    """Well-formed journals on extreme days, with extreme due dates and counts."""
    for i in range(n):
        today = r.choice([0, 1, 59, 365, day(1972, 2, 29), day(9999, 12, 31), day(9999, 12, 30), day(9999, 11, 30), day(9999, 1, 31), day(2400, 2, 29),
                          day(1999, 12, 31), day(2038, 1, 19), day(2038, 1, 20), r.randrange(0, 2932890)])
        fmt = r.choice(["%Y/%m/%d", "%d.%m.%Y", "%y/%m/%d", "%j-%Y", "%b %d, %Y", "%F", "%D", "%e/%m/%Y", "%G-W%V-%u", "%x", "%v", "%C", "%Y", "%%", "%A"])
        s = "date_format %s\naccount assets:c\n" % fmt.split(" ")[0] if r.random() < 0.5 else "account assets:c\n"
        f = "%Y/%m/%d"
        for k in range(r.choice([1, 3, 8])):
            st = r.choice(["0001/01/31", "1582/10/15", "9999/12/31", "2024/02/29", "1970/01/01", fdate(min(max(today - 40, 0), 2932896)),
                           "0000/02/29", "262142/12/31", "-0001/01/01"])
            cl = r.choice(["due every other monday starting " + st, "due every other 31st starting " + st, "due every year starting " + st, "by " + st,
                           "due every 31st", "due every 0th", "due every 99th", "due every 4294967296th", "due every sunday starting " + st,
                           "due every 30th starting " + st, "no date", "due every monday", "due every other 29th starting 2024/02/29"])
            s += "  %s e%d %s\n    amount %s\n    funding %s\n" % (
                r.choice(["expense", "goal"]), k, cl, r.choice(["5", "0", "-5", "1e5", "99999999999999999999999", "0.000000001", "5 $"]),
                r.choice(["aggressive", "conservative", "manual"]))
        s += "account b\n"
        for _ in range(r.choice([0, 1, 3])):
            s += "%s * x\n  assets:c %s\n  b\n" % (r.choice([fdate(min(max(today, 0), 2932896)), "2024/02/29", "0001/01/01", "9999/12/31"]), r.choice(
                ["5", "99999999999999999999999", "-99999999999999999999999", "0.00000000000000001", "5 $", "0", "179769313486231570000000000000000000000000000000"]))
        yield H("%s%d" % (prefix, i), {MAIN: s}, [run([r.choice("ber"), "-f", MAIN], today, **({"tz": "UTC"})) for _ in range(2)], level="robust")


def date_texts(r, n, prefix="dtx"):
    """Dates that are, or are not, in the journal's format."""
    for i in range(n):
        fmt = r.choice(FMTS + ["%Y/%d/%m", "%d-%m-%Y"] + MORE_FMTS)
        w = day(2024, r.randrange(1, 13), r.choice([1, 9, 12, 13, 28, r.randrange(1, 29)]))
        ok = fdate(w, fmt)
        z = r.random()
        t = ok
        if z < 0.4:
            t = fdate(w, r.choice(FMTS + MORE_FMTS))
        elif z < 0.6:
            t = r.choice([ok + "x", "0" + ok, ok[:-1], ok + "0", ok.upper(), ok.lower(), ok.replace("2024", "24"), ok.replace("24", "2024"), ok.replace("Sep", "Sept"), ok.replace("uary", ""), ok.replace("0", "", 1), ok.replace("/", "-"), ok.replace("-", "/"),
                          ok.replace(".", "/"), ok.replace("2", "3", 1), ok + "/"])
        elif z < 0.8:
            import re
            t = "".join((x.lstrip("0") or "0") if x.isdigit() and len(x) < 3 else x for x in re.findall(r"\d+|\D+", ok))
        if not t:
            t = ok
        where = r.choice(["entry", "entry", "due", "start"])
        s = "date_format %s\naccount assets:c\n" % fmt
        e = ok
        if where == "due":
            s += "  goal g by %s\n    amount 5\n" % t
        elif where == "start":
            s += "  expense g due every other %s starting %s\n    amount 5\n" % (WDAYS[date(w).weekday()], t)
        else:
            e = t
        s += "account b\n%s * x\n  assets:c 5\n  b\n" % e
        yield H("%s%d" % (prefix, i), {MAIN: s}, [run([r.choice("er"), "-n", "-f", MAIN], day(2024, 6, 15) + r.randrange(-200, 200)),
                                                  run(["r", "-n", "-f", MAIN], day(2024, 6, 15))])


# ------------------------------------------------------------------ C23 bars

def bars(r, n, prefix="bar"):
    """Envelopes that hold shares of their targets close to where a bar gains a segment."""
    for i in range(n):
        today = some_day(r)
        k = r.choice([0, 1, 2, 2, 2, 4, 8])
        top = 10 ** (8 if k == 8 else 7)
        cur = r.choice(["", "", "$", "EUR"])
        head, es = "account assets:c\n", ""
        for e in range(r.choice([1, 2, 4])):
            target = r.choice([1, 2, 3, 7, 39, 40, 41, 80, 100, 1000, 12345, 99999, r.randrange(1, top), r.randrange(1, 5000)])
            target = min(target, top)
            seg = r.randrange(0, 41)
            share = target * seg // 40
            near = lambda: max(-top, min(2 * top, r.choice(
                [share, share + 1, share - 1, share, target, target - 1, target + 1, 2 * target, 0, 1, -1, -share, r.randrange(0, target + 1)])))
            kind = r.choice(["expense", "goal"])
            head += "  %s e%d due every %s\n    amount %s\n" % (kind, e, r.choice(["5th", "31st", "monday"]), notation(r, target, cur, k))
            move = lambda q, w: "%s * x\n  envelope assets:c e%d  %s\n" % (fdate(w), e, notation(r, q, cur, k)) if q else ""
            a, b = near(), near()
            parts = r.random()
            if parts < 0.45:
                es += move(a, today - r.choice([0, 0, 1]))
            elif parts < 0.8:
                es += move(a, today - 80) + move(b if b > 0 else -b, today)
            else:      # in many small steps
                q = max(a, 0)
                for _ in range(r.choice([2, 3, 10])):
                    x = r.randrange(0, q + 1)
                    es += move(x, today)
                    q -= x
                es += move(q, today)
        yield H("%s%d" % (prefix, i), {MAIN: head + es}, reports(r, today, which="e"), k=k, tol=0)


# ------------------------------------------------------------------ C24 order and repetition

ORDERED = ["a", "ab", "a:b", "a:c", "a:b:c", "A", "AB", "Z", "z", "a-b", "a_b", "a.b", "a1", "a10", "a2", "assets", "assets:cash",
           "assets:cash2", "assets:Cash", "assets:c", "assets:checking", "assets-old", "expenses", "expenses:food", "expensesfood", "Expenses",
           "_x", "~x", "0", "9z", "income:b", "income:a", "é", "ö:x", "\u0436"]


def orders(r, n, prefix="ord"):
    """Journals of many accounts, declared and used in any order; every report twice in a row."""
    for i in range(n):
        today = some_day(r)
        names = pick(r, ORDERED, 3, 14)
        head, es, envs = "", "", []
        for a in names:
            head += "account %s\n" % a
            if r.random() < 0.5:
                for nm in pick(r, ENVNAMES + ["z", "Z", "a"], 1, 4):
                    head += "  %s %s due every %s\n    amount %d\n%s" % (
                        r.choice(["expense", "goal"]), nm, r.choice(["5th", "friday"]), r.randrange(1, 90),
                        r.choice(["", "    funding aggressive\n", "    funding conservative\n"]))
                    envs.append((a, nm))
        use = names * 2
        r.shuffle(use)
        for a, b in zip(use[::2], use[1::2]):
            c = r.choice(["", "", " EUR", " USD"])
            es += "%s * x\n  %s %d%s\n  %s\n" % (fdate(today - r.randrange(0, 60)), a, r.randrange(-900, 900), c, b)
        for a, nm in pick(r, envs, 0, 3):
            es += "%s * put\n  envelope %s %s %d\n" % (fdate(today - r.randrange(0, 60)), a, nm, r.randrange(1, 50))
        evs = []
        for c in r.sample("ber", r.choice([1, 2, 3])):
            args = [c, "-f", MAIN] + r.choice([[], ["-n"], ["-n"]])
            evs += [run(args, today) for _ in range(r.choice([2, 3]))]
        yield H("%s%d" % (prefix, i), {MAIN: head + es}, evs, tol=1)


def shuffles(r, n, prefix="shuf"):
    """A journal, and the same journal with its entries in another order."""
    base = [envelopes(r, n, prefix, cmds="e"), funding(r, n, prefix, steps=1), same_day(r, n, prefix), balances(r, n, prefix)]
    for i in range(n):
        for _ in range(9):
            h = next(base[r.choice([0, 0, 1, 2, 2, 3])], None)
            if h and list(h["files"]) == [MAIN]:
                break
        else:
            continue
        head, es = parted(h["files"][MAIN])
        if len(es) < 2 or len(set(es)) < 2:
            continue
        today = today_of(next(e for e in h["events"] if e["op"] == "run"))
        evs = []
        c = r.choice("eeb")
        args = [c, "-f", MAIN] + r.choice([[], ["-n"]])
        r.shuffle(es)
        first = head + "".join(es)
        evs.append(run(args, today))
        for _ in range(r.choice([1, 2, 3])):
            o = list(es)
            z = r.random()
            if z < 0.25:
                o.reverse()
            elif z < 0.5:          # one entry elsewhere
                x = o.pop(r.randrange(len(o)))
                o.insert(r.choice([0, len(o), r.randrange(len(o) + 1)]), x)
            elif z < 0.7:
                o.sort(key=lambda e: e[:10])
            else:
                r.shuffle(o)
            evs += [edit({MAIN: head + "".join(o)}), run(args, today)]
        yield H("%s%d" % (prefix, i), {MAIN: first}, evs, h["K"], max(h["tol"], 1 if "conservative" in first else 0))


def parted(text):
    """The declarations of a journal, and its entries."""
    head, es, cur = "", [], None
    for l in text.split("\n"):
        if l[:1] and not l[:1].isspace():
            cur = not re.match(r"account|date_format|currency|include|//|;", l)
            if cur:
                es.append("")
        if cur:
            es[-1] += l + "\n"
        else:
            head += l + "\n"
    return head, es


# ------------------------------------------------------------------ runs at the same time

def races(r, n, prefix="race"):
    """Two or three runs over one journal, and entries the user adds to it meanwhile, in any order."""
    bases = funding(r, 10 ** 9, "x", k=2, exact=True)
    for i in range(n):
        today = some_day(r)
        if r.random() < 0.5:
            h = next(bases)
            evs = [e for e in h["events"] if e["op"] == "run"]
            if not evs or any(e["op"] == "edit" for e in h["events"][:1]) or "-f" not in evs[0]["args"]:
                continue
            files, today, k, tol = dict(h["files"]), today_of(evs[0]), h.get("K", 2), h.get("tol", 0)
            acct = re.findall(r"^account (\S+)", files[MAIN], re.M)
            if len(acct) < 2 or "date_format" in files[MAIN] or "currency" in files[MAIN]:
                continue
            a, b = r.sample(acct, 2)
        else:
            h = next(fault_bases(r, 1))
            files, today, k, tol = h["files"], today_of(h["events"][0]), 2, 0
            a, b = "assets:c", "b"
        files[ROOT + "/t.csv"] = "".join("%s,Row %d,%d\n" % (fdate(today - q), q, q + 2) for q in range(r.choice([1, 2, 8])))
        files[ROOT + "/t.csv.rules"] = "skip 0\nfields date, description, amount\naccount %s\naccount2 %s\n" % (a, b)
        runs, who = [], []
        for p in range(1, r.choice([2, 2, 3]) + 1):
            c = r.choice(["move", "move", "import", "import", "import-n", "look"])
            args = {"move": [r.choice("ber")], "look": [r.choice("ber"), "-n"], "import": ["i"], "import-n": ["i", "-n"]}[c]
            runs.append(run(args + ["-f", MAIN] + (["--csv", ROOT + "/t.csv"] if c.startswith("i") else []), today))
            who += [p] * 5
        user = []
        for _ in range(r.choice([0, 1, 1, 2])):
            who.append(0)
            user.append("\n%s * mine %d\n  %s %d\n  %s\n" % (fdate(today - r.randrange(5)), len(user), a, r.choice([-3, 1, 40]), b))
        r.shuffle(who)
        yield H("%s%d" % (prefix, i), files, [race(runs, who, user), run([r.choice("be"), "-n", "-f", MAIN], today)], k, tol)
