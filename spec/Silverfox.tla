------------------------------ MODULE Silverfox ------------------------------
(* One run of silverfox over the files, as a relation between what was there *)
(* before and what is observed after. Each conjunct has a name; `Fails` is   *)
(* the set of names of the conjuncts an observed run does not satisfy.       *)
(*                                                                           *)
(* An observed run ev: [args, env, cwd, today, tty, out, post, wrote, fault] *)
(*   wrote: the paths the process opened for writing, removed or renamed      *)
(*   fault: "none", or the fault that was injected into it                    *)
(*   post: the files after the run (function from paths to texts)            *)
(*   out.cls: "ok" | "error" | "mixed" (error and report) | "crash" | "killed"*)
(*   out.kind: "bal" | "env" | "reg" | "help" | "none": the report on stdout  *)
EXTENDS Cli

Near(a, b, tol) == Abs(a - b) <= tol
FmtOf(j) == j.fmt

\* What the specification says about a run, given the files before it. acts: the result:
\* [cls, load, main, fill, imp, rep]
Outcome(files, ev) ==
    LET c    == ParseArgs(ev.args, ev.env)
        main == IF c.file = <<>> THEN "" ELSE AbsPath(ev.cwd, c.file[1])
        j    == Load(files, main, ev.today)
        fill == IF c.nomove \/ ~j.ok THEN <<>> ELSE Fill(j, ev.today)
        csv  == AbsPath(ev.cwd, c.csv[1])
        rul  == IF c.rules # <<>> THEN AbsPath(ev.cwd, c.rules[1]) ELSE csv \o ".rules"
        base == [cls |-> "error", cmd |-> c.cmd, nomove |-> c.nomove, main |-> main,
                 load |-> EmptyJournal, fill |-> <<>>, rep |-> "none",
                 \* may the run have moved money before it failed?
                 late |-> FALSE]
        good == [base EXCEPT !.load = j, !.fill = fill]
    IN  IF c.ok /\ c.cmd = "help" THEN [base EXCEPT !.cls = "ok", !.rep = "help"]
        ELSE IF ~c.ok THEN base
        ELSE IF ~j.ok THEN [base EXCEPT !.load = j]
        ELSE CASE c.cmd = "balance"   -> [good EXCEPT !.cls = "ok", !.rep = "bal"]
               [] c.cmd = "envelopes" -> [good EXCEPT !.cls = "ok", !.rep = "env"]
               [] c.cmd = "register"  -> IF ev.tty THEN [good EXCEPT !.cls = "ok", !.rep = "reg"]
                                         ELSE [good EXCEPT !.late = TRUE]
               [] c.cmd = "import"    ->
                    IF c.csv = <<>> THEN [good EXCEPT !.late = TRUE]
                    ELSE LET r == ImportAll(j, files, ev.cwd, csv, rul, ev.today)
                         IN  IF r.ok THEN [good EXCEPT !.cls = "ok"] @@ [imp |-> r.v.entries, notes |-> r.v.comments]
                             ELSE [good EXCEPT !.late = TRUE]
               [] OTHER -> [good EXCEPT !.late = TRUE]

----------------------------------------------------------------------------
(* Comparison of reports                                                     *)
\* the amounts (texts) of a report as a pool, zero amounts left out; bad if one can't be read or
\* a currency occurs twice
ReadAmts(texts) ==
    LET ps == TLCEval([i \in 1..Len(texts) |-> ParseAmount(texts[i], ".")])
    IN  [ok |-> /\ \A i \in 1..Len(ps) : ps[i].ok
                /\ \A i, k \in 1..Len(ps) : i # k => ps[i].a.s # ps[k].a.s,
         pool |-> TLCEval([s \in {ps[i].a.s : i \in 1..Len(ps)} |->
                     ps[CHOOSE i \in 1..Len(ps) : ps[i].a.s = s].a.m])]
SamePool(p, q, tol) == \A s \in DOMAIN p \cup DOMAIN q : Near(PoolGet(p, s), PoolGet(q, s), tol)

BalanceMatches(j, out, tol) ==
    LET b == Balance(j)
        rows == out.bal
    IN  /\ {rows[i].a : i \in 1..Len(rows)} = DOMAIN b
        /\ Len(rows) = Cardinality(DOMAIN b)
        /\ \A i \in 1..Len(rows) : LET r == ReadAmts(rows[i].v)
                                   IN  r.ok /\ SamePool(r.pool, b[rows[i].a], tol)

\* the accounts with envelopes, and their envelopes, in the order of the report
ShownAccounts(j) == {n \in DOMAIN j.accts : EnvsOf(j.accts[n]) # <<>>}
RowFor(out, n) == out.envs[CHOOSE i \in 1..Len(out.envs) : out.envs[i].a = n]
EnvNames(es) == TLCEval([i \in 1..Len(es) |-> <<es[i].type, es[i].name>>])
ObsNames(row) == TLCEval([i \in 1..Len(row.envs) |-> <<row.envs[i].t, row.envs[i].n>>])
EnvSetMatches(j, out) ==
    /\ {out.envs[i].a : i \in 1..Len(out.envs)} = ShownAccounts(j)
    /\ Len(out.envs) = Cardinality(ShownAccounts(j))
    /\ \A n \in ShownAccounts(j) :
          LET es == EnvsOf(j.accts[n]) IN
          /\ Len(RowFor(out, n).envs) = Len(es)
          /\ {EnvNames(es)[i] : i \in 1..Len(es)} = {ObsNames(RowFor(out, n))[i] : i \in 1..Len(es)}
\* every envelope e with its row o satisfies P(e, o)
ForEnvs(j, out, P(_, _)) ==
    \A n \in ShownAccounts(j) :
        LET es == EnvsOf(j.accts[n])
            os == RowFor(out, n).envs
        IN  \A i \in 1..Len(es) : \A k \in 1..Len(os) :
              (os[k].t = es[i].type /\ os[k].n = es[i].name) => P(es[i], os[k])
\* the amount text t reads as the number m of e's currency
Reads(t, e, m, tol) == LET r == ParseAmount(t, ".") IN r.ok /\ r.a.s = e.target.s /\ Near(r.a.m, m, tol)
TotalMatches(e, o, tol) ==
    LET a == ParseAmount(o.now, ".") b == ParseAmount(o.next, ".")
    IN  /\ a.ok /\ b.ok /\ a.a.s = e.target.s /\ b.a.s = e.target.s
        /\ Near(a.a.m + b.a.m, e.now + e.next, tol)
SplitMatches(e, o, tol) ==
    /\ Reads(o.now, e, Max2(e.now, 0), tol)
    /\ Reads(o.next, e, e.next + Min2(e.now, 0), tol)
TargetMatches(e, o, tol) == Reads(o.t1, e, e.target.m, tol) /\ Reads(o.t2, e, e.target.m, tol)
DueMatches(e, o, today) ==
    LET d == EnvNextDue(e, today)
    IN  IF d = NODATE THEN o.due = "" ELSE o.due = FormatDate("%Y-%m-%d", d)
AvailMatches(j, out, tol) ==
    \A n \in ShownAccounts(j) :
        LET r == ReadAmts(RowFor(out, n).avail)
        IN  r.ok /\ SamePool(r.pool, AvailPool(j.accts[n]), tol)

\* The bar of f of w segments beside the amount m of an envelope: the share of the target that is
\* held, give or take a segment; full when the target is exceeded and never before it is reached;
\* empty when there is nothing. (Envelopes without a positive target have no share to show.)
RECURSIVE Share(_, _, _)
Share(m, t, w) == IF t > 40000000 THEN Share(m \div 10, t \div 10, w) ELSE (m * w) \div t
BarOk(f, w, m, t, tol) ==
    \/ t <= 0
    \/ /\ w > 0 /\ f \in 0..w
       /\ m <= -tol => f = 0
       /\ m < t - tol => f < w
       /\ m > t + tol => f = w
       /\ (m > 0 /\ m < t) => Abs(f - Share(m, t, w)) <= 1
       /\ (m >= t - tol /\ m <= t + tol) => f >= w - 1
BarsMatch(e, o, tol) ==
    /\ BarOk(o.b1[1], o.b1[2], Max2(e.now, 0), e.target.m, tol)
    /\ BarOk(o.b2[1], o.b2[2], e.next + Min2(e.now, 0), e.target.m, tol)

\* the rows are in the order of the account names; the envelopes in the order of their declaration,
\* expenses first
Ascending(names) == \A i \in 1..Len(names) - 1 : names[i] # names[i + 1] /\ NotAfter(names[i], names[i + 1])
BalanceOrder(out) == Ascending([i \in 1..Len(out.bal) |-> out.bal[i].a])
EnvelopeOrder(j, out) ==
    /\ Ascending([i \in 1..Len(out.envs) |-> out.envs[i].a])
    /\ \A n \in ShownAccounts(j) : ObsNames(RowFor(out, n)) = EnvNames(EnvsOf(j.accts[n]))

RegRow(row, x, fmt, tol) == \* an observed block against an expected one
    LET ms == ReadAmts([i \in 1..Len(row.amts) |-> row.amts[i].m])
        rs == ReadAmts([i \in 1..Len(row.amts) |-> row.amts[i].run])
        nz == {s \in DOMAIN ms.pool : s \in DOMAIN x.amts \/ ms.pool[s] # 0}
    IN  /\ row.date = FormatDate(fmt, x.day) /\ row.status = x.status
        /\ row.desc = x.desc /\ row.from = x.from /\ row.to = x.to
        /\ ms.ok /\ rs.ok /\ DOMAIN x.amts \subseteq DOMAIN rs.pool
        /\ nz = DOMAIN x.amts
        /\ \A s \in nz : Near(ms.pool[s], x.amts[s].m, tol) /\ Near(rs.pool[s], x.amts[s].run, tol)
\* blocks that show no change don't count
ShowsChange(row) == LET ms == ReadAmts([i \in 1..Len(row.amts) |-> row.amts[i].m])
                    IN  ~ms.ok \/ PoolNonZero(ms.pool) # {}
Blocks(out) == SelectSeq(out.reg, ShowsChange)
\* an entry whose amounts are all exact in binary: no sum of them is off
ExactEntry(e) ==
    LET q == Max2(1, SC \div 4)
    IN  \A i \in 1..Len(e.posts) : e.posts[i].amt.m % q = 0 /\ e.posts[i].cost.a.m % q = 0
\* An entry that doesn't change the assets has no block (unless its sums may be off by a hair's breadth,
\* which shows as a change of nothing).
NoEmptyBlocks(j, out) ==
    Len(out.reg) - Len(Blocks(out)) <=
        Cardinality({i \in 1..Len(j.entries) : ~ExactEntry(j.entries[i]) /\ PoolNonZero(AssetChange(j.entries[i])) = {}})
RegDates(rows, xs, fmt) ==
    /\ Len(rows) = Len(xs)
    /\ \A i \in 1..Len(xs) : rows[i].date = FormatDate(fmt, xs[i].day)
RegisterMatches(j, out, tol) ==
    LET xs == RegisterOf(j)
        rows == Blocks(out)
    IN  /\ Len(rows) = Len(xs)
        /\ \A i \in 1..Len(xs) : RegRow(rows[i], xs[i], j.fmt, tol)

----------------------------------------------------------------------------
(* Appended entries                                                          *)
IsFillEntry(e) == e.posts # <<>> /\ \A i \in 1..Len(e.posts) : IsEnv(e.posts[i])
Bag(q) == LET S == {q[i] : i \in 1..Len(q)}
          IN  TLCEval([x \in S |-> Cardinality({i \in 1..Len(q) : q[i] = x})])
SameEntry(e, f) == \* the order of the postings aside
    /\ e.day = f.day /\ e.status = f.status /\ e.desc = f.desc /\ e.payee = f.payee
    /\ Bag(e.posts) = Bag(f.posts)

\* the comments on the lines that start an entry (of a text that has nothing else than entries)
IsHeading(l) == ~IsBlank(StripComment(l)) /\ Ch(l, 1) \notin WS
HeadingComments(text) ==
    LET hs == SelectSeq(Lines(text), IsHeading)
    IN  TLCEval([i \in 1..Len(hs) |-> Normal(Drop(hs[i], Len(StripComment(hs[i]))))])
\* c: a comment as it is observed, marker included
CommentMatches(c, x) == HasSub(c, x.note) /\ (x.note = "" /\ ~x.own => c = "")

\* the observed moves as a function from <<account, envelope>> to the sum moved; and their currency
MovesOf(e) == SelectSeq(e.posts, IsEnv)
MovedInto(e, a, n) == FoldLeft(LAMBDA acc, p : IF p.acct = a /\ p.env = n THEN acc + p.amt.m ELSE acc,
                               0, MovesOf(e))
\* the funded envelope a posting addresses exists and has the posting's currency
KnownMove(j, p) ==
    /\ p.acct \in DOMAIN j.accts
    /\ LET es == EnvsOf(j.accts[p.acct])
       IN  \E i \in 1..Len(es) : es[i].name = p.env /\ es[i].target.s = p.amt.s
FillMatches(j, fill, e, tol) ==
    /\ \A i \in 1..Len(e.posts) : KnownMove(j, e.posts[i])
    /\ \A n \in DOMAIN fill :
         LET es == EnvsOf(j.accts[n]) IN
         \A i \in 1..Len(es) :
            Near(MovedInto(e, n, es[i].name), MovedInto([posts |-> fill[n]], n, es[i].name), tol)

\* Safety of the observed moves e over the journal j before them (whatever the exact amounts are)
OverdueOrManual(x, today) == x.funding = "manual" \/ EnvNextDue(x, today) = NODATE
Overspent(x) == x.now + x.next < 0
FillSafe(j, e, today, tol) ==
    /\ \A i \in 1..Len(e.posts) : e.posts[i].amt.m >= 0 /\ KnownMove(j, e.posts[i])
    /\ \A n \in DOMAIN j.accts :
         LET es == EnvsOf(j.accts[n])
             mv(x) == MovedInto(e, n, x.name)
             sum(s) == FoldLeft(LAMBDA acc, x : IF x.target.s = s /\ ~Overspent(x)
                                                THEN acc + mv(x) ELSE acc, 0, es)
         IN  /\ \A i \in 1..Len(es) :
                  LET x == es[i] IN
                  /\ OverdueOrManual(x, today) => mv(x) = 0
                  /\ ~Overspent(x) => mv(x) <= Max2(0, x.target.m - x.next) + tol
                  /\ Overspent(x) =>
                       mv(x) <= Max2(-(x.now + x.next),
                                     Min2(x.target.m - x.next, Max2(0, Available(j.accts[n], x.target.s)))) + tol
             /\ \A s \in CurrenciesOf(j.accts[n]) : sum(s) <= Max2(0, Available(j.accts[n], s)) + tol
\* no envelope that was already touched today is funded
FillOnce(j, e) ==
    \A i \in 1..Len(e.posts) :
        LET p == e.posts[i]
            es == EnvsOf(j.accts[p.acct])
        IN  p.acct \in DOMAIN j.accts =>
              \A k \in 1..Len(es) : es[k].name = p.env => ~es[k].touched

----------------------------------------------------------------------------
Unchanged(files, post, except) ==
    /\ DOMAIN files \ except = DOMAIN post \ except
    /\ \A p \in DOMAIN files \ except : post[p] = files[p]

\* What any run must satisfy, whatever the files contain: it ends by itself, with a report or an
\* error.
RobustFails(ev) == IF ev.out.cls = "crash" THEN {"crash"} ELSE {}

\* the names of the conjuncts that an observed run ev does not satisfy
Fails(files, ev, tol) ==
    LET x     == Outcome(files, ev)
        out   == ev.out
        post  == ev.post
        main  == x.main
        same  == post = files
        there == main \in DOMAIN files /\ main \in DOMAIN post
        kept  == IF there THEN StartsWith(post[main], files[main]) ELSE main \notin DOMAIN post
        \* the journal after the run, as the specification reads it
        j1    == IF same THEN x.load ELSE Load(post, main, ev.today)
        n0    == Len(x.load.entries)
        intact == j1.ok /\ Len(j1.entries) >= n0 /\ SubSeq(j1.entries, 1, n0) = x.load.entries
        delta == IF same \/ ~intact THEN <<>> ELSE SubSeq(j1.entries, n0 + 1, Len(j1.entries))
        moved == delta # <<>> /\ IsFillEntry(delta[1])
        moves == IF moved THEN delta[1] ELSE Entry(ev.today, "~", "", NoPayee, <<>>)
        rest  == IF moved THEN Tail(delta) ELSE delta
        isImp == "imp" \in DOMAIN x
        toImp == IF isImp THEN SubSeq(x.imp, n0 + 1, Len(x.imp)) ELSE <<>>
        ran   == out.cls = "ok" /\ x.cls = "ok"
        \* a report without rows prints nothing
        kind  == out.kind \in {x.rep, "empty"} /\ (x.rep = "none" => out.kind \in {"none", "empty"})
        bal   == ran /\ kind
        env   == ran /\ kind /\ j1.ok /\ EnvSetMatches(j1, out)
        reg   == ran /\ kind
        wrote == {ev.wrote[i] : i \in 1..Len(ev.wrote)} \subseteq {main}
        C(name, cond) == IF cond THEN {} ELSE {name}
    IN
    IF ev.fault \notin {"none", "short"} \/ out.cls = "killed" THEN
        \* killed at some point, or some write failed: whatever was in the journal is still there
        C("files.other", Unchanged(files, post, {main})) \cup C("files.kept", kept)
        \cup C("files.wrote", wrote)
        \* a call that fails is told, and a failed read adds nothing
        \cup C("fault.told", ev.fault \in {"eio", "enospc", "shorte", "reio"} => out.cls = "error")
        \cup C("fault.clean", ev.fault = "reio" =>
                (same \/ (x.cmd = "import" /\ intact /\ rest = <<>>)))
    ELSE IF out.cls = "crash" THEN {"crash"} \cup C("report", x.cls = "error")
        \cup C("accept", x.cls = "error") \cup C("reject", x.cls = "ok")
        \cup C("bal", x.rep # "bal") \cup C("reg", x.rep # "reg") \cup C("reg.dates", x.rep # "reg")
        \cup (IF x.rep = "env" THEN {"env.set", "env.total", "env.split", "env.target", "env.due", "env.avail", "env.bar", "env.order"}
               ELSE {})
        \cup C("bal.order", x.rep # "bal")
        \cup C("imp", ~isImp) \cup C("imp.reject", ~(x.cmd = "import" /\ x.cls = "error"))
        \cup C("imp.nothing", (x.cmd = "import" /\ x.cls = "error") => rest = <<>>)
        \cup C("files.other", Unchanged(files, post, {main})) \cup C("files.kept", kept)
    ELSE
      \* the verdict on the input
      C("accept", x.cls = "ok" => out.cls = "ok")
      \cup C("reject", x.cls = "error" => out.cls = "error")
      \cup C("silent", out.cls # "mixed")
      \cup C("report", x.cls = "ok" => out.cls = "ok" /\ kind)
      \* what the reports show
      \cup C("bal", (x.rep = "bal") => (bal /\ j1.ok /\ BalanceMatches(j1, out, tol)))
      \cup C("env.set", (x.rep = "env") => env)
      \cup C("env.total", (x.rep = "env") =>
              (env /\ ForEnvs(j1, out, LAMBDA e, o : TotalMatches(e, o, tol))))
      \cup C("env.split", (x.rep = "env") =>
              (env /\ ForEnvs(j1, out, LAMBDA e, o : SplitMatches(e, o, tol))))
      \cup C("env.target", (x.rep = "env") =>
              (env /\ ForEnvs(j1, out, LAMBDA e, o : TargetMatches(e, o, tol))))
      \cup C("env.due", (x.rep = "env") =>
              (env /\ ForEnvs(j1, out, LAMBDA e, o : DueMatches(e, o, ev.today))))
      \cup C("env.avail", (x.rep = "env") => (env /\ AvailMatches(j1, out, tol)))
      \cup C("env.bar", (x.rep = "env") =>
              (env /\ ForEnvs(j1, out, LAMBDA e, o : BarsMatch(e, o, tol))))
      \cup C("env.order", (x.rep = "env") => (env /\ EnvelopeOrder(j1, out)))
      \cup C("bal.order", (x.rep = "bal") => (bal /\ BalanceOrder(out)))
      \cup C("reg", (x.rep = "reg") => (reg /\ j1.ok /\ RegisterMatches(j1, out, tol)))
      \cup C("reg.zero", (x.rep = "reg" /\ reg /\ j1.ok) => NoEmptyBlocks(j1, out))
      \cup C("reg.dates", (x.rep = "reg") => (reg /\ j1.ok /\ RegDates(Blocks(out), RegisterOf(j1), j1.fmt)))
      \* the files
      \cup C("files.other", Unchanged(files, post, {main}))
      \cup C("files.kept", kept)
      \cup C("files.wrote", wrote)
      \cup C("files.nowrite", (x.cls = "error" /\ ~x.late) => same)
      \cup C("files.nomove", (x.nomove /\ x.cmd \in {"balance", "envelopes", "register"}) => same)
      \cup C("readback", (x.load.ok /\ ~same) => intact)
      \* automatic funding
      \cup C("fill", (x.cls = "ok" /\ x.load.ok) => FillMatches(x.load, x.fill, moves, tol)
                                     /\ (moved => (tol > 0 \/ ~NothingToFill(x.fill)) /\ ~x.nomove))
      \cup C("fill.only", x.rep \in {"bal", "env", "reg"} => rest = <<>>)
      \cup C("fill.safe", x.load.ok => FillSafe(x.load, moves, ev.today, tol))
      \cup C("fill.once", x.load.ok => FillOnce(x.load, moves))
      \cup C("fill.date", moved => moves.day = ev.today)
      \* import
      \cup C("imp", isImp => out.cls = "ok" /\ Len(rest) = Len(toImp)
                             /\ \A i \in 1..Len(toImp) : SameEntry(rest[i], toImp[i]))
      \cup C("imp.comment", (isImp /\ there /\ kept) =>
              LET hs == HeadingComments(Drop(post[main], Len(files[main])))
                  d  == Len(hs) - Len(toImp)
              IN  d >= 0 /\ \A i \in 1..Len(toImp) : CommentMatches(hs[d + i], x.notes[i]))
      \cup C("imp.nothing", (x.cmd = "import" /\ x.cls = "error") => rest = <<>>)
      \cup C("imp.reject", (x.cmd = "import" /\ x.cls = "error") => out.cls = "error")

\* A report right after another run over the same journal on the same day, neither of them told not
\* to move money, and nothing edited in between: nothing is appended, and the same command prints
\* the same.
Again(files, prev, ev, tol) ==
    LET a == ParseArgs(prev.args, prev.env)
        b == ParseArgs(ev.args, ev.env)
        R == {"balance", "envelopes", "register"}
    IN  IF /\ prev.op = "run" /\ prev.today = ev.today /\ prev.out.cls = "ok" /\ prev.fault = "none"
           /\ ev.fault = "none" /\ a.ok /\ b.ok /\ a.cmd \in R /\ b.cmd \in R /\ ~a.nomove
           /\ AbsPath(prev.cwd, a.file[1]) = AbsPath(ev.cwd, b.file[1])
        THEN (IF ev.post = files THEN {} ELSE {"fill.again"})
             \cup (IF (a.cmd = b.cmd /\ tol = 0) => prev.out = ev.out THEN {} ELSE {"report.again"})
        ELSE {}

\* The same command line on the same day over the same files, twice in a row: the same is printed.
Repeats(files, prev, ev) ==
    IF /\ prev.op = "run" /\ prev.args = ev.args /\ prev.env = ev.env /\ prev.cwd = ev.cwd
       /\ prev.today = ev.today /\ prev.tty = ev.tty /\ prev.fault = "none" /\ ev.fault = "none"
       /\ DOMAIN prev.set = {} /\ prev.del = <<>> /\ ev.post = files
       /\ prev.out # ev.out
    THEN {"report.same"} ELSE {}

\* The same command on the same day over the same journal with its entries in another order (past:
\* the files before the run `prev`): the same balances and the same envelopes.
IsEntryChunk(c) == Tokens(c.lines[1])[1] \notin {"account", "currency", "date_format", "include"}
Rearranged(f, g, main) ==
    /\ main \in DOMAIN f /\ main \in DOMAIN g
    /\ \A p \in (DOMAIN f \cup DOMAIN g) \ {main} : p \in DOMAIN f /\ p \in DOMAIN g /\ f[p] = g[p]
    /\ LET a == Chunks(f[main]) b == Chunks(g[main])
           other(c) == ~IsEntryChunk(c)
           entry(c) == IsEntryChunk(c)
           Below(cs) == \* nothing but entries after the first entry
              \A i \in 1..Len(cs) - 1 : entry(cs[i]) => entry(cs[i + 1])
       IN  /\ SelectSeq(a, other) = SelectSeq(b, other)
           /\ Bag(SelectSeq(a, entry)) = Bag(SelectSeq(b, entry))
           /\ Below(a) /\ Below(b)
SameRows(p, q, tol) ==
    LET AmtsEq(x, y) == LET a == ReadAmts(x) b == ReadAmts(y) IN a.ok /\ b.ok /\ SamePool(a.pool, b.pool, tol)
        EnvEq(x, y) == /\ x.t = y.t /\ x.n = y.n /\ x.due = y.due
                     /\ AmtsEq(<<x.now>>, <<y.now>>) /\ AmtsEq(<<x.next>>, <<y.next>>)
                     /\ AmtsEq(<<x.t1>>, <<y.t1>>) /\ AmtsEq(<<x.t2>>, <<y.t2>>)
    IN  /\ p.cls = q.cls /\ p.kind = q.kind
        /\ Len(p.bal) = Len(q.bal) /\ Len(p.envs) = Len(q.envs)
        /\ \A i \in 1..Len(p.bal) : p.bal[i].a = q.bal[i].a /\ AmtsEq(p.bal[i].v, q.bal[i].v)
        /\ \A i \in 1..Len(p.envs) :
             /\ p.envs[i].a = q.envs[i].a /\ AmtsEq(p.envs[i].avail, q.envs[i].avail)
             /\ Len(p.envs[i].envs) = Len(q.envs[i].envs)
             /\ \A k \in 1..Len(p.envs[i].envs) : EnvEq(p.envs[i].envs[k], q.envs[i].envs[k])
Tail0(t, s) == SubSeq(t, Min2(Len(s), Len(t)) + 1, Len(t))
AnyOrder(past, files, prev, ev, tol) ==
    LET c == ParseArgs(ev.args, ev.env)
        main == AbsPath(ev.cwd, c.file[1])
        \* the lines a run appended to the journal
        Wrote(fs, e) == Bag(Lines(IF main \in DOMAIN e.set THEN Tail0(e.set[main], fs[main]) ELSE ""))
    IN
    IF /\ prev.op = "run" /\ prev.args = ev.args /\ prev.env = ev.env /\ prev.cwd = ev.cwd
       /\ prev.today = ev.today /\ prev.fault = "none" /\ ev.fault = "none"
       /\ c.ok /\ c.cmd \in {"balance", "envelopes"}
       /\ Rearranged(past, files, main)
    THEN (IF SameRows(prev.out, ev.out, tol) THEN {} ELSE {"any.order"})
         \cup (IF tol # 0 \/ Wrote(past, prev) = Wrote(files, ev) THEN {} ELSE {"any.order"})
    ELSE {}

(* Runs that are under way at the same time, over the journal ev.watch.       *)
(* ev.who: whose step each step was (0: the user appends to the journal);     *)
(* ev.texts: the journal after each step. Whatever somebody else appended     *)
(* stays; and what a run adds, and says, is what it would have added and said *)
(* alone, to the journal as it was when the run began.                        *)
RaceFails(files, ev, tol) ==
    LET t(k) == IF k = 0 THEN files[ev.watch] ELSE ev.texts[k]
        n == Len(ev.texts)
        kept == \A k \in 1..n : StartsWith(t(k), t(k - 1))
        steps(p) == {k \in 1..n : ev.who[k] = p}
        first(p) == CHOOSE k \in steps(p) : \A m \in steps(p) : k <= m
        own(p) == FoldLeft(LAMBDA acc, k : IF ev.who[k] = p THEN acc \o Tail0(t(k), t(k - 1)) ELSE acc,
                           "", [k \in 1..n |-> k])
        With(text) == TLCEval([f \in DOMAIN files |-> IF f = ev.watch THEN text ELSE files[f]])
        alone(p) == Fails(With(t(first(p) - 1)), [post |-> With(t(first(p) - 1) \o own(p))] @@ ev.runs[p], tol)
    IN  (IF kept THEN UNION {alone(p) : p \in 1..Len(ev.runs)} ELSE {"files.kept"})
        \cup (IF Unchanged(files, ev.post, {ev.watch}) THEN {} ELSE {"files.other"})
=============================================================================
