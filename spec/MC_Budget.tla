------------------------------ MODULE MC_Budget ------------------------------
(* A journal in use: the user writes entries, days pass, silverfox runs and  *)
(* moves money. Every behaviour up to a length is explored; each is emitted  *)
(* with what must be observed, and the harness replays it with the real      *)
(* program.                                                                  *)
EXTENDS Silverfox, Json
CONSTANTS MaxLen,        \* number of steps of a behaviour
          Setups,        \* the setups explored
          Emitting       \* 0: print nothing; n > 0: print the behaviours whose number is 0 modulo n

Setup == <<
  \* 1: an expense and a goal compete for the money of one account
  [text |-> "account assets:c\n  expense food due every 5th\n    amount 10\n    for exp\n    funding aggressive\n"
            \o "  goal trip by 2025/03/20\n    amount 6.5\n    funding aggressive\naccount exp\naccount inc\n",
   tol |-> 0, ticks |-> <<1, 9>>,
   adds |-> << [off |-> 0, posts |-> <<"assets:c 12", "inc">>],
               [off |-> 0, posts |-> <<"assets:c -4", "exp">>],
               [off |-> 20, posts |-> <<"exp -3", "assets:c">>],
               [off |-> 1, posts |-> <<"envelope assets:c food 5">>],
               [off |-> 0, posts |-> <<"envelope assets:c trip -2.25">>] >>],
  \* 2: slow saving
  [text |-> "account assets:c\n  expense rent due every other wednesday starting 2025/01/08\n    amount 21\n    funding conservative\n"
            \o "    for exp\n  goal boat due every year starting 2024/03/01\n    amount 30\n    funding conservative\n"
            \o "account exp\naccount inc\n",
   tol |-> 30, ticks |-> <<1, 5>>,
   adds |-> << [off |-> 2, posts |-> <<"assets:c 15", "inc">>],
               [off |-> 0, posts |-> <<"exp 50", "assets:c">>],
               [off |-> 13, posts |-> <<"envelope assets:c rent 8", "envelope assets:c boat 3">>],
               [off |-> 7, posts |-> <<"inc -5", "exp -20", "assets:c 25">>] >>],
  \* 3: two currencies in one account
  [text |-> "account assets:c\n  expense food due every friday\n    amount $8\n    for exp\n    funding aggressive\n"
            \o "  goal car by 2025/04/01\n    amount 7 EUR\n    funding aggressive\n"
            \o "  goal trip no date\n    amount 9 EUR\n    funding aggressive\naccount exp\naccount inc\n",
   tol |-> 0, ticks |-> <<1, 4>>,
   adds |-> << [off |-> 1, posts |-> <<"assets:c $10", "inc">>],
               [off |-> 0, posts |-> <<"assets:c 5 EUR", "inc">>],
               [off |-> 3, posts |-> <<"assets:c -$3", "exp">>],
               [off |-> 5, posts |-> <<"envelope assets:c car EUR 2", "envelope assets:c trip 1.5EUR">>],
               [off |-> 2, posts |-> <<"assets:c $-4", "assets:c 3 EUR">>] >>],
  \* 4: envelopes of the same name in two accounts, one of them linked to the other account
  [text |-> "account assets:a\n  expense x due every 28th\n    amount 5\n    for e\n    funding aggressive\n"
            \o "account assets:b\n  expense x due every 28th\n    amount 5\n    for e\n    for assets:a\n    funding aggressive\n"
            \o "account e\naccount inc\n",
   tol |-> 0, ticks |-> <<1, 2>>,
   adds |-> << [off |-> 0, posts |-> <<"assets:a -6", "assets:b">>],
               [off |-> 1, posts |-> <<"e 4", "assets:a -1", "assets:b -3">>],
               [off |-> 30, posts |-> <<"assets:a 9", "inc">>],
               [off |-> 3, posts |-> <<"envelope assets:b x 2">>],
               [off |-> 0, posts |-> <<"e -2", "assets:b">>] >>],
  \* 5: a date that has passed, no money of its own, a start that is ahead
  [text |-> "account assets:c\n  expense old by 2025/02/20\n    amount 5\n    for exp\n    funding aggressive\n"
            \o "  expense man due every 1st\n    amount 5\n    for exp2\n    funding manual\n"
            \o "  goal big due every other 15 starting 2024/12/15\n    amount 12\n    funding aggressive\n"
            \o "account exp\naccount exp2\naccount inc\n",
   tol |-> 0, ticks |-> <<1, 20>>,
   adds |-> << [off |-> 0, posts |-> <<"assets:c 20", "inc">>],
               [off |-> 10, posts |-> <<"exp 7", "exp2 2.5", "assets:c">>],
               [off |-> 5, posts |-> <<"envelope assets:c old 3", "envelope assets:c man 4">>],
               [off |-> 1, posts |-> <<"envelope assets:c big 14">>],
               [off |-> 0, posts |-> <<"exp2 -1", "assets:c 1">>] >>]
>>
Day0 == DayNum(2025, 2, 26)
MainFile == "/w/main.sfox"

VARIABLES s,         \* the setup
          today,
          entries,   \* the journal's entries, in its order
          acts,      \* what was done
          runs,      \* what each run moved
          code,      \* the number of the behaviour
          base,      \* the journal of the setup
          J,         \* the journal as read today (a function of the above)
          F          \* the entry a run would append now
vars == <<s, today, entries, acts, runs, code, base, J, F>>

BaseOf(i) == Load(MainFile :> Setup[i].text, MainFile, Day0)
JournalOf(es, d) == FoldLeft(LAMBDA j, e : AddEntry(j, e, d), base, es)

HeadLine(d) == FormatDate("%Y/%m/%d", d) \o " * x"
EntryFrom(a, d) == ParseEntry(<<HeadLine(d - a.off)>> \o a.posts, "%Y/%m/%d", DOMAIN base.accts, ".").v
FillPosts(j, d) == LET f == Fill(j, d) IN FoldLeft(LAMBDA acc, n : acc \o f[n], <<>>, SetToSeq(DOMAIN j.accts))
FillOn(j, d) == Entry(d, "~", "Automatic", NoPayee, FillPosts(j, d))

Count == Len(Setup[s].adds) + 3
Do(n) == /\ acts' = Append(acts, n)
         /\ code' = code * 9 + n
Add(n) == /\ n <= Len(Setup[s].adds)
          /\ entries' = Append(entries, EntryFrom(Setup[s].adds[n], today))
          /\ Do(n) /\ UNCHANGED <<s, today, runs>>
Tick(n) == /\ today' = today + Setup[s].ticks[n]
           /\ Do(Len(Setup[s].adds) + n) /\ UNCHANGED <<s, entries, runs>>
Run == LET e == F
       IN  /\ entries' = IF e.posts = <<>> THEN entries ELSE Append(entries, e)
           /\ runs' = Append(runs, e.posts)
           /\ Do(Count) /\ UNCHANGED <<s, today>>

Init == /\ s \in Setups /\ base = BaseOf(s) /\ J = base /\ F = FillOn(base, Day0) /\ today = Day0 /\ entries = <<>> /\ acts = <<>> /\ runs = <<>> /\ code = s
Next == /\ Len(acts) < MaxLen
        /\ (\E n \in 1..5 : Add(n)) \/ (\E n \in 1..2 : Tick(n)) \/ Run
        /\ UNCHANGED base
        /\ J' = JournalOf(entries', today')
        /\ F' = FillOn(J', today')
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What must hold in every state                                             *)
T == Setup[s].tol
AllEnvs(j) == UNION {{EnvsOf(j.accts[n])[i] : i \in 1..Len(EnvsOf(j.accts[n]))} : n \in DOMAIN j.accts}
SumOver(q, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, q)

\* What an entry puts into an envelope (or takes out, negative).
Contribution(e, en) ==
    IF HasEnv(en)
    THEN SumOver(EnvPosts(en), LAMBDA p : IF p.acct = e.acct /\ p.env = e.name THEN p.amt.m ELSE 0)
    ELSE LET ps == RealPosts(en)
             own == SelectSeq(ps, LAMBDA p : p.acct = e.acct)
             lnk == SelectSeq(ps, LAMBDA p : p.acct # e.acct /\ p.acct \in e.auto)
             so == SumOver(own, LAMBDA p : AmountIn(en, p).m)
             sl == SumOver(lnk, LAMBDA p : AmountIn(en, p).m)
             \* never more than the account lost or gained, nor than the linked accounts did
             m == CHOOSE x \in {Abs(so), Abs(sl)} : x <= Abs(so) /\ x <= Abs(sl)
         IN  IF own = <<>> \/ lnk = <<>> THEN 0 ELSE IF so < 0 THEN -m ELSE m

Loads == J.ok /\ Len(J.entries) = Len(entries)
\* C06, C07: what an envelope holds is what the entries put into it
TotalsRight == \A e \in AllEnvs(J) : e.now + e.next = SumOver(entries, LAMBDA en : Contribution(e, en))
\* ... and nothing happens to an envelope by an entry between other accounts
DueSince(f, n) == \E d \in (n + 1)..today : IsDue(f, d)
\* C08: money put in since the last due date is for the next one; the rest is ready now
SplitRight ==
    \A e \in AllEnvs(J) :
        (e.freq.k \notin {"biweekly", "bimonthly", "annually"} \/ e.freq.s <= today) =>
        e.next = FoldLeft(LAMBDA acc, en :
                    IF HasEnv(en)
                    THEN FoldLeft(LAMBDA a2, p : IF p.acct = e.acct /\ p.env = e.name /\ p.amt.m > 0 /\ ~DueSince(e.freq, en.day)
                                                 THEN a2 + p.amt.m ELSE a2, acc, EnvPosts(en))
                    ELSE LET c == Contribution(e, en) IN IF c > 0 /\ ~DueSince(e.freq, en.day) THEN acc + c ELSE acc,
                    0, entries)
\* C01, C06: the order of the entries doesn't matter
OrderFree ==
    LET k == JournalOf(Reverse(entries), today)
    IN  k.accts = J.accts /\ Balance(k) = Balance(J)
\* C01: nothing comes from nowhere
Conserved ==
    LET b == Balance(J)
        oneCur(en) == Cardinality(SymsOf(Given(en))) <= 1
    IN  (\A i \in 1..Len(entries) : oneCur(entries[i])) =>
        \A c \in {"", "$", "EUR"} : FoldLeft(LAMBDA acc, n : acc + PoolGet(b[n], c), 0, SetToSeq(DOMAIN b)) = 0
\* C10: funding takes only what there is, and fills no envelope beyond its target
Safe == FillSafe(J, F, today, 0)
\* C12: after a run, another run on the same day moves nothing
Once == /\ FillOnce(J, F)
        /\ LET k == AddEntry(J, F, today) IN k.ok /\ NothingToFill(Fill(k, today))
\* C14: the text of a move is read as that move
MoveText(p) == "    envelope " \o p.acct \o "  " \o p.env \o "  " \o
    LET a == Abs(p.amt.m)
        t == (IF p.amt.m < 0 THEN "-" ELSE "") \o ToString(a \div SC) \o "." \o Pad(a % SC, K)
    IN  IF Len(p.amt.s) = 1 THEN p.amt.s \o t ELSE t \o " " \o p.amt.s
ReadBack == LET ps == F.posts IN \A i \in 1..Len(ps) : ParsePosting(MoveText(ps[i]), {}, ".") = Good(ps[i])
\* C11: aggressive funding leaves nothing unused while something is missing
Greedy ==
    LET e == F
        k == AddEntry(J, e, today)
    IN  \A n \in DOMAIN k.accts : \A i \in 1..Len(EnvsOf(k.accts[n])) :
          LET x == EnvsOf(k.accts[n])[i]
              x0 == EnvsOf(J.accts[n])[i]
          IN  (x.funding = "aggressive" /\ ~x0.touched /\ EnvNextDue(x0, today) # NODATE /\ x.next < x.target.m)
              => Available(k.accts[n], x.target.s) <= 0

----------------------------------------------------------------------------
(* The behaviours, for the harness                                           *)
Rows(j) == [n \in ShownAccounts(j) |->
    [avail |-> AvailPool(j.accts[n]),
     envs |-> [i \in 1..Len(EnvsOf(j.accts[n])) |->
        LET e == EnvsOf(j.accts[n])[i] d == EnvNextDue(e, today)
        IN  [t |-> e.type, n |-> e.name, now |-> Max2(e.now, 0), next |-> e.next + Min2(e.now, 0), target |-> e.target.m,
             s |-> e.target.s, due |-> IF d = NODATE THEN "" ELSE FormatDate("%Y-%m-%d", d)]]]]
EmitCase ==
    (Emitting > 0 /\ acts # <<>> /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([s |-> s, acts |-> acts, runs |-> runs, envs |-> Rows(J), bal |-> Balance(J), reg |-> RegisterOf(J)])>>)
EmitSetups ==
    (acts = <<>>) => PrintT(<<"CASE", ToJson([setup |-> s, text |-> Setup[s].text, adds |-> Setup[s].adds,
                                              ticks |-> Setup[s].ticks, tol |-> Setup[s].tol, day0 |-> Day0, k |-> K])>>)
=============================================================================
