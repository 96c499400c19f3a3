----------------------------- MODULE Envelopes -----------------------------
(* Accounts and their envelopes: declaration, movements, automatic funding.  *)
EXTENDS Entries

Env(acct, type, name, freq, start) ==
    [acct |-> acct, type |-> type, name |-> name, freq |-> freq, start |-> start,
     target |-> Amt(0, ""), auto |-> {}, funding |-> "manual",
     now |-> 0, next |-> 0,      \* money ready now, money saved for the next due date
     touched |-> FALSE]          \* has an entry dated today moved money in or out?

Account(name, exp, goal) == [name |-> name, exp |-> exp, goal |-> goal, real |-> EmptyPool]
EnvsOf(a) == a.exp \o a.goal
MapEnvs(a, f(_)) == [a EXCEPT !.exp = TLCEval([i \in 1..Len(a.exp) |-> f(a.exp[i])]),
                              !.goal = TLCEval([i \in 1..Len(a.goal) |-> f(a.goal[i])])]

----------------------------------------------------------------------------
(* Text of a declaration                                                     *)
WeekdayNames == << <<"mon", "monday">>, <<"tue", "tuesday">>, <<"wed", "wednesday">>,
                   <<"thu", "thursday">>, <<"fri", "friday">>, <<"sat", "saturday">>,
                   <<"sun", "sunday">> >>
WeekdayOf(s) == \* -1 if s isn't a weekday
    LET l == ToLower(s)
        W == {i \in 1..7 : l = WeekdayNames[i][1] \/ l = WeekdayNames[i][2]}
    IN  IF W = {} THEN -1 ELSE MinOf(W) - 1
DayOfMonth(s) == \* -1 if s has no digits
    LET isd(c) == c \in DIGIT
        t == Concat(SelectSeq(Chars(s), isd))
    IN  IF t = "" THEN -1 ELSE IF Len(t) > 6 THEN 999999 ELSE NatOf(t, 0)     \* beyond any month

\* what follows `due` or `by`; start: the starting date or NODATE
ParseFreq(s, fmt, start) ==
    IF StartsWith(s, "every other ") THEN
        LET what == Drop(s, 12)
        IN  IF start = NODATE THEN Bad("starting required")
            ELSE IF WeekdayOf(what) >= 0 THEN Good(Freq("biweekly", 0, 0, start))
            ELSE IF DayOfMonth(what) >= 0 THEN Good(Freq("bimonthly", 0, 0, start))
            ELSE Bad("frequency")
    ELSE IF StartsWith(s, "every ") THEN
        LET what == Drop(s, 6)
        IN  IF WeekdayOf(what) >= 0 THEN Good(Freq("weekly", WeekdayOf(what), 0, 0))
            ELSE IF DayOfMonth(what) >= 0 THEN Good(Freq("monthly", 0, DayOfMonth(what), 0))
            ELSE IF what = "year" /\ start # NODATE THEN Good(Freq("annually", 0, 0, start))
            ELSE Bad("frequency")
    ELSE LET d == ParseDate(fmt, s)
         IN  IF d.ok THEN Good(Freq("once", 0, 0, d.day)) ELSE Bad("date")

\* <type> <name> [due|by ...] [starting <date>] | no date
ParseEnvHeader(line, acct, fmt) ==
    LET hdr  == Trim(line)
        toks == Tokens(hdr)
        st   == Occ(hdr, " starting ")
        sdat == IF st = {} THEN NoDay ELSE ParseDate(fmt, Drop(hdr, MinOf(st) + 9))
        h2   == IF st = {} THEN hdr ELSE SubSeq(hdr, 1, MinOf(st) - 1)
        by   == Occ(h2, " by ")
        due  == Occ(h2, " due ")
        rest == IF by # {} THEN Drop(h2, MaxOf(by) + 3) ELSE Drop(h2, MaxOf(due) + 4)
        start == IF st = {} THEN NODATE ELSE sdat.day
        fr   == IF HasSub(h2, "no date") THEN Good(Freq("never", 0, 0, 0))
                ELSE IF by = {} /\ due = {} THEN Bad("due")
                ELSE ParseFreq(rest, fmt, start)
    IN  IF Len(toks) < 2 THEN Bad("envelope")
        ELSE IF toks[1] \notin {"expense", "goal"} THEN Bad("envelope type")
        ELSE IF st # {} /\ ~sdat.ok THEN Bad("date")
        ELSE IF ~fr.ok THEN fr
        ELSE Good(Env(acct, toks[1], toks[2], fr.v, start))

EnvProperty(r, line, dec) ==
    LET toks == Tokens(line)
        e == r.v
        val == Join(Tail(toks), " ")
        am == ParseAmount(val, dec)
    IN  IF ~r.ok THEN r
        ELSE IF Len(toks) < 2 THEN Bad("blank property")
        ELSE CASE toks[1] = "for" -> IF Len(toks) = 2 THEN Good([e EXCEPT !.auto = @ \cup {toks[2]}])
                                     ELSE Bad("for")
               [] toks[1] = "amount" -> IF am.ok THEN Good([e EXCEPT !.target = am.a]) ELSE am
               [] toks[1] = "funding" -> IF val \in {"manual", "aggressive", "conservative"}
                                         THEN Good([e EXCEPT !.funding = val]) ELSE Bad("funding")
               [] OTHER -> Bad("property")

ParseEnvelope(lines, acct, fmt, dec) ==
    LET r == FoldLeft(LAMBDA acc, l : EnvProperty(acc, l, dec),
                      ParseEnvHeader(lines[1], acct, fmt), Tail(lines))
    IN  IF r.ok THEN r ELSE Bad("envelope")

\* an account from the lines of its chunk (comments removed, no blank lines)
ParseAccount(lines, fmt, dec) ==
    LET toks == Tokens(lines[1])
        body == Tail(lines)
        isHead(i) == LET t == Trim(body[i]) IN StartsWith(t, "expense") \/ StartsWith(t, "goal")
        cuts == Asc({i \in 1..Len(body) : i = 1 \/ isHead(i)})
        upto(j) == IF j < Len(cuts) THEN cuts[j + 1] - 1 ELSE Len(body)
        envs == TLCEval([j \in 1..Len(cuts) |->
                    ParseEnvelope(SubSeq(body, cuts[j], upto(j)), toks[2], fmt, dec)])
        ok   == \A j \in 1..Len(envs) : envs[j].ok
        all  == TLCEval([j \in 1..Len(envs) |-> envs[j].v])
        isE(e) == e.type = "expense"
        isG(e) == e.type = "goal"
    IN  IF Len(toks) # 2 THEN Bad("account")
        ELSE IF ~ok THEN Bad("envelope")
        ELSE IF \E i, j \in 1..Len(all) : i # j /\ all[i].name = all[j].name /\ all[i].type = all[j].type
             THEN Bad("duplicate envelope")
        ELSE Good(Account(toks[2], SelectSeq(all, isE), SelectSeq(all, isG)))

----------------------------------------------------------------------------
(* Movements                                                                 *)
ApplyAmt(e, m, day, today) ==
    LET last == LastDue(e.freq, today)
        e2 == IF m < 0 THEN [e EXCEPT !.now = @ + m]
              ELSE IF m > 0 /\ last # NODATE /\ day < last THEN [e EXCEPT !.now = @ + m]
              ELSE IF m > 0 THEN [e EXCEPT !.next = @ + m]
              ELSE e
    IN  IF day = today THEN [e2 EXCEPT !.touched = TRUE] ELSE e2

\* postings addressed to this envelope
ApplyManual(r, en, p, today) ==
    IF ~r.ok \/ p.acct # r.v.acct \/ p.env # r.v.name THEN r
    ELSE IF p.amt.s # r.v.target.s THEN Bad("envelope currency")
    ELSE Good(ApplyAmt(r.v, p.amt.m, en.day, today))

\* The movement an entry without envelope postings implies: the smaller of what the account and
\* what the linked accounts gain or lose, in the direction of the account.
InferMove(e, en) ==
    LET ps    == en.posts
        own   == {i \in 1..Len(ps) : ps[i].acct = e.acct}
        auto  == {i \in 1..Len(ps) : ps[i].acct # e.acct /\ ps[i].acct \in e.auto}
        conv(p) == LET a == AmountIn(en, p)
                   IN  IF a.s = e.target.s THEN [ok |-> TRUE, v |-> a.m]
                       ELSE IF e.target.s # "" THEN [ok |-> FALSE, v |-> 0]
                       ELSE Native(p)
        vals  == TLCEval([i \in 1..Len(ps) |-> conv(ps[i])])
        sum(I) == FoldLeft(LAMBDA acc, i : IF i \in I THEN acc + vals[i].v ELSE acc, 0,
                           [i \in 1..Len(ps) |-> i])
        so == sum(own)
        sa == sum(auto)
        mv == Min2(Abs(so), Abs(sa))
    IN  IF own = {} \/ auto = {} THEN Good(0)
        ELSE IF \E i \in 1..Len(ps) : ~vals[i].ok THEN Bad("conversion")
        ELSE Good(IF so < 0 THEN -mv ELSE mv)

MoveEnv(e, en, today) ==
    IF HasEnv(en)
    THEN FoldLeft(LAMBDA r, p : ApplyManual(r, en, p, today), Good(e), EnvPosts(en))
    ELSE LET r == InferMove(e, en)
         IN  IF ~r.ok THEN r
             ELSE IF r.v = 0 THEN Good(e)
             ELSE Good(ApplyAmt(e, r.v, en.day, today))

AccountOk(a, en, today) == \A i \in 1..Len(EnvsOf(a)) : MoveEnv(EnvsOf(a)[i], en, today).ok
MoveAccount(a, en, today) ==
    LET ps == SelectSeq(RealPosts(en), LAMBDA p : p.acct = a.name)
        a2 == MapEnvs(a, LAMBDA e : MoveEnv(e, en, today).v)
    IN  [a2 EXCEPT !.real = FoldLeft(LAMBDA pool, p : PoolAdd(pool, AmountIn(en, p)), @, ps)]

----------------------------------------------------------------------------
(* Reports and funding                                                       *)
EnvNextDue(e, today) ==
    LET n == NextDue(e.freq, today)
    IN  IF n = NODATE THEN NODATE ELSE IF e.start = NODATE THEN n ELSE Max2(e.start, n)

Held(a, s) == FoldLeft(LAMBDA acc, e : IF e.target.s = s THEN acc + e.now + e.next ELSE acc, 0, EnvsOf(a))
Available(a, s) == PoolGet(a.real, s) - Held(a, s)
CurrenciesOf(a) == DOMAIN a.real \cup {EnvsOf(a)[i].target.s : i \in 1..Len(EnvsOf(a))}

\* The least and the most that may be moved into envelope e now, when `avail` is available. The
\* two differ only by the rounding of the conservative share.
FillOf(e, avail, today) ==
    LET due  == EnvNextDue(e, today)
        rem  == e.target.m - e.next
        days == due - today
        share == IF e.funding = "aggressive" THEN e.target.m ELSE DivRound(rem, days)
        top  == Min2(Min2(share, avail), rem)
    IN  IF due = NODATE \/ e.touched \/ e.funding = "manual" THEN 0
        ELSE Max2(0, Max2(top, -(e.now + e.next)))

\* the moves into the envelopes of an account: goals before expenses, the last declared first
RECURSIVE FillSeq(_, _, _, _)
FillSeq(envs, pool, today, acc) ==
    IF envs = <<>> THEN acc
    ELSE LET e == envs[Len(envs)]
             m == FillOf(e, PoolGet(pool, e.target.s), today)
         IN  FillSeq(SubSeq(envs, 1, Len(envs) - 1), PoolSub(pool, Amt(m, e.target.s)), today,
                     IF m = 0 THEN acc ELSE Append(acc, EnvPost(e.acct, e.name, Amt(m, e.target.s))))
AvailPool(a) == TLCEval([s \in CurrenciesOf(a) |-> Available(a, s)])
FillAccount(a, today) == FillSeq(EnvsOf(a), AvailPool(a), today, <<>>)
=============================================================================
