------------------------------ MODULE Entries ------------------------------
(* Journal entries: their text, their validity, and the inferred amount of a *)
(* blank posting.                                                            *)
EXTENDS Amounts

Posting(k, acct, env, amt, cost) == [k |-> k, acct |-> acct, env |-> env, amt |-> amt, cost |-> cost]
NoCost == [k |-> "none", a |-> Amt(0, "")]
Real(acct, amt, cost) == Posting("real", acct, "", amt, cost)
EnvPost(acct, env, a) == Posting("env", acct, env, SomeAmt(a), NoCost)
IsReal(p) == p.k = "real"
IsEnv(p)  == p.k = "env"
AmtOf(p)  == Amt(p.amt.m, p.amt.s)

Entry(day, status, desc, payee, posts) ==
    [day |-> day, status |-> status, desc |-> desc, payee |-> payee, posts |-> posts]
NoPayee == "(none)"

Bad(why) == [ok |-> FALSE, why |-> why]
Good(v)  == [ok |-> TRUE, v |-> v, why |-> ""]

STATUS == {"?", "~", "*"}
OPS == {"@", "!", "=", "!!"}

\* the amount written after the operator `op` among the tokens, up to another operator
\* [some, ok, a]
AfterOp(toks, op, dec) ==
    LET I == {i \in 1..Len(toks) : toks[i] = op}
    IN  IF I = {} THEN [some |-> FALSE, ok |-> TRUE, a |-> Amt(0, "")]
        ELSE LET i == MinOf(I)
                 J == {j \in (i + 1)..Len(toks) : toks[j] \in OPS \ {op}}
                 e == IF J = {} THEN Len(toks) ELSE MinOf(J) - 1
                 r == ParseAmount(Join(SubSeq(toks, i + 1, e), " "), dec)
             IN  [some |-> TRUE, ok |-> r.ok, a |-> r.a]

\* a posting, from its tokens; accts: the names of the declared accounts
ParseReal(toks, accts, dec) ==
    LET rest == Tail(toks)
        I    == {i \in 1..Len(rest) : rest[i] \in OPS}
        n    == IF I = {} THEN Len(rest) ELSE MinOf(I) - 1
        raw  == Join(SubSeq(rest, 1, n), " ")
        am   == IF raw = "" THEN [ok |-> TRUE, a |-> Amt(0, "")] ELSE ParseAmount(raw, dec)
        bal  == AfterOp(rest, "!", dec)
        unit == AfterOp(rest, "@", dec)
        tot  == AfterOp(rest, "=", dec)
    IN  IF ~am.ok THEN Bad("amount")
        ELSE IF ~bal.ok \/ ~unit.ok \/ (~unit.some /\ ~tot.ok) THEN Bad("amount")
        ELSE IF toks[1] \notin accts THEN Bad("undeclared")
        ELSE Good(Real(toks[1], IF raw = "" THEN NoAmt ELSE SomeAmt(am.a),
                       IF unit.some THEN [k |-> "unit", a |-> unit.a]
                       ELSE IF tot.some THEN [k |-> "total", a |-> tot.a] ELSE NoCost))

ParseEnvPost(toks, dec) ==
    IF Len(toks) < 3 THEN Bad("envelope posting")
    ELSE LET r == ParseAmount(Concat(SubSeq(toks, 4, Len(toks))), dec)
         IN  IF r.ok THEN Good(EnvPost(toks[2], toks[3], r.a)) ELSE Bad("amount")

ParsePosting(line, accts, dec) ==
    LET toks == Tokens(StripComment(line))
    IN  IF toks = <<>> THEN Bad("posting")
        ELSE IF toks[1] = "envelope" THEN ParseEnvPost(toks, dec) ELSE ParseReal(toks, accts, dec)

\* <date> <status> <description> [<payee>]
ParseHeader(line, fmt) ==
    LET toks == Tokens(StripComment(line))
        d    == ParseDate(fmt, toks[1])
        text == Join(SubSeq(toks, 3, Len(toks)), " ")
        open == {i \in 1..Len(text) : Ch(text, i) = "["}
        i    == MinOf(open)
        shut == {j \in (i + 1)..Len(text) : Ch(text, j) = "]"}
    IN  IF toks = <<>> THEN Bad("header")
        ELSE IF ~d.ok THEN Bad("date")
        ELSE IF Len(toks) < 2 \/ toks[2] \notin STATUS THEN Bad("status")
        ELSE IF open = {} THEN Good(Entry(d.day, toks[2], text, NoPayee, <<>>))
        ELSE IF shut = {} THEN Bad("payee")
        ELSE Good(Entry(d.day, toks[2], Trim(SubSeq(text, 1, i - 1)),
                        "[" \o Trim(SubSeq(text, i + 1, MaxOf(shut) - 1)) \o "]", <<>>))

----------------------------------------------------------------------------
RealPosts(e) == SelectSeq(e.posts, IsReal)
EnvPosts(e)  == SelectSeq(e.posts, IsEnv)
HasEnv(e)    == \E i \in 1..Len(e.posts) : IsEnv(e.posts[i])
IsBlankP(p)  == ~p.amt.some
IsGivenP(p)  == p.amt.some
Given(e)     == SelectSeq(RealPosts(e), IsGivenP)
Blanks(e)    == SelectSeq(RealPosts(e), IsBlankP)
SymsOf(ps)   == {ps[i].amt.s : i \in 1..Len(ps)}
SumAmts(ps)  == FoldLeft(LAMBDA acc, p : acc + p.amt.m, 0, ps)

\* the worth of a posting in the native currency: [ok, v]
Native(p) ==
    IF ~p.amt.some THEN [ok |-> FALSE, v |-> 0]
    ELSE IF p.amt.s = "" THEN [ok |-> TRUE, v |-> p.amt.m]
    ELSE IF p.cost.k = "none" \/ p.cost.a.s # "" THEN [ok |-> FALSE, v |-> 0]
    ELSE IF p.cost.k = "unit" THEN [ok |-> TRUE, v |-> MulScaled(p.amt.m, p.cost.a.m)]
    ELSE [ok |-> TRUE, v |-> p.cost.a.m]

\* is the entry acceptable?
ValidEntry(e) ==
    LET b == Blanks(e)
        g == Given(e)
        syms == SymsOf(g)
    IN  /\ Len(b) <= 1
        /\ Len(b) = 1 => g # <<>>
        /\ Len(b) = 1 => Cardinality(syms \ {""}) <= 1
        /\ (Len(b) = 0 /\ Cardinality(syms) <= 1) => SumAmts(g) = 0
        \* the remainder can be determined
        /\ (Len(b) = 1 /\ Cardinality(syms) > 1) => \A i \in 1..Len(g) : Native(g[i]).ok

\* the amount of the blank posting of a valid entry
BlankAmt(e) ==
    LET g == Given(e)
        syms == SymsOf(g)
    IN  IF Cardinality(syms) > 1
        THEN Amt(-FoldLeft(LAMBDA acc, p : acc + Native(p).v, 0, g), "")
        ELSE Amt(-SumAmts(g), g[1].amt.s)

\* the amount of a real posting, given or inferred
AmountIn(e, p) == IF p.amt.some THEN AmtOf(p) ELSE BlankAmt(e)

\* an entry from its lines (comments removed, no blank lines)
ParseEntry(lines, fmt, accts, dec) ==
    LET h == ParseHeader(lines[1], fmt)
        ps == TLCEval([i \in 1..(Len(lines) - 1) |-> ParsePosting(lines[i + 1], accts, dec)])
        bad == {i \in 1..Len(ps) : ~ps[i].ok}
        e == [h.v EXCEPT !.posts = TLCEval([i \in 1..Len(ps) |-> ps[i].v])]
    IN  IF ~h.ok THEN h
        ELSE IF bad # {} THEN ps[MinOf(bad)]
        ELSE IF ~ValidEntry(e) THEN Bad("entry")
        ELSE Good(e)
=============================================================================
