----------------------------- MODULE MC_Entries -----------------------------
(* All small entries: which are accepted, and what their postings amount to. *)
EXTENDS Silverfox, Json
CONSTANTS MaxLen, Emitting

Lines0 == << "a", "a 1", "a -1", "assets:b", "assets:b 2", "assets:b -1", "assets:b 0",
             "a 2 $", "assets:b -2 $", "a $1 @ 2", "assets:b -$2 @ 1", "a 2 $ = 5", "assets:b -2 EUR = -3",
             "assets:b 1 EUR", "envelope assets:b e 1" >>
Decl == "account a\naccount assets:b\n  expense e no date\n    amount 5\n"
Head0 == "2025/01/01 * x"
Accts == {"a", "assets:b"}

VARIABLES ids, code
Init == ids = <<>> /\ code = 1
Next == /\ Len(ids) < MaxLen
        /\ \E i \in 1..Len(Lines0) : ids' = Append(ids, i) /\ code' = (code * 17 + i) % 1000003
Spec == Init /\ [][Next]_<<ids, code>>

TextLines(q) == <<Head0>> \o [i \in 1..Len(q) |-> "  " \o Lines0[q[i]]]
Read(q) == ParseEntry(TextLines(q), "%Y/%m/%d", Accts, ".")
Posts(q) == TLCEval([i \in 1..Len(q) |-> ParsePosting(Lines0[q[i]], Accts, ".").v])

\* What the statement says about the validity of an entry with these postings:
ValidHere(ps) ==
    LET real  == SelectSeq(ps, IsReal)
        blank == SelectSeq(real, IsBlankP)
        given == SelectSeq(real, IsGivenP)
        syms  == {given[i].amt.s : i \in 1..Len(given)}
        \* the worth of everything in the native currency, if it can be determined
        worth == \A i \in 1..Len(given) : given[i].amt.s = "" \/ (given[i].cost.k # "none" /\ given[i].cost.a.s = "")
    IN  CASE Len(blank) > 1 -> FALSE
          [] Len(blank) = 1 /\ given = <<>> -> FALSE
          \* nothing left for the blank posting to settle
          [] Len(blank) = 1 /\ Cardinality(syms) = 1 -> TRUE
          \* several currencies: the remainder is in the native currency
          [] Len(blank) = 1 -> Cardinality(syms \ {""}) <= 1 /\ worth
          \* no blank: the postings of an entry in one currency add up to zero
          [] Cardinality(syms) <= 1 -> FoldLeft(LAMBDA acc, p : acc + p.amt.m, 0, given) = 0
          [] OTHER -> TRUE
VerdictRight == Read(ids).ok = ValidHere(Posts(ids))
\* an accepted entry in one currency adds up to zero, the inferred amount included
ZeroSum ==
    LET r == Read(ids) IN
    (r.ok /\ Cardinality(SymsOf(Given(r.v))) = 1) =>
        FoldLeft(LAMBDA acc, p : acc + AmountIn(r.v, p).m, 0, RealPosts(r.v)) = 0
\* one in several currencies, with a blank, is worth nothing in the native one
WorthNothing ==
    LET r == Read(ids) IN
    (r.ok /\ Cardinality(SymsOf(Given(r.v))) > 1 /\ Blanks(r.v) # <<>>) =>
        FoldLeft(LAMBDA acc, p : acc + Native(p).v, 0, Given(r.v)) + BlankAmt(r.v).m = 0
JournalFor(q) == Load("/w/main.sfox" :> (Decl \o Join(TextLines(q), "\n")), "/w/main.sfox", 20100)
\* the order of the postings doesn't matter
AnyPermutation ==
    LET a == JournalFor(ids) b == JournalFor(Reverse(ids))
    IN  a.ok = b.ok /\ (a.ok => Balance(a) = Balance(b) /\ a.accts = b.accts)

EmitCase ==
    (Emitting > 0 /\ code % Emitting = 0) =>
    LET j == JournalFor(ids) IN
    PrintT(<<"CASE", ToJson([text |-> Decl \o Join(TextLines(ids), "\n") \o "\n", ok |-> j.ok,
                             bal |-> IF j.ok THEN Balance(j) ELSE <<>>, reg |-> IF j.ok THEN RegisterOf(j) ELSE <<>>])>>)
=============================================================================
