------------------------------ MODULE MC_Rules ------------------------------
(* All small rules files: rules at the top level, groups and rules inside    *)
(* groups, in every order. What a record becomes is stated here directly and *)
(* compared with what the reading of the rules text (Importer.tla) gives.    *)
EXTENDS Importer, Json
CONSTANTS MaxLen, Emitting

\* [t: "top" | "if" | "sub", ...]
Top(k, v) == [t |-> "top", key |-> k, val |-> v, pats |-> <<>>]
If(ps)    == [t |-> "if", key |-> "", val |-> "", pats |-> ps]
Sub(k, v) == [t |-> "sub", key |-> k, val |-> v, pats |-> <<>>]
Items == << Top("payee", "Ann"), Top("payee", "-"), Top("account2", "x"), Top("status", "*"),
            If(<<"shop">>), If(<<"OTHER", "zz">>), If(<<"9">>), If(<<"é", "ßx">>),
            Sub("payee", "Bob"), Sub("payee", "-"), Sub("account2", "y"), Sub("account2", "-"), Sub("status", "?") >>
Records == << <<"2025/01/01", "Shop 9", "5">>, <<"2025/01/02", "other", "-5">>, <<"2025/01/03", "SHOP zz", "7">>,
              <<"2025/01/04", "none", "8">>, <<"2025/01/05", "CAFÉ", "-9">> >>

VARIABLES prog, code
Init == prog = <<>> /\ code = 1
Inside == prog # <<>> /\ prog[Len(prog)].t \in {"if", "sub"}
Next == /\ Len(prog) < MaxLen
        /\ \E i \in 1..Len(Items) :
              /\ Items[i].t = "sub" => Inside
              \* a group is closed by a rule of its own before anything else follows
              /\ (prog # <<>> /\ prog[Len(prog)].t = "if") => Items[i].t = "sub"
              /\ prog' = Append(prog, Items[i])
              /\ code' = (code * 17 + i) % 1000003
Spec == Init /\ [][Next]_<<prog, code>>
Whole == prog = <<>> \/ prog[Len(prog)].t # "if"

\* the rules file
ItemText(x) == IF x.t = "if" THEN (IF Len(x.pats) = 1 THEN "if " \o x.pats[1] ELSE "if\n" \o Join(x.pats, "\n"))
               ELSE (IF x.t = "sub" THEN "  " ELSE "") \o x.key \o " " \o x.val
RulesText == "skip 0\nfields date, description, amount\naccount assets:b\n"
             \o Concat([i \in 1..Len(prog) |-> ItemText(prog[i]) \o "\n"])

\* What the statement says: the first group that matches; the last value set above it or in it.
GroupAt(i) == LET later == {j \in (i + 1)..Len(prog) : prog[j].t # "sub"}
              IN  i..(IF later = {} THEN Len(prog) ELSE MinOf(later) - 1)
Hit(rec) == {i \in 1..Len(prog) : prog[i].t = "if" /\ \E p \in 1..Len(prog[i].pats) :
                HasSub(ToLower(Concat(rec)), ToLower(prog[i].pats[p]))}
Value(rec, key, default) ==
    LET g == Hit(rec)
        scope == IF g = {} THEN {i \in 1..Len(prog) : prog[i].t = "top"}
                 ELSE {i \in 1..MinOf(g) : prog[i].t = "top"} \cup GroupAt(MinOf(g))
        set == {i \in scope : prog[i].key = key}
        v == prog[MaxOf(set)].val
    IN  IF set = {} \/ v = "-" THEN default ELSE v
Sign(rec) == IF StartsWith(rec[3], "-") THEN "expenses:unknown" ELSE "income:unknown"
Said(rec) ==
    LET pay == Value(rec, "payee", "")
        a2 == Value(rec, "account2", "")
        amt == ParseAmount(rec[3], ".").a
    IN  [day |-> ParseDate("%Y/%m/%d", rec[1]).day, status |-> Value(rec, "status", "~"), desc |-> rec[2],
         payee |-> IF pay = "" THEN NoPayee ELSE "[" \o pay \o "]",
         posts |-> <<Real("assets:b", SomeAmt(amt), NoCost), Real(IF a2 = "" THEN Sign(rec) ELSE a2, NoAmt, NoCost)>>]

Accts == {"assets:b", "x", "y", "expenses:unknown", "income:unknown"}
PostSet(e) == {e.posts[i] : i \in 1..Len(e.posts)}
Agree ==
    Whole =>
    LET rules == ReadRules("/w/r" :> RulesText, "/w", {}, DefaultRules, "/w/r")
    IN  /\ rules.ok
        /\ \A i \in 1..Len(Records) :
              LET e == EntryFor(rules.v, Records[i], Accts)
                  w == Said(Records[i])
              IN  /\ e.ok /\ e.v.day = w.day /\ e.v.status = w.status /\ e.v.desc = w.desc /\ e.v.payee = w.payee
                  /\ Len(e.v.posts) = 2 /\ PostSet(e.v) = PostSet(w)

EmitCase ==
    (Whole /\ Emitting > 0 /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([rules |-> RulesText, recs |-> Records,
        said |-> [i \in 1..Len(Records) |-> LET w == Said(Records[i])
                    IN  [day |-> w.day, status |-> w.status, desc |-> w.desc, payee |-> w.payee,
                         a2 |-> w.posts[2].acct, m |-> w.posts[1].amt.m]]])>>)
=============================================================================
