------------------------------ MODULE MC_Order ------------------------------
(* Accounts with their envelopes, declared and used in every order: the      *)
(* reports come out the same.                                                *)
EXTENDS Silverfox, Json
CONSTANTS Names, Emitting

\* the ways an account declares envelopes: <<type, name>>
Ways == << <<>>,
           << <<"goal", "x">>, <<"expense", "y">> >>,
           << <<"expense", "z">>, <<"expense", "a">>, <<"goal", "m">> >>,
           << <<"goal", "q">>, <<"expense", "p">>, <<"goal", "b">> >> >>
VARIABLES decl, used, code       \* sequences of <<name, way>>; names in the order they are first posted to
Init == decl = <<>> /\ used = <<>> /\ code = 1
Declared == {decl[i][1] : i \in 1..Len(decl)}
Next == \/ /\ Len(decl) < Cardinality(Names)
           /\ \E n \in Names \ Declared : \E w \in 1..Len(Ways) :
                decl' = Append(decl, <<n, w>>) /\ code' = (code * 31 + w * 7 + Cardinality(Declared) + Len(n)) % 1000003
           /\ UNCHANGED used
        \/ /\ Len(decl) = Cardinality(Names) /\ Len(used) < Cardinality(Names)
           /\ \E i \in 1..Len(decl) :
                /\ decl[i][1] \notin {used[k] : k \in 1..Len(used)}
                /\ used' = Append(used, decl[i][1]) /\ code' = (code * 31 + i) % 1000003
           /\ UNCHANGED decl
Spec == Init /\ [][Next]_<<decl, used, code>>
Done == Len(used) = Cardinality(Names)

EnvText(e) == "  " \o e[1] \o " " \o e[2] \o " due every 5th\n    amount 10\n"
DeclText(d) == "account " \o d[1] \o "\n" \o Concat([i \in 1..Len(Ways[d[2]]) |-> EnvText(Ways[d[2]][i])])
UseText(i) == "2025/01/01 * x\n  " \o used[i] \o " 1\n  " \o used[IF i = Len(used) THEN 1 ELSE i + 1] \o "\n"
Text == Concat([i \in 1..Len(decl) |-> DeclText(decl[i])]) \o Concat([i \in 1..Len(used) |-> UseText(i)])

\* the one ascending arrangement of the names
Less(a, b) == a # b /\ NotAfter(a, b)
Total == \A a, b \in Names : a # b => (Less(a, b) <=> ~Less(b, a))
InOrder(S) == SetToSortSeq(S, Less)
Unique == Ascending(InOrder(Names))
WayOf(n) == LET d == CHOOSE i \in 1..Len(decl) : decl[i][1] = n IN Ways[decl[d][2]]
Typed(n, ty) == SelectSeq(WayOf(n), LAMBDA e : e[1] = ty)
Shown == [i \in 1..Len(InOrder({n \in Names : WayOf(n) # <<>>})) |->
            LET n == InOrder({x \in Names : WayOf(x) # <<>>})[i] IN <<n, Typed(n, "expense") \o Typed(n, "goal")>>]
\* the specification reads the journal so
ReadSo == (Done /\ code % Emitting = 0) =>
    LET j == Load([p \in {"/w/main.sfox"} |-> Text], "/w/main.sfox", 20100)
    IN  /\ j.ok
        /\ DOMAIN Balance(j) = Names
        /\ ShownAccounts(j) = {Shown[i][1] : i \in 1..Len(Shown)}
        /\ \A i \in 1..Len(Shown) : EnvNames(EnvsOf(j.accts[Shown[i][1]])) = Shown[i][2]
EmitCase == (Done /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([text |-> Text, bal |-> InOrder(Names), envs |-> Shown])>>)
=============================================================================
