----------------------------- MODULE MC_Amounts -----------------------------
(* All the ways to write an amount, and small texts that are none.           *)
EXTENDS Amounts, Json
CONSTANTS MaxJunk          \* length of the texts that are no amounts

\* what an amount is made of
Ints  == << <<"0", 0>>, <<"5", 5>>, <<"12", 12>>, <<"007", 7>>, <<"1500", 1500>>, <<"1,500", 1500>>, <<"12,345", 12345>>,
            <<"1,234,567", 1234567>>, <<"", 0>> >>
Fracs == << <<"", 0>>, <<".", 0>>, <<".5", 50>>, <<".50", 50>>, <<".05", 5>>, <<".00", 0>>, <<".99", 99>> >>
Curs  == {"", "$", "x", "€", "US$", "EUR", "kr"}
Forms == {"C N", "CN", "N C", "NC"}
Signs == {"", "-", "-after"}      \* in front of everything, or between the currency and the number

VARIABLES mode, text, want, parts
Init == \/ /\ mode = "parts" /\ text = "" /\ want = BadAmt
           /\ parts \in [i : 1..Len(Ints), f : 1..Len(Fracs), c : Curs, form : Forms, sg : Signs]
        \/ mode = "junk" /\ text = "" /\ want = BadAmt /\ parts = <<>>
Num == Ints[parts.i][1] \o Fracs[parts.f][1]
Digits == Ints[parts.i][1] # "" \/ Len(Fracs[parts.f][1]) > 1
Written ==
    LET sp == IF parts.form \in {"C N", "N C"} THEN " " ELSE ""
        first == parts.form \in {"C N", "CN"}
        a == IF parts.sg = "-" THEN "-" ELSE ""
        b == IF parts.sg = "-after" THEN "-" ELSE ""
    IN  IF parts.c = "" THEN (IF parts.sg = "" THEN "" ELSE "-") \o Num
        ELSE IF first THEN a \o parts.c \o sp \o b \o Num
        ELSE (IF parts.sg = "" THEN "" ELSE "-") \o Num \o sp \o parts.c
Meant == LET v == Ints[parts.i][2] * SC + Fracs[parts.f][2] * (SC \div 100)
         IN  [ok |-> Digits, a |-> Amt(IF ~Digits THEN 0 ELSE IF parts.sg = "" THEN v ELSE -v, IF Digits THEN parts.c ELSE "")]
\* texts without a digit, or with two decimal points between digits
Junk == {"$", "x", "-", ".", ",", "5.", ".5.", "1.2.3", " "}
Next == \/ mode = "parts" /\ text = "" /\ text' = Written /\ want' = Meant /\ UNCHANGED <<mode, parts>>
        \/ /\ mode = "junk" /\ Len(text) < MaxJunk
           /\ \E j \in Junk : text' = text \o j
           /\ UNCHANGED <<mode, want, parts>>
Spec == Init /\ [][Next]_<<mode, text, want, parts>>

NoDigit == \A i \in 1..Len(text) : Ch(text, i) \notin DIGIT
\* what every reader of amounts must refuse: no digit at all, or more than one decimal point
IsJunk == mode = "junk" /\ Trim(text) # "" /\ (NoDigit \/ Cardinality({i \in 1..Len(text) : Ch(text, i) = "."}) > 1)
MeaningRight == (mode = "parts" /\ text # "") => ParseAmount(text, ".") = want
JunkRefused == IsJunk => ~ParseAmount(text, ".").ok
EmitCase ==
    /\ (mode = "parts" /\ text # "") => PrintT(<<"CASE", ToJson([text |-> text, ok |-> want.ok, m |-> want.a.m, s |-> want.a.s])>>)
    /\ IsJunk => PrintT(<<"CASE", ToJson([text |-> text, ok |-> FALSE, m |-> 0, s |-> ""])>>)
=============================================================================
