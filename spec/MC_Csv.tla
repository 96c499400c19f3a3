------------------------------- MODULE MC_Csv -------------------------------
(* All small CSV texts: writing records down and reading them gives the      *)
(* records again, and every text is imported as the records it stands for.   *)
EXTENDS Importer, Json
CONSTANTS MaxRec, MaxFields, MaxRaw, Emitting

Values == {"", "a", "B c", "x,y", "say \"hi\"", "\"", " pad "}
RawChars == {"a", ",", "\"", "\n"}
VARIABLES mode,          \* "recs": built from records; "raw": any text
          recs, rec, quoted, raw, code
vars == <<mode, recs, rec, quoted, raw, code>>
Init == /\ mode \in {"recs", "raw"} /\ recs = <<>> /\ rec = <<>> /\ quoted = <<>> /\ raw = "" /\ code = 1
Width == IF recs = <<>> THEN MaxFields ELSE Len(recs[1])
Next == \/ /\ mode = "recs" /\ Len(recs) < MaxRec
           /\ \E v \in Values, q \in BOOLEAN : \E fin \in BOOLEAN :
                /\ LET r == Append(rec, v)
                       n == Len(recs)
                   IN  /\ fin => (n > 0 => Len(r) = Len(recs[1]))
                       /\ ~fin => Len(r) < Width
                       /\ rec' = IF fin THEN <<>> ELSE r
                       /\ recs' = IF fin THEN Append(recs, r) ELSE recs
                       \* a lone empty field is an empty line unless it is quoted
                       /\ (fin /\ Len(r) = 1 /\ v = "") => q
                /\ quoted' = Append(quoted, q)
                /\ code' = (code * 31 + Len(v) * 4 + (IF q THEN 2 ELSE 0) + (IF fin THEN 1 ELSE 0)) % 1000003
           /\ UNCHANGED <<mode, raw>>
        \/ /\ mode = "raw" /\ Len(raw) < MaxRaw
           /\ \E c \in RawChars : raw' = raw \o c /\ code' = (code * 31 + (IF c = "a" THEN 1 ELSE IF c = "," THEN 2 ELSE IF c = "\"" THEN 3 ELSE 5)) % 1000003
           /\ UNCHANGED <<mode, recs, rec, quoted>>
Spec == Init /\ [][Next]_vars

Needs(v) == HasSub(v, ",") \/ HasSub(v, "\"") \/ HasSub(v, "\n")
Field(v, q) == IF q \/ Needs(v) THEN "\"" \o Replace(v, "\"", "\"\"") \o "\"" ELSE v
RECURSIVE Before(_)
Before(k) == IF k = 0 THEN 0 ELSE Before(k - 1) + Len(recs[k])
RecText(k) == Join([i \in 1..Len(recs[k]) |-> Field(recs[k][i], quoted[Before(k - 1) + i])], ",")
Written(eol) == Concat([k \in 1..Len(recs) |-> RecText(k) \o eol])
\* written and read again
RoundTrip == (mode = "recs" /\ rec = <<>>) =>
    /\ ParseCsv(Written("\n")) = recs
    /\ ParseCsv(Written("\r\n")) = recs
    /\ recs # <<>> => ParseCsv(Join([k \in 1..Len(recs) |-> RecText(k)], "\n")) = recs

CsvText == IF mode = "raw" THEN raw ELSE Written("\n")
RulesText == "skip 0\nfields one, two, three\ndate 2025/01/02\naccount assets:b\namount 5\naccount2 x\ndescription <%one%|%two%>\n"
Accts == {"assets:b", "x"}
J0 == Load("/w/main.sfox" :> "account assets:b\naccount x\n", "/w/main.sfox", 20100)
Result == ImportAll(J0, ("/w/c" :> CsvText) @@ ("/w/r" :> RulesText), "/w", "/w/c", "/w/r", 20100)
EmitCase ==
    (Emitting > 0 /\ code % Emitting = 0 /\ (mode = "recs" => rec = <<>>)) =>
    LET r == Result IN
    PrintT(<<"CASE", ToJson([csv |-> CsvText, rules |-> RulesText, ok |-> r.ok,
             descs |-> IF r.ok THEN [i \in 1..Len(r.v.entries) |-> r.v.entries[i].desc] ELSE <<>>])>>)
=============================================================================
