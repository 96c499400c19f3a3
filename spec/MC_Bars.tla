------------------------------- MODULE MC_Bars -------------------------------
(* All small targets and all amounts around them: which bars tell the truth. *)
EXTENDS Silverfox, Json
CONSTANTS Lowest, Highest       \* the targets

W == 40
VARIABLES t, m
Init == t \in Lowest..Highest /\ m = -3
Next == m < 2 * t + 2 /\ m' = m + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, m>>

Allowed == {f \in 0..W : BarOk(f, W, m, t, 0)}
Exact == IF m <= 0 THEN 0 ELSE IF m >= t THEN W ELSE (m * W) \div t
\* the bar of the exact share is among the allowed ones, and these are an interval of at most three
ExactAllowed == Exact \in Allowed
Narrow == /\ Cardinality(Allowed) <= 3
          /\ \A f \in MinOf(Allowed)..MaxOf(Allowed) : f \in Allowed
Ends == /\ m <= -1 => Allowed = {0}
        /\ m < t => W \notin Allowed
        /\ m > t => Allowed = {W}
\* a bar never shrinks by more than the tolerance as the amount grows
Grows == m + 1 <= 2 * t + 2 =>
           LET N == {f \in 0..W : BarOk(f, W, m + 1, t, 0)} IN MinOf(N) >= MinOf(Allowed) /\ MaxOf(N) >= MaxOf(Allowed)
EmitCase == PrintT(<<"CASE", ToJson([t |-> t, m |-> m, lo |-> MinOf(Allowed), hi |-> MaxOf(Allowed)])>>)
=============================================================================
