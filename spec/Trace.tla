-------------------------------- MODULE Trace --------------------------------
(* Validation of recorded histories of the real program: every event of      *)
(* every history is checked against the specification, from the files as     *)
(* they were observed before it.                                             *)
EXTENDS Silverfox, Json, IOUtils

\* values for K that a configuration file can't hold
Minus1 == -1
Minus2 == -2
Minus3 == -3
Minus4 == -4
Minus6 == -6

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES h, i, files,
          past        \* the files before the last run
vars == <<h, i, files, past>>

\* the files after an event: `set` replaces or adds files, `del` removes some
After(fs, ev) ==
    LET keep == (DOMAIN fs) \ {ev.del[k] : k \in 1..Len(ev.del)}
        new  == DOMAIN ev.set
    IN  TLCEval([p \in keep \cup new |-> IF p \in new THEN ev.set[p] ELSE fs[p]])

Init == /\ h \in 1..Len(Hist)
        /\ i = 1
        /\ files = Hist[h].files
        /\ past = files

Ev == Hist[h].events[i]
\* the user edits files
Edit == Ev.op = "edit"
\* a run of the program
Run  == /\ Ev.op = "run"
        /\ LET post == After(files, Ev)
               bad == IF Hist[h].level = "robust" THEN RobustFails(Ev)
                      ELSE Fails(files, [post |-> post] @@ Ev, Hist[h].tol)
                           \cup (IF i = 1 THEN {}
                                 ELSE Again(files, Hist[h].events[i - 1], [post |-> post] @@ Ev, Hist[h].tol)
                                      \cup Repeats(files, Hist[h].events[i - 1], [post |-> post] @@ Ev))
                           \cup (IF i > 2 /\ Hist[h].events[i - 1].op = "edit"
                                 THEN AnyOrder(past, files, Hist[h].events[i - 2], Ev, Hist[h].tol) ELSE {})
           IN  IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", Hist[h].id, i, bad>>)
\* several runs, and the user, at the same time
Race == /\ Ev.op = "race"
        /\ LET bad == RaceFails(files, [post |-> After(files, Ev)] @@ Ev, Hist[h].tol)
           IN  IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", Hist[h].id, i, bad>>)
Next == /\ i <= Len(Hist[h].events)
        /\ Edit \/ Run \/ Race
        /\ files' = After(files, Ev)
        /\ past' = IF Ev.op # "edit" THEN files ELSE past
        /\ i' = i + 1
        /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
=============================================================================
