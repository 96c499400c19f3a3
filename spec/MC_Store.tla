------------------------------ MODULE MC_Store ------------------------------
(* The journal file under runs that are killed, or whose calls fail, at any  *)
(* point: what one run after another leaves behind.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxRuns, Emitting

\* the commands: which parts a run appends when nothing stands in the way
Cmds == {"move", "look", "import", "import-n"}
Parts(c, due) == (IF c \in {"move", "import"} /\ due THEN <<"moves">> ELSE <<>>)
              \o (IF c \in {"import", "import-n"} THEN <<"rows">> ELSE <<>>)
OpenFaults  == {"killb", "killa", "eio", "enospc"}
WriteFaults == OpenFaults \cup {"short", "shortk", "shorte"}

VARIABLES file,   \* what the journal consists of: <<part, "all" or "some">>
          due,    \* whether envelopes are still to be filled today
          pc, todo, calls,
          runs,   \* the runs so far: [cmd, at, mode, told, before]
          code
vars == <<file, due, pc, todo, calls, runs, code>>
Torn == \E i \in 1..Len(file) : file[i][2] = "some"
Cur == runs[Len(runs)]
Run(told) == [runs EXCEPT ![Len(runs)] = [@ EXCEPT !.told = told]]
Faulted(told, mode) == [runs EXCEPT ![Len(runs)] = [@ EXCEPT !.told = told, !.at = calls + 1, !.mode = mode]]

Init == /\ file = << <<"user", "all">> >> /\ due = TRUE /\ pc = "idle" /\ todo = <<>> /\ calls = 0
        /\ runs = <<>> /\ code = 1
Mix(x) == code' = (code * 37 + x) % 1000003

Start == /\ pc = "idle" /\ Len(runs) < MaxRuns
         /\ \E c \in Cmds :
              /\ runs' = Append(runs, [cmd |-> c, at |-> 0, mode |-> "none", told |-> "none", torn |-> Torn])
              /\ Mix(Cardinality({d \in Cmds : Parts(d, TRUE) # Parts(c, TRUE)}) * 5 + Len(Parts(c, TRUE)))
              /\ todo' = Parts(c, due)
              /\ calls' = 0
              /\ pc' = IF Parts(c, due) = <<>> THEN "end" ELSE "open"
         /\ UNCHANGED <<file, due>>
\* a torn journal may be refused, in which case nothing is written
Refuse == /\ pc = "open" /\ Torn /\ calls = 0
          /\ pc' = "idle" /\ runs' = Run("error") /\ UNCHANGED <<file, due, todo, calls, code>>
Stop(told, mode) == /\ pc' = "idle" /\ runs' = Faulted(told, mode) /\ Mix(calls * 11 + Len(mode))
Open == /\ pc = "open"
        /\ \/ pc' = "write" /\ calls' = calls + 1 /\ UNCHANGED <<runs, code>>
           \/ Cur.mode = "none" /\ \E m \in OpenFaults :
                Stop(IF m \in {"killb", "killa"} THEN "killed" ELSE "error", m) /\ UNCHANGED calls
        /\ UNCHANGED <<file, due, todo>>
More == IF Len(todo) = 1 THEN "end" ELSE "open"
All == Append(file, <<todo[1], "all">>)
Some == Append(file, <<todo[1], "some">>)
Write == /\ pc = "write"
         /\ \/ \* all of it, at once or in two goes
               /\ file' = All /\ due' = (due /\ todo[1] # "moves") /\ todo' = Tail(todo) /\ pc' = More
               /\ calls' = calls + 1
               /\ \/ UNCHANGED <<runs, code>>
                  \/ Cur.mode = "none" /\ runs' = Faulted("none", "short") /\ Mix(calls * 11 + 5)
            \/ \* none of it
               /\ Cur.mode = "none"
               /\ \/ Stop("killed", "killb") /\ UNCHANGED <<file, due>>
                  \/ \E m \in {"eio", "enospc"} : Stop("error", m) /\ UNCHANGED <<file, due>>
                  \/ Stop("killed", "killa") /\ file' = All /\ due' = (due /\ todo[1] # "moves")
                  \/ Stop("killed", "shortk") /\ file' = Some /\ UNCHANGED due
                  \/ Stop("error", "shorte") /\ file' = Some /\ UNCHANGED due
               /\ UNCHANGED <<todo, calls>>
End == /\ pc = "end" /\ pc' = "idle" /\ runs' = Run("ok") /\ UNCHANGED <<file, due, todo, calls, code>>
Next == Start \/ Refuse \/ Open \/ Write \/ End
Spec == Init /\ [][Next]_vars

\* nothing that was in the journal is ever lost
Kept == [][IsPrefix(file, file')]_vars
\* a call that fails is told; what is told to be done is done
Told == (pc = "idle" /\ runs # <<>>) =>
    /\ Cur.mode \in {"eio", "enospc", "shorte"} => Cur.told = "error"
    /\ (Cur.told = "ok" /\ Cur.cmd \in {"import", "import-n"}) => file[Len(file)] = <<"rows", "all">>
\* without torn moves, envelopes are filled once
Once == ~Torn => Cardinality({i \in 1..Len(file) : file[i] = <<"moves", "all">>}) <= 1
WholeOrNot == \A i \in 1..Len(file) : file[i][2] = "some" => \E k \in 1..Len(runs) : runs[k].mode \in {"shortk", "shorte"}
EmitCase == (pc = "idle" /\ Len(runs) = MaxRuns /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([runs |-> runs, file |-> file])>>)
=============================================================================
