------------------------------- MODULE MC_Race -------------------------------
(* Several runs of the program, and the user, at work on one journal at the  *)
(* same time: every interleaving of their reading it, opening it and writing *)
(* to it. Rewriting says how a run adds its part: at the end of the file as  *)
(* it is then (FALSE), or by writing back what it read with the part added   *)
(* (TRUE; there, Kept doesn't hold).                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Procs,      \* how many runs there are
          MaxUser,    \* how often the user adds an entry
          Rewriting, Emitting

Cmds == <<"look", "move", "import", "import-n">>
P == 1..Procs
VARIABLES file,       \* the parts the journal consists of: <<who, part>>
          pc, cmd, todo,
          read,       \* what each run read when it began
          who, code
vars == <<file, pc, cmd, todo, read, who, code>>

Filled(f) == \E i \in 1..Len(f) : f[i][2] = "moves"
Parts(c, f) == (IF c \in {"move", "import"} /\ ~Filled(f) THEN <<"moves">> ELSE <<>>)
            \o (IF c \in {"import", "import-n"} THEN <<"rows">> ELSE <<>>)
Init == /\ file = << <<0, "user">> >> /\ pc = [p \in P |-> "new"] /\ todo = [p \in P |-> <<>>]
        /\ read = [p \in P |-> <<>>] /\ who = <<>> /\ code = 1
        /\ cmd \in {c \in [P -> 1..Len(Cmds)] : \A p \in P \ {1} : c[p - 1] <= c[p]}
Step(p) == who' = Append(who, p) /\ code' = (code * 37 + p + 1 + 5 * cmd[1] + 17 * cmd[Procs]) % 1000003
User == /\ Cardinality({k \in 1..Len(who) : who[k] = 0}) < MaxUser
        /\ \E p \in P : pc[p] # "end"
        /\ file' = Append(file, <<0, "user">>) /\ Step(0) /\ UNCHANGED <<pc, cmd, todo, read>>
Load(p) == /\ pc[p] = "new"
           /\ LET ps == Parts(Cmds[cmd[p]], file)
              IN  todo' = [todo EXCEPT ![p] = ps] /\ pc' = [pc EXCEPT ![p] = IF ps = <<>> THEN "end" ELSE "open"]
           /\ read' = [read EXCEPT ![p] = file]
           /\ Step(p) /\ UNCHANGED <<file, cmd>>
Open(p) == /\ pc[p] = "open" /\ pc' = [pc EXCEPT ![p] = "write"]
           /\ file' = IF Rewriting THEN <<>> ELSE file
           /\ Step(p) /\ UNCHANGED <<cmd, todo, read>>
Write(p) == /\ pc[p] = "write"
            /\ LET new == <<p, todo[p][1]>>
               IN  /\ file' = IF Rewriting THEN Append(read[p], new) ELSE Append(file, new)
                   /\ read' = [read EXCEPT ![p] = Append(@, new)]
            /\ todo' = [todo EXCEPT ![p] = Tail(@)]
            /\ pc' = [pc EXCEPT ![p] = IF Len(todo[p]) = 1 THEN "end" ELSE "open"]
            /\ Step(p) /\ UNCHANGED cmd
Next == User \/ \E p \in P : Load(p) \/ Open(p) \/ Write(p)
Spec == Init /\ [][Next]_vars

\* nothing that is in the journal is ever lost
Kept == [][IsPrefix(file, file')]_vars
\* at the end, everything that anybody added is there, once
Mine(p) == SelectSeq(file, LAMBDA x : x[1] = p)
AllThere == (\A p \in P : pc[p] = "end") =>
    /\ \A p \in P : Cmds[cmd[p]] \in {"import", "import-n"} =>
                     Cardinality({i \in 1..Len(file) : file[i] = <<p, "rows">>}) = 1
    /\ Len(Mine(0)) = 1 + Cardinality({k \in 1..Len(who) : who[k] = 0})
\* envelopes are filled twice only by runs that both began before either had filled them
Began(p) == CHOOSE k \in 1..Len(who) : who[k] = p /\ \A m \in 1..k - 1 : who[m] # p
TwiceOnlyTogether ==
    \A i, j \in 1..Len(file) : (i < j /\ file[i][2] = "moves" /\ file[j][2] = "moves") =>
        LET q == file[j][1] IN \A k \in 1..Len(read[q]) : read[q][k][2] = "moves" => read[q][k][1] = q
EmitCase == ((\A p \in P : pc[p] = "end") /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([cmd |-> [p \in P |-> Cmds[cmd[p]]], who |-> who, file |-> file])>>)
=============================================================================
