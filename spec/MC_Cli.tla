-------------------------------- MODULE MC_Cli --------------------------------
(* All short command lines, in all environments: what each asks for is       *)
(* stated here by the roles of its words and compared with Cli.tla.          *)
EXTENDS Cli, Json
CONSTANTS MaxArgs, Emitting

Firsts == << "b", "balance", "envelopes", "e", "register", "import", "i", "Balance", "x", "", "-f", "--no-move" >>
Words == << "-f", "--file", "-n", "--no-move", "--csv", "--csv-file", "--rules", "--rules-file",
            "a.sfox", "/w/b.sfox", "none.sfox", "m.csv", "m2.csv", "r.rules", "-x", "b" >>
EnvVals == << "", "b.sfox", "/w/c.sfox", "none.sfox" >>
VARIABLES args, sf, lf, code
Init == /\ args = <<>> /\ code = 1 /\ sf \in 1..Len(EnvVals) /\ lf \in 1..Len(EnvVals)
Next == /\ Len(args) < MaxArgs
        /\ IF args = <<>> THEN \E i \in 1..Len(Firsts) : args' = <<Firsts[i]>> /\ code' = (sf * 7 + lf * 64 + i) % 1000003
           ELSE \E i \in 1..Len(Words) : args' = Append(args, Words[i]) /\ code' = (code * 31 + i) % 1000003
        /\ UNCHANGED <<sf, lf>>
Spec == Init /\ [][Next]_<<args, sf, lf, code>>

EnvOf == (IF sf = 1 THEN <<>> ELSE "SILVERFOX_FILE" :> EnvVals[sf]) @@ (IF lf = 1 THEN <<>> ELSE "LEDGER_FILE" :> EnvVals[lf])

\* the role of each word: the command, a flag, or the value of the flag before it
Takes == {"-f", "--file", "--csv", "--csv-file", "--rules", "--rules-file"}
Alone == {"-n", "--no-move"}
IsVal == LET V[p \in 1..Len(args)] == p > 2 /\ args[p - 1] \in Takes /\ ~V[p - 1] IN V
Flags == {p \in 2..Len(args) : ~IsVal[p]}
LastOf(names) == LET P == {p \in Flags : args[p] \in names /\ p < Len(args)}
                 IN  IF P = {} THEN <<>> ELSE <<args[MaxOf(P) + 1]>>
Said ==
    LET first == IF args = <<>> \/ args[1] = "" THEN "" ELSE SubSeq(args[1], 1, 1)
        given == LastOf({"-f", "--file"})
        file  == IF given # <<>> THEN given
                 ELSE IF sf > 1 THEN <<EnvVals[sf]>> ELSE IF lf > 1 THEN <<EnvVals[lf]>> ELSE <<>>
        good  == /\ first \in {"b", "e", "r", "i"}
                 /\ \A p \in Flags : args[p] \in Takes \cup Alone
                 /\ \A p \in Flags : args[p] \in Takes => p < Len(args)
                 /\ file # <<>>
    IN  [help |-> args = <<>>, ok |-> args = <<>> \/ good, cmd |-> first, file |-> file,
         nomove |-> \E p \in Flags : args[p] \in Alone,
         csv |-> LastOf({"--csv", "--csv-file"}), rules |-> LastOf({"--rules", "--rules-file"})]
Agree ==
    LET c == ParseArgs(args, EnvOf) s == Said
    IN  /\ c.ok = s.ok
        /\ (c.ok /\ ~s.help) => /\ CmdOf[s.cmd] = c.cmd /\ c.file = s.file /\ c.nomove = s.nomove
                                /\ c.csv = s.csv /\ c.rules = s.rules
        /\ s.help = (c.cmd = "help")
\* those that ask for something are emitted five times as often
EmitCase == (code % (IF Said.ok THEN (Emitting \div 5) + 1 ELSE Emitting) = 0) =>
    PrintT(<<"CASE", ToJson([args |-> args, env |-> EnvOf, said |-> Said])>>)
=============================================================================
