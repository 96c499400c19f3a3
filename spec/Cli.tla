-------------------------------- MODULE Cli --------------------------------
(* The command line: which command, on which journal, with which flags.      *)
EXTENDS Importer

CmdOf == [s |-> "summary", b |-> "balance", e |-> "envelopes", r |-> "register",
          i |-> "import", n |-> "new"]
NoCmd == [ok |-> TRUE, cmd |-> "", file |-> <<>>, nomove |-> FALSE, csv |-> <<>>, rules |-> <<>>]

RECURSIVE ParseFlags(_, _)
ParseFlags(args, c) ==
    IF args = <<>> THEN c
    ELSE LET a == Head(args) IN
    IF a \in {"-n", "--no-move"} THEN ParseFlags(Tail(args), [c EXCEPT !.nomove = TRUE])
    ELSE IF Len(args) < 2 THEN [c EXCEPT !.ok = FALSE]
    ELSE LET v == args[2]
             rest == Tail(Tail(args)) IN
         CASE a \in {"-f", "--file"} -> ParseFlags(rest, [c EXCEPT !.file = <<v>>])
           [] a \in {"--csv", "--csv-file"} -> ParseFlags(rest, [c EXCEPT !.csv = <<v>>])
           [] a \in {"--rules", "--rules-file"} -> ParseFlags(rest, [c EXCEPT !.rules = <<v>>])
           [] OTHER -> [c EXCEPT !.ok = FALSE]

\* args: without the program's name; env: the environment variables that are set
ParseArgs(args, env) ==
    IF args = <<>> THEN [NoCmd EXCEPT !.cmd = "help"]
    ELSE LET k == IF args[1] = "" THEN "" ELSE Ch(args[1], 1)
         IN  IF k \notin DOMAIN CmdOf THEN [NoCmd EXCEPT !.ok = FALSE]
             ELSE LET c == ParseFlags(Tail(args), [NoCmd EXCEPT !.cmd = CmdOf[k]])
                  IN  IF c.file # <<>> THEN c
                      ELSE IF "SILVERFOX_FILE" \in DOMAIN env
                           THEN [c EXCEPT !.file = <<env["SILVERFOX_FILE"]>>]
                      ELSE IF "LEDGER_FILE" \in DOMAIN env
                           THEN [c EXCEPT !.file = <<env["LEDGER_FILE"]>>]
                      ELSE [c EXCEPT !.ok = FALSE]
=============================================================================
