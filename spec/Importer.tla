------------------------------ MODULE Importer ------------------------------
(* CSV import: CSV text, rules files, and the entry each record becomes.     *)
EXTENDS Journal

\* Reading of CSV, one character at a time. mode: "bol" at the start of a record, "bof" at the
\* start of a field, "in" inside a bare field, "q" inside quotes, "qq" after a quote in quotes
CsvInit == [mode |-> "bol", field |-> "", rec |-> <<>>, recs |-> <<>>]
CsvEndField(st) == [st EXCEPT !.rec = Append(@, st.field), !.field = "", !.mode = "bof"]
CsvEndRec(st) == LET s == CsvEndField(st)
                 IN  [s EXCEPT !.recs = Append(@, s.rec), !.rec = <<>>, !.mode = "bol"]
CsvChar(st, c) ==
    LET eol == c = "\n" \/ c = "\r" IN
    CASE st.mode = "q" -> IF c = "\"" THEN [st EXCEPT !.mode = "qq"] ELSE [st EXCEPT !.field = @ \o c]
      [] st.mode = "qq" /\ c = "\"" -> [st EXCEPT !.mode = "q", !.field = @ \o c]
      [] st.mode = "bol" /\ eol -> st
      [] st.mode \in {"bol", "bof"} /\ c = "\"" -> [st EXCEPT !.mode = "q"]
      [] c = "," -> CsvEndField(st)
      [] eol -> CsvEndRec(st)
      [] OTHER -> [st EXCEPT !.mode = "in", !.field = @ \o c]
ParseCsv(text) ==
    LET st == FoldLeft(CsvChar, CsvInit, Chars(text))
    IN  IF st.mode = "bol" THEN st.recs ELSE CsvEndRec(st).recs

----------------------------------------------------------------------------
(* Rules                                                                     *)
DefaultRules ==
    [acc |-> <<>>, amts |-> <<>>, comment |-> "", desc |-> "%description%",
     dfmt |-> "%Y/%m/%d", date |-> "%date%", dec |-> ".", fields |-> <<>>, payee |-> "",
     skip |-> 1, status |-> "~", subs |-> <<>>]
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

\* the name and the value of a rule: [ok, name, val]
SplitRule(line) ==
    LET l == TrimStart(line)
        W == {i \in 1..Len(l) : Ch(l, i) \in WS}
    IN  IF W = {} THEN [ok |-> FALSE, name |-> l, val |-> ""]
        ELSE [ok |-> TRUE, name |-> SubSeq(l, 1, MinOf(W) - 1), val |-> TrimStart(Drop(l, MinOf(W)))]

ResetRule(r, name) ==
    CASE name \in {"comment", "note"} -> Good([r EXCEPT !.comment = ""])
      [] name = "date_format" -> Good([r EXCEPT !.dfmt = DefaultRules.dfmt])
      [] name = "date" -> Good([r EXCEPT !.date = DefaultRules.date])
      [] name \in {"decimal", "decimal_symbol"} -> Good([r EXCEPT !.dec = "."])
      [] name = "description" -> Good([r EXCEPT !.desc = DefaultRules.desc])
      [] name = "payee" -> Good([r EXCEPT !.payee = ""])
      [] name = "skip" -> Good([r EXCEPT !.skip = 1])
      [] name = "status" -> Good([r EXCEPT !.status = "~"])
      [] name \in {"fields", "if", "include", "use"} -> Bad("rule")
      [] StartsWith(name, "amount") -> Good([r EXCEPT !.amts = Without(@, Drop(name, 6))])
      [] StartsWith(name, "account") -> Good([r EXCEPT !.acc = Without(@, Drop(name, 7))])
      [] OTHER -> Bad("rule")

SetRule(r, name, val) ==
    CASE name \in {"comment", "note"} -> Good([r EXCEPT !.comment = val])
      [] name = "date_format" -> Good([r EXCEPT !.dfmt = val])
      [] name = "date" -> Good([r EXCEPT !.date = val])
      [] name \in {"decimal", "decimal_symbol"} ->
            IF Len(val) = 1 THEN Good([r EXCEPT !.dec = val]) ELSE Bad("rule")
      [] name = "description" -> Good([r EXCEPT !.desc = val])
      [] name = "fields" ->
            LET fs == SplitOn(val, ",")
            IN  Good([r EXCEPT !.fields = @ \o TLCEval([i \in 1..Len(fs) |-> Trim(fs[i])])])
      [] name = "payee" -> Good([r EXCEPT !.payee = val])
      [] name = "skip" -> IF val # "" /\ AllDigits(val) THEN Good([r EXCEPT !.skip = NatOf(val, 0)])
                          ELSE Bad("rule")
      [] name = "status" -> Good([r EXCEPT !.status = val])
      [] name = "if" -> Bad("rule")
      [] StartsWith(name, "amount") -> Good([r EXCEPT !.amts = (Drop(name, 6) :> val) @@ @])
      [] StartsWith(name, "account") -> Good([r EXCEPT !.acc = (Drop(name, 7) :> val) @@ @])
      [] OTHER -> Bad("rule")

\* Reading of rules, one line at a time; st: [ok, why, v |-> rules, sub |-> the group being read:
\* [on, pats, rules, body]]
NoSub == [on |-> FALSE, pats |-> <<>>, rules |-> DefaultRules, body |-> FALSE]
CloseSub(st) ==
    IF st.sub.on
    THEN [st EXCEPT !.v.subs = Append(@, [pats |-> st.sub.pats, rules |-> st.sub.rules]), !.sub = NoSub]
    ELSE st

RECURSIVE ReadRules(_, _, _, _, _)
\* a rule line applied to rules r: Good(rules) or Bad
ApplyRule(files, cwd, stack, r, line) ==
    LET s == SplitRule(line)
    IN  IF ~s.ok THEN Bad("rule")
        ELSE IF Trim(s.val) = "-" THEN ResetRule(r, s.name)
        ELSE IF s.name \in {"include", "use"}
             THEN ReadRules(files, cwd, stack, r, AbsPath(cwd, s.val))
        ELSE SetRule(r, s.name, s.val)

RuleLine(files, cwd, stack, st0, raw) ==
    LET line == StripComment(raw)
        ind  == Len(line) > 0 /\ Ch(line, 1) \in WS
        st   == IF st0.sub.on /\ st0.sub.body /\ ~ind /\ ~IsBlank(line) THEN CloseSub(st0) ELSE st0
        W    == {i \in 1..Len(line) : Ch(line, i) \in WS}
        sr   == ApplyRule(files, cwd, stack, st.sub.rules, line)
        rr   == ApplyRule(files, cwd, stack, st.v, line)
    IN  IF ~st.ok \/ IsBlank(line) THEN st0
        ELSE IF st.sub.on /\ ~ind THEN [st EXCEPT !.sub.pats = Append(@, line)]
        ELSE IF st.sub.on THEN
            IF sr.ok THEN [st EXCEPT !.sub.rules = sr.v, !.sub.body = TRUE]
            ELSE [st EXCEPT !.ok = FALSE, !.why = sr.why]
        ELSE IF StartsWith(line, "if") THEN
            [st EXCEPT !.sub = [on |-> TRUE, rules |-> [st.v EXCEPT !.subs = <<>>], body |-> FALSE,
                                pats |-> IF W = {} THEN <<>> ELSE <<Drop(line, MinOf(W))>>]]
        ELSE IF rr.ok THEN [st EXCEPT !.v = rr.v] ELSE [st EXCEPT !.ok = FALSE, !.why = rr.why]

ReadRules(files, cwd, stack, r, path) ==
    IF path \in stack THEN Bad("cycle")
    ELSE IF path \notin DOMAIN files THEN Bad("missing file")
    ELSE LET st == FoldLeft(LAMBDA s, l : RuleLine(files, cwd, stack \cup {path}, s, l),
                            [ok |-> TRUE, why |-> "", v |-> r, sub |-> NoSub], Lines(files[path]))
         IN  IF st.ok THEN Good(CloseSub(st).v) ELSE Bad(st.why)

----------------------------------------------------------------------------
(* From a record to an entry                                                 *)
Matches(pats, rec) ==
    LET text == ToLower(Concat(rec)) IN \E i \in 1..Len(pats) : HasSub(text, ToLower(pats[i]))
\* the rules that decide a record: those of the first group that matches, or the unconditional ones
\* (a group may include a file that has groups)
RECURSIVE RulesFor(_, _)
RulesFor(rules, rec) ==
    LET M == {i \in 1..Len(rules.subs) : Matches(rules.subs[i].pats, rec)}
    IN  IF M = {} THEN rules ELSE RulesFor(rules.subs[MinOf(M)].rules, rec)

\* The text of a rule with the values of a record in it. `%name%` stands for the value of a column, and
\* `%%` for a percent sign, unless its second one starts the name of a column. Values are not looked into.
VarsAt(text, fields, rec) ==     \* a column without a name can't be referred to
    {i \in 1..Min2(Len(fields), Len(rec)) : fields[i] # "" /\ StartsWith(text, "%" \o fields[i] \o "%")}
RECURSIVE Inject(_, _, _)
Inject(text, fields, rec) ==
    LET P    == {i \in 1..Len(text) : Ch(text, i) = "%"}
        head == SubSeq(text, 1, MinOf(P) - 1)
        rest == Drop(text, MinOf(P) - 1)
        V    == VarsAt(rest, fields, rec)
        v    == CHOOSE i \in V : \A k \in V : Len(fields[i]) >= Len(fields[k])
        more == Drop(rest, 1)
        twin == StartsWith(more, "%") /\ VarsAt(more, fields, rec) = {}
    IN  IF P = {} THEN text
        ELSE IF V # {} THEN head \o rec[v] \o Inject(Drop(rest, Len(fields[v]) + 2), fields, rec)
        ELSE head \o "%" \o Inject(IF twin THEN Drop(more, 1) ELSE more, fields, rec)

Normal(s) == Join(Tokens(s), " ")
UnknownFor(m) == IF m < 0 THEN "expenses:unknown" ELSE IF m > 0 THEN "income:unknown" ELSE "unknown"

EntryFor(rules0, rec, accts) ==
    LET r   == RulesFor(rules0, rec)
        n   == Min2(Len(r.fields), Len(rec))
        inj(t) == Inject(t, r.fields, rec)
        acc == IF DOMAIN r.acc = {} THEN ("" :> "%account%") ELSE r.acc
        amt == IF DOMAIN r.amts = {} THEN ("" :> "%amount%") ELSE r.amts
        day == ParseDate(r.dfmt, inj(r.date))
        st  == inj(r.status)
        pay == IF IsBlank(r.payee) THEN NoPayee ELSE "[" \o Normal(inj(r.payee)) \o "]"
        ids == SetToSeq(DOMAIN acc)
        ps  == TLCEval([i \in 1..Len(ids) |-> ParsePosting(
                  inj(IF ids[i] \in DOMAIN amt THEN acc[ids[i]] \o " " \o amt[ids[i]] ELSE acc[ids[i]]),
                  accts, r.dec)])
        one == IF Len(ps) = 1 /\ ps[1].ok /\ ps[1].v.amt.some
               THEN <<ps[1].v, Real(UnknownFor(ps[1].v.amt.m), NoAmt, NoCost)>>
               ELSE TLCEval([i \in 1..Len(ps) |-> ps[i].v])
    IN  IF \E i, j \in 1..n : i # j /\ r.fields[i] = r.fields[j] THEN Bad("fields")
        ELSE IF ~day.ok THEN Bad("date")
        ELSE IF st \notin STATUS THEN Bad("status")
        \* a comment is what follows on the header's line: it can't go over several lines
        ELSE IF HasSub(inj(r.comment), "\n") THEN Bad("comment")
        ELSE IF \E i \in 1..Len(ps) : ~ps[i].ok THEN Bad("posting")
        ELSE IF Len(ps) = 1 /\ ~ps[1].v.amt.some THEN Bad("amount")
        ELSE Good(Entry(day.day, st, Normal(inj(r.desc)), pay, one))

\* the comment that goes with the entry of a record; own: do the values make one of their own?
CommentFor(rules0, rec) ==
    LET r == RulesFor(rules0, rec)
        text == Inject(r.desc, r.fields, rec) \o " " \o Inject(r.payee, r.fields, rec)
    IN  [note |-> Normal(Inject(r.comment, r.fields, rec)), own |-> StripComment(text) # text]

\* How the header of an entry is read back from the journal: Good(entry) or Bad. Text that looks
\* like a comment or a payee is read as such; text that can't be read at all is refused.
Reread(e) ==
    LET text == e.desc \o (IF e.payee = NoPayee THEN "" ELSE " " \o e.payee)
        h == ParseHeader("2000/01/01 " \o e.status \o " " \o text, "%Y/%m/%d")
    IN  IF HasSub(text, "\n") \/ ~h.ok THEN Bad("header")
        ELSE Good([e EXCEPT !.desc = h.v.desc, !.payee = h.v.payee])
OneWord(s) == \A i \in 1..Len(s) : Ch(s, i) \notin WS
Holdable(e, accts) ==
    /\ \A i \in 1..Len(e.posts) : OneWord(e.posts[i].amt.s) /\ OneWord(e.posts[i].cost.a.s)
    /\ \A i \in 1..Len(e.posts) : IsReal(e.posts[i]) => e.posts[i].acct \in accts
    /\ ValidEntry(e)

\* the import as a whole: Good(the entries of the journal with the imported ones, and their comments) or Bad
ImportStep(acc, rec, rules, today) ==
    IF ~acc.ok THEN acc
    ELSE LET e == EntryFor(rules, rec, DOMAIN acc.v.accts)
         IN  IF ~e.ok THEN e
             ELSE IF ~Holdable(e.v, DOMAIN acc.v.accts) THEN Bad("entry")
             ELSE LET h == Reread(e.v)
                      j == AddEntry(acc.v, h.v, today)
                  IN  IF ~h.ok THEN h ELSE IF j.ok THEN Good(j) ELSE Bad(j.why)
ImportAll(j, files, cwd, csvPath, rulesPath, today) ==
    LET rules == ReadRules(files, cwd, {}, DefaultRules, rulesPath)
        recs  == ParseCsv(files[csvPath])
        kept  == SubSeq(recs, rules.v.skip + 1, Len(recs))
    IN  IF csvPath \notin DOMAIN files THEN Bad("missing file")
        ELSE IF ~rules.ok THEN rules
        ELSE IF \E i \in 1..Len(kept) : Len(kept[i]) # Len(recs[1]) THEN Bad("ragged")
        ELSE LET r == FoldLeft(LAMBDA acc, rec : ImportStep(acc, rec, rules.v, today), Good(j), kept)
             IN  IF r.ok THEN Good([entries |-> r.v.entries,
                                    comments |-> TLCEval([i \in 1..Len(kept) |-> CommentFor(rules.v, kept[i])])])
                 ELSE r
=============================================================================
