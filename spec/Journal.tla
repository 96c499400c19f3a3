------------------------------ MODULE Journal ------------------------------
(* A journal: a file, the files it includes, and what they add up to.        *)
(* `files` is a function from absolute paths to texts.                       *)
EXTENDS Envelopes

\* A chunk is a line that starts with a non-blank character and the indented lines below it.
\* lead: the chunk consists of the indented lines at the top of a file.
Chunks(text) ==
    LET raw == Lines(text)
        cl  == TLCEval([i \in 1..Len(raw) |-> TrimEnd(StripComment(raw[i]))])
        full(s) == s # ""
        ls  == SelectSeq(cl, full)
        flush(i) == Ch(ls[i], 1) \notin WS
        cuts == Asc({i \in 1..Len(ls) : i = 1 \/ flush(i)})
        upto(j) == IF j < Len(cuts) THEN cuts[j + 1] - 1 ELSE Len(ls)
    IN  TLCEval([j \in 1..Len(cuts) |->
            [k |-> "chunk", lead |-> ~flush(cuts[j]), lines |-> SubSeq(ls, cuts[j], upto(j))]])

ChunkTokens(c) == FoldLeft(LAMBDA acc, l : acc \o Tokens(l), <<>>, c.lines)
Broken(why) == <<[k |-> "broken", lead |-> FALSE, lines |-> <<why>>]>>

\* the chunks of a file with every include replaced by the chunks of the included file
RECURSIVE Flatten(_, _, _)
Flatten(files, path, stack) ==
    IF path \in stack THEN Broken("cycle")
    ELSE IF path \notin DOMAIN files THEN Broken("missing file")
    ELSE LET cs == Chunks(files[path])
             one(c) ==
                LET head == Tokens(c.lines[1])[1]
                    toks == ChunkTokens(c)
                IN  IF head # "include" THEN <<c>>
                    ELSE IF Len(toks) < 2 THEN Broken("include")
                    ELSE Flatten(files, AbsPath(DirOf(path), toks[2]), stack \cup {path})
         IN  FoldLeft(LAMBDA acc, c : acc \o one(c), <<>>, cs)

EmptyJournal == [ok |-> TRUE, why |-> "", fmt |-> "%Y/%m/%d", accts |-> <<>>, entries |-> <<>>]
Fail(j, why) == [j EXCEPT !.ok = FALSE, !.why = why]

AddEntry(j, e, today) ==
    IF \E n \in DOMAIN j.accts : ~AccountOk(j.accts[n], e, today) THEN Fail(j, "processing")
    ELSE [j EXCEPT !.entries = Append(@, e),
                   !.accts = TLCEval([n \in DOMAIN j.accts |-> MoveAccount(j.accts[n], e, today)])]

AddChunk(j, c, today) ==
    IF ~j.ok THEN j
    ELSE IF c.k = "broken" THEN Fail(j, c.lines[1])
    ELSE LET toks == ChunkTokens(c) IN
    CASE toks[1] = "account" ->
            IF c.lead THEN Fail(j, "account")
            ELSE LET r == ParseAccount(c.lines, j.fmt, ".")
                 IN  IF r.ok THEN [j EXCEPT !.accts = (r.v.name :> r.v) @@ @] ELSE Fail(j, r.why)
      [] toks[1] = "currency" -> IF Len(toks) < 2 THEN Fail(j, "currency") ELSE j
      [] toks[1] = "date_format" ->
            IF Len(toks) < 2 THEN Fail(j, "date_format") ELSE [j EXCEPT !.fmt = toks[2]]
      [] OTHER ->
            LET r == ParseEntry(c.lines, j.fmt, DOMAIN j.accts, ".")
            IN  IF r.ok THEN AddEntry(j, r.v, today) ELSE Fail(j, r.why)

\* the journal in the file `main` as read on the day `today`
Load(files, main, today) ==
    FoldLeft(LAMBDA j, c : AddChunk(j, c, today), EmptyJournal, Flatten(files, main, {}))

----------------------------------------------------------------------------
(* The reports                                                               *)
PostedAccounts(j) ==
    UNION {{e.posts[i].acct : i \in {k \in 1..Len(e.posts) : IsReal(e.posts[k])}} :
           e \in {j.entries[i] : i \in 1..Len(j.entries)}}
\* account -> pool, over all real postings
Balance(j) ==
    LET addP(b, e, p) == [b EXCEPT ![p.acct] = PoolAdd(@, AmountIn(e, p))]
        addE(b, e) == FoldLeft(LAMBDA bb, p : addP(bb, e, p), b, RealPosts(e))
    IN  FoldLeft(addE, TLCEval([n \in PostedAccounts(j) |-> EmptyPool]), j.entries)

\* the moves of one automatic funding: account -> sequence of envelope postings
Fill(j, today) == TLCEval([n \in DOMAIN j.accts |-> FillAccount(j.accts[n], today)])
NothingToFill(f) == \A n \in DOMAIN f : f[n] = <<>>

IsAsset(name) == StartsWith(name, "asset")
\* the net change of the asset accounts by an entry
AssetChange(e) ==
    LET ps == SelectSeq(RealPosts(e), LAMBDA p : IsAsset(p.acct))
    IN  FoldLeft(LAMBDA pool, p : PoolAdd(pool, AmountIn(e, p)), EmptyPool, ps)
\* the accounts that gain (sign = 1) or lose (sign = -1) by an entry
Side(e, sign) ==
    LET ps == RealPosts(e)
        S  == {ps[i].acct : i \in {k \in 1..Len(ps) : AmountIn(e, ps[k]).m * sign > 0}}
    IN  IF S = {} THEN "(none)" ELSE IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE "(multiple)"
\* entries by date, then by position
ByDate(j) ==
    LET n == Len(j.entries)
        idx == SortSeq([i \in 1..n |-> i],
                 LAMBDA a, b : j.entries[a].day < j.entries[b].day
                               \/ (j.entries[a].day = j.entries[b].day /\ a < b))
    IN  TLCEval([i \in 1..n |-> j.entries[idx[i]]])
\* The register: one block per entry that changes the assets, with the changes and the running
\* totals of the currencies that change.
RegisterStep(acc, e) ==
    LET ch == AssetChange(e)
        tot == FoldLeft(LAMBDA p, s : PoolAdd(p, Amt(ch[s], s)), acc.tot, SetToSeq(DOMAIN ch))
        nz == PoolNonZero(ch)
    IN  IF nz = {} THEN acc
        ELSE [tot |-> tot,
              rows |-> Append(acc.rows,
                 [day |-> e.day, status |-> e.status, desc |-> e.desc,
                  from |-> Side(e, -1), to |-> Side(e, 1),
                  amts |-> TLCEval([s \in nz |-> [m |-> ch[s], run |-> tot[s]]])])]
RegisterOf(j) == FoldLeft(RegisterStep, [tot |-> EmptyPool, rows |-> <<>>], ByDate(j)).rows
=============================================================================
