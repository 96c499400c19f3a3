------------------------------ MODULE MC_Layout ------------------------------
(* One journal in every layout reachable by a few harmless edits (comments,  *)
(* blank lines, trailing white space, indentation, wider gaps, line ends)    *)
(* and cuts (a run of declarations and entries moved to an included file,    *)
(* at any depth): all of them mean the same.                                 *)
EXTENDS Journal, Json
CONSTANTS MaxEdits, MaxCuts, Emitting

Base == << <<"date_format %d.%m.%Y">>,
           <<"account assets:c", "  expense food due every friday", "    amount 50", "    for expenses:food",
             "    funding aggressive">>,
           <<"account expenses:food">>,
           <<"account income">>,
           <<"03.01.2025 * Shop two [Ann]", "  expenses:food 12.50", "  assets:c">>,
           <<"10.01.2025 ? Gold", "  assets:c 2 EUR @ $3", "  income -$6">>,
           <<"12.01.2025 ~ move", "  envelope assets:c food 4">> >>
NC == Len(Base)
Spots == {<<c, l>> : c \in 1..NC, l \in 1..5}
Lines0 == {x \in Spots : x[2] <= Len(Base[x[1]])}
Kinds == << "blank", "spaces", "comment", "slashes", "inner", "tail", "tail2", "trail", "cr", "indent", "gap" >>
\* the lines in order
SpotSeq == SetToSortSeq(Lines0, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Edits == TLCEval([e \in 1..(Len(SpotSeq) * Len(Kinds)) |->
            [at |-> SpotSeq[1 + ((e - 1) \div Len(Kinds))], k |-> Kinds[1 + ((e - 1) % Len(Kinds))]]])
\* inside an envelope only single spaces separate the words
InEnvelope(x) == x[1] = 2 /\ x[2] = 2
Allowed(e) == /\ (e.k = "indent" => e.at[2] > 1)
              /\ (e.k = "gap" => ~InEnvelope(e.at))

VARIABLES edits,      \* indices of the edits made, ascending
          tree,       \* files: [path, items]; an item is a chunk ([c]) or an include ([to, how])
          base, code
vars == <<edits, tree, base, code>>
MAIN == "/w/main.sfox"
Chunk(c) == [c |-> c, to |-> 0, how |-> 0]
Inc(t, h) == [c |-> 0, to |-> t, how |-> h]
BaseText == Concat([c \in 1..NC |-> Concat([l \in 1..Len(Base[c]) |-> Base[c][l] \o "\n"])])
Today == 20101   \* 2025-01-13

Init == /\ edits = <<>> /\ code = 1
        /\ tree = <<[path |-> MAIN, items |-> [c \in 1..NC |-> Chunk(c)]]>>
        /\ base = Load(MAIN :> BaseText, MAIN, Today)
\* where a new included file goes, and how it is written, seen from the directory /w or /w/sub
Ways == << [path |-> "/w/inc", up |-> "inc", sub |-> "../inc", oth |-> "../sub/../inc"],
           [path |-> "/w/sub/inc", up |-> "sub/inc", sub |-> "./inc", oth |-> "../sub/inc"],
           [path |-> "/w/oth/inc", up |-> "./sub/../oth/inc", sub |-> "../oth/inc", oth |-> "inc"],
           [path |-> "/w/sub/abs", up |-> "/w/sub/abs", sub |-> "/w/sub/abs", oth |-> "/w/sub/abs"] >>
PathOf(t) == Ways[t.how].path \o ToString(t.to) \o ".sfox"
WrittenIn(dir, t) == (CASE dir = "/w" -> Ways[t.how].up [] dir = "/w/sub" -> Ways[t.how].sub [] OTHER -> Ways[t.how].oth) \o ToString(t.to) \o ".sfox"
Edit == /\ Len(edits) < MaxEdits
        /\ \E e \in 1..Len(Edits) :
              /\ Allowed(Edits[e])
              /\ (edits # <<>> => e > edits[Len(edits)])
              /\ edits' = Append(edits, e)
              /\ code' = (code * 31 + e) % 1000003
        /\ UNCHANGED <<tree, base>>
Cut == /\ Len(tree) <= MaxCuts /\ edits = <<>>
       /\ \E f \in 1..Len(tree), w \in 1..Len(Ways) :
            \E a \in 1..(Len(tree[f].items) + 1) : \E b \in (a - 1)..Len(tree[f].items) :
              LET its == tree[f].items
                  new == Inc(Len(tree) + 1, w)
              IN  \* only the one cut of nothing
                  /\ (b = a - 1) => (w = 1 /\ Len(tree) = 1)
                  /\ tree' = Append([tree EXCEPT ![f].items = SubSeq(its, 1, a - 1) \o <<new>> \o SubSeq(its, b + 1, Len(its))],
                                    [path |-> PathOf(new), items |-> SubSeq(its, a, b)])
                  /\ code' = (code * 31 + f * 1000 + w * 200 + a * 12 + b) % 1000003
       /\ UNCHANGED <<edits, base>>
Next == Edit \/ Cut
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
On(c, l, k) == \E i \in 1..Len(edits) : Edits[edits[i]].at = <<c, l>> /\ Edits[edits[i]].k = k
Wider(s) == \* a wider gap after the first word, and a tab after the last but one
    LET nw == NonWs(s)
        I == {i \in 1..Len(s) : Ch(s, i) \in WS /\ i > MinOf(nw)}
    IN  IF I = {} THEN s ELSE SubSeq(s, 1, MinOf(I) - 1) \o "   " \o SubSeq(s, MinOf(I), Len(s))
LineText(c, l) ==
    LET s0 == Base[c][l]
        s1 == IF On(c, l, "indent") THEN "\t   " \o s0 ELSE s0
        s2 == IF On(c, l, "gap") THEN Wider(s1) ELSE s1
        s3 == s2 \o (IF On(c, l, "tail") THEN " ; 5 // [x]" ELSE "") \o (IF On(c, l, "tail2") THEN "//9 ; *" ELSE "")
                 \o (IF On(c, l, "trail") THEN " \t " ELSE "") \o (IF On(c, l, "cr") THEN "\r" ELSE "") \o "\n"
    IN  (IF On(c, l, "blank") THEN "\n\n" ELSE "") \o (IF On(c, l, "spaces") THEN "   \t\n" ELSE "")
        \o (IF On(c, l, "comment") THEN "; 01.01.2025 * no\n" ELSE "") \o (IF On(c, l, "slashes") THEN "//account no\n" ELSE "")
        \o (IF On(c, l, "inner") THEN "   ; assets:c 5\n" ELSE "") \o s3
ChunkText(c) == Concat([l \in 1..Len(Base[c]) |-> LineText(c, l)])
ItemText(dir, t) == IF t.to > 0 THEN "include " \o WrittenIn(dir, t) \o "\n" ELSE ChunkText(t.c)
Files == TLCEval([p \in {tree[f].path : f \in 1..Len(tree)} |->
            LET f == CHOOSE f \in 1..Len(tree) : tree[f].path = p
            IN  Concat([i \in 1..Len(tree[f].items) |-> ItemText(DirOf(p), tree[f].items[i])])])
\* the whole journal, whatever the layout
Same == Load(Files, MAIN, Today) = base
BaseRight == base.ok /\ Len(base.entries) = 3 /\ Cardinality(DOMAIN base.accts) = 3
\* an included file that isn't there is an error
Missing == \A f \in 2..Len(tree) :
    ~Load(TLCEval([p \in (DOMAIN Files) \ {tree[f].path} |-> Files[p]]), MAIN, Today).ok
EmitCase == (Emitting > 0 /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([files |-> Files, cuts |-> Len(tree) - 1, nedits |-> Len(edits)])>>)
=============================================================================
