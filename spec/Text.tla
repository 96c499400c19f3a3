------------------------------- MODULE Text -------------------------------
(* Text as silverfox reads it: strings, lines, tokens, comments.             *)
(* Strings are TLA+ strings; TLC can take them apart with Len and SubSeq.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

WS == {" ", "\t", "\r", "\f"}
DIGIT == {"0","1","2","3","4","5","6","7","8","9"}

Ch(s, i) == SubSeq(s, i, i)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Asc(S)   == SetToSortSeq(S, LAMBDA a, b : a < b)

\* the characters of s as a sequence of one-character strings
Chars(s) == TLCEval([i \in 1..Len(s) |-> Ch(s, i)])
\* the string made of a sequence of strings
Concat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
Join(q, sep) ==
    IF Len(q) = 0 THEN ""
    ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, q[1], Tail(q))

\* positions at which pat occurs in s
Occ(s, pat) == {i \in 1..(Len(s) - Len(pat) + 1) : SubSeq(s, i, i + Len(pat) - 1) = pat}
HasSub(s, pat) == Occ(s, pat) # {}
StartsWith(s, pat) == Len(s) >= Len(pat) /\ SubSeq(s, 1, Len(pat)) = pat
Drop(s, n) == SubSeq(s, n + 1, Len(s))

NonWs(s) == {i \in 1..Len(s) : Ch(s, i) \notin WS}
Trim(s) == LET I == NonWs(s) IN IF I = {} THEN "" ELSE SubSeq(s, MinOf(I), MaxOf(I))
TrimStart(s) == LET I == NonWs(s) IN IF I = {} THEN "" ELSE SubSeq(s, MinOf(I), Len(s))
TrimEnd(s) == LET I == NonWs(s) IN IF I = {} THEN "" ELSE SubSeq(s, 1, MaxOf(I))
IsBlank(s) == NonWs(s) = {}

Tokens(s) ==
    LET n == Len(s)
        nw == NonWs(s)
        st == Asc({i \in nw : (i - 1) \notin nw})
        en == Asc({i \in nw : (i + 1) \notin nw})
    IN  TLCEval([j \in 1..Len(st) |-> SubSeq(s, st[j], en[j])])

\* Lines of a text: separated by newlines; a final newline does not start another line; a
\* carriage return in front of a newline belongs to it.
Lines(s) ==
    LET n  == Len(s)
        nl == Asc({i \in 1..n : Ch(s, i) = "\n"})
        k  == Len(nl)
        from(j) == IF j = 1 THEN 1 ELSE nl[j - 1] + 1
        to(j)   == IF j <= k THEN nl[j] - 1 ELSE n
        raw(j)  == SubSeq(s, from(j), to(j))
        cut(t)  == IF Len(t) > 0 /\ Ch(t, Len(t)) = "\r" THEN SubSeq(t, 1, Len(t) - 1) ELSE t
        cnt == IF k > 0 /\ nl[k] = n THEN k ELSE IF n = 0 THEN 0 ELSE k + 1
    IN  TLCEval([j \in 1..cnt |-> IF j <= k THEN cut(raw(j)) ELSE raw(j)])

\* The order of the characters: those of ASCII by their code, then all others.
ORDER == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RANK == [c \in {Ch(ORDER, i) : i \in 1..Len(ORDER)} |-> CHOOSE i \in 1..Len(ORDER) : Ch(ORDER, i) = c]
Rank(c) == IF c \in DOMAIN RANK THEN RANK[c] ELSE Len(ORDER) + 1
\* is a at its place in front of b, as far as that order tells?
NotAfter(a, b) ==
    LET D == {i \in 1..Len(a) : i > Len(b) \/ Ch(a, i) # Ch(b, i)}
        i == MinOf(D)
    IN  D = {} \/ (i <= Len(b) /\ Rank(Ch(a, i)) <= Rank(Ch(b, i)))

\* a comment starts at the first `;` or `//`
StripComment(s) ==
    LET I == Occ(s, "//") \cup {i \in 1..Len(s) : Ch(s, i) = ";"}
    IN  IF I = {} THEN s ELSE SubSeq(s, 1, MinOf(I) - 1)

\* replaces every (leftmost, non-overlapping) occurrence of pat in s by new
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, pat, new, acc) ==
    LET I == Occ(s, pat)
    IN  IF I = {} THEN acc \o s
        ELSE LET i == MinOf(I)
             IN  ReplaceFrom(Drop(s, i + Len(pat) - 1), pat, new, acc \o SubSeq(s, 1, i - 1) \o new)
Replace(s, pat, new) == IF HasSub(s, pat) THEN ReplaceFrom(s, pat, new, "") ELSE s

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZÀÁÂÃÄÅÆÇÈÉÊËÌÍÎÏÐÑÒÓÔÕÖØÙÚÛÜÝÞŁŠŽŒĞАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΤΥΦΧΨΩ"
Lower == "abcdefghijklmnopqrstuvwxyzàáâãäåæçèéêëìíîïðñòóôõöøùúûüýþłšžœğабвгдежзийклмнопрстуфхцчшщъыьэюяαβγδεζηθικλμνξοπρτυφχψω"
UpperSet == {Ch(Upper, i) : i \in 1..Len(Upper)}
LowerOf == [c \in UpperSet |-> Ch(Lower, CHOOSE i \in 1..Len(Upper) : Ch(Upper, i) = c)]
ToLower(s) ==
    IF \A i \in 1..Len(s) : Ch(s, i) \notin UpperSet THEN s
    ELSE Concat([i \in 1..Len(s) |-> LET c == Ch(s, i) IN IF c \in UpperSet THEN LowerOf[c] ELSE c])

DigitVal == [c \in DIGIT |-> CHOOSE v \in 0..9 : ToString(v) = c]
\* the number written by a sequence of digit characters (at most 9 of them)
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc ELSE NatOf(Drop(s, 1), acc * 10 + DigitVal[Ch(s, 1)])
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in DIGIT

\* paths: absolute, made of components separated by "/"
RECURSIVE NormComps(_, _)
NormComps(comps, acc) ==
    IF comps = <<>> THEN acc
    ELSE LET c == Head(comps)
         IN  NormComps(Tail(comps),
                CASE c = "" \/ c = "." -> acc
                  [] c = ".." -> IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1)
                  [] OTHER -> Append(acc, c))
SplitOn(s, c) ==
    LET ps == Asc({i \in 1..Len(s) : Ch(s, i) = c})
        k == Len(ps)
        from(j) == IF j = 1 THEN 1 ELSE ps[j - 1] + 1
        to(j) == IF j <= k THEN ps[j] - 1 ELSE Len(s)
    IN  TLCEval([j \in 1..(k + 1) |-> SubSeq(s, from(j), to(j))])
AbsPath(dir, p) ==
    LET full == IF StartsWith(p, "/") THEN p ELSE dir \o "/" \o p
    IN  "/" \o Join(NormComps(SplitOn(full, "/"), <<>>), "/")
DirOf(p) == \* p absolute and normalised
    LET cs == SplitOn(p, "/") IN
    IF Len(cs) <= 2 THEN "/" ELSE Join(SubSeq(cs, 1, Len(cs) - 1), "/")
=============================================================================
