------------------------------ MODULE Amounts ------------------------------
(* Amounts: a number (an integer count of 10^-K units) and a currency name   *)
(* ("" is the native currency), and pools of amounts by currency.            *)
EXTENDS Calendar
CONSTANT K          \* decimal places carried by the numbers of this run; below zero: whole numbers,
                    \* and -K of their last digits are not carried

RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
SC == Pow10(K)

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
\* rounded quotient (half away from zero); q > 0
DivRound(p, q) ==
    LET d == Abs(p) \div q
        r == Abs(p) % q
        v == IF r >= q - r THEN d + 1 ELSE d
    IN  IF p < 0 THEN -v ELSE v
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a = 0 THEN 1 ELSE a) ELSE Gcd(b, a % b)
\* product of two scaled numbers, rounded; split and reduced to stay within 32 bits
MulScaled(a, b) ==
    LET hi == Abs(b) \div SC
        lo == Abs(b) % SC
        g  == Gcd(lo, SC)
        h  == Gcd(Abs(a), SC \div g)
        v  == a * hi + (IF lo = 0 THEN 0 ELSE DivRound((a \div h) * (lo \div g), (SC \div g) \div h))
    IN  IF b < 0 THEN -v ELSE v

Amt(m, s) == [m |-> m, s |-> s]
NoAmt == [some |-> FALSE, m |-> 0, s |-> ""]
SomeAmt(a) == [some |-> TRUE, m |-> a.m, s |-> a.s]
BadAmt == [ok |-> FALSE, a |-> Amt(0, "")]

\* [-]digits[.digits] with at least one digit
ParseNumber(t) ==
    LET neg  == StartsWith(t, "-")
        u    == IF neg THEN Drop(t, 1) ELSE t
        dots == {i \in 1..Len(u) : Ch(u, i) = "."}
        p    == IF dots = {} THEN Len(u) + 1 ELSE MinOf(dots)
        ip   == SubSeq(u, 1, p - 1)
        fp   == IF dots = {} THEN "" ELSE Drop(u, p)
        ok   == AllDigits(ip) /\ AllDigits(fp) /\ Len(ip) + Len(fp) > 0
        nz   == {i \in 1..Len(ip) : Ch(ip, i) # "0"}
        ip2  == IF nz = {} THEN "" ELSE Drop(ip, MinOf(nz) - 1)
        \* K < 0: the digits that count, and whether those below them make one more
        head == IF Len(ip2) > -K THEN SubSeq(ip2, 1, Len(ip2) + K) ELSE ""
        more == IF Len(ip2) >= -K /\ DigitVal[Ch(ip2, Len(ip2) + K + 1)] >= 5 THEN 1 ELSE 0
        keep == IF Len(fp) > K THEN SubSeq(fp, 1, K) ELSE fp
        up   == IF Len(fp) > K /\ DigitVal[Ch(fp, K + 1)] >= 5 THEN 1 ELSE 0
        \* numbers are below 2 * 10^9 units
        fits == Len(ip2) + K <= 9 \/ (Len(ip2) + K = 10 /\ Ch(ip2, 1) = "1")
        v    == IF K < 0 THEN (IF head = "" THEN 0 ELSE NatOf(head, 0)) + more
                ELSE (IF ip2 = "" THEN 0 ELSE NatOf(ip2, 0) * SC) + NatOf(keep, 0) * Pow10(K - Len(keep)) + up
    IN  IF ok /\ fits THEN [ok |-> TRUE, v |-> IF neg THEN -v ELSE v] ELSE [ok |-> FALSE, v |-> 0]

\* Reads an amount. `dec` is the decimal symbol. Digits, the decimal symbol and dashes form the
\* number; of the rest, everything but `.` and `,` forms the currency. Two dashes cancel out.
ParseAmount(text, dec) ==
    LET t    == Replace(text, "--", "")
        toks == Tokens(t)
        s    == Join(toks, " ")
        mag(c) == c \in DIGIT \/ c = dec \/ c = "-"
        cs   == Chars(s)
        num  == Concat(SelectSeq(cs, mag))
        num2 == IF dec = "." THEN num ELSE Replace(num, dec, ".")
        symc(c) == ~mag(c) /\ c # "." /\ c # ","
        sym  == Trim(Concat(SelectSeq(cs, symc)))
        n    == ParseNumber(num2)
    IN  IF Len(toks) \in {1, 2} /\ n.ok /\ ~HasSub(sym, "//")     \* (that would be a comment)
        THEN [ok |-> TRUE, a |-> Amt(n.v, sym)] ELSE BadAmt

----------------------------------------------------------------------------
EmptyPool == <<>>
PoolGet(p, s) == IF s \in DOMAIN p THEN p[s] ELSE 0
PoolAdd(p, a) == IF a.s \in DOMAIN p THEN [p EXCEPT ![a.s] = @ + a.m] ELSE p @@ (a.s :> a.m)
PoolSub(p, a) == PoolAdd(p, Amt(-a.m, a.s))
\* the currencies with a non-zero amount
PoolNonZero(p) == {s \in DOMAIN p : p[s] # 0}
=============================================================================
