----------------------------- MODULE Calendar -----------------------------
(* The proleptic Gregorian calendar and the due dates of envelopes.          *)
(* A date is the number of days since 1970-01-01.                            *)
EXTENDS Text

DayNum(y, m, d) ==
    LET yy  == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        doy == (153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5 + d - 1
        doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
    IN  era * 146097 + doe - 719468

Civil(n) ==
    LET z   == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp  == (5 * doy + 2) \div 153
        d   == doy - ((153 * mp + 2) \div 5) + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  [y |-> y, m |-> m, d |-> d]

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) ==
    IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
    ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == y >= 0 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
\* Monday = 0
Weekday(n) == (n + 3) % 7

\* a day of the month, or the month's last day if there is no such day
DayInMonth(y, m, d) ==
    IF d >= 1 /\ d <= MonthLen(y, m) THEN DayNum(y, m, d) ELSE DayNum(y, m, MonthLen(y, m))
\* the same with months counted from year 0
DayInMonthNo(mn, d) == DayInMonth(mn \div 12, (mn % 12) + 1, d)
MonthNo(c) == c.y * 12 + c.m - 1

----------------------------------------------------------------------------
(* Frequencies: [k |-> kind, w |-> weekday, d |-> day of month, s |-> date]   *)
Freq(k, w, d, s) == [k |-> k, w |-> w, d |-> d, s |-> s]
NODATE == -1000000000

\* What it means for day n to be due (declarative; bounded models check the algorithms below
\* against it).
IsDue(f, n) ==
    LET c == Civil(n) sc == Civil(f.s) IN
    CASE f.k = "never"     -> FALSE
      [] f.k = "once"      -> n = f.s
      [] f.k = "weekly"    -> Weekday(n) = f.w
      [] f.k = "biweekly"  -> n >= f.s /\ (n - f.s) % 14 = 0
      [] f.k = "monthly"   -> n = DayInMonth(c.y, c.m, f.d)
      [] f.k = "bimonthly" -> n >= f.s /\ (MonthNo(c) - MonthNo(sc)) % 2 = 0
                                      /\ n = DayInMonth(c.y, c.m, sc.d)
      [] f.k = "annually"  -> n >= f.s /\ c.m = sc.m /\ n = DayInMonth(c.y, c.m, sc.d)

\* the earliest due date after today
NextDue(f, today) ==
    LET c == Civil(today) sc == Civil(f.s) IN
    CASE f.k = "never"     -> NODATE
      [] f.k = "once"      -> IF f.s <= today THEN NODATE ELSE f.s
      [] f.k = "weekly"    -> today + 1 + ((f.w - Weekday(today + 1)) % 7)
      [] f.k = "biweekly"  -> IF f.s > today THEN f.s
                              ELSE f.s + 14 * (((today - f.s) \div 14) + 1)
      [] f.k = "monthly"   -> LET mn == MonthNo(c) a == DayInMonthNo(mn, f.d)
                              IN  IF a > today THEN a ELSE DayInMonthNo(mn + 1, f.d)
      [] f.k = "bimonthly" -> IF f.s > today THEN f.s
                              ELSE LET md == MonthNo(c) - MonthNo(sc)
                                       e  == md - (md % 2)
                                       a  == DayInMonthNo(MonthNo(sc) + e, sc.d)
                                   IN  IF a > today THEN a
                                       ELSE DayInMonthNo(MonthNo(sc) + e + 2, sc.d)
      [] f.k = "annually"  -> IF f.s > today THEN f.s
                              ELSE LET a == DayInMonth(c.y, sc.m, sc.d)
                                   IN  IF a > today THEN a ELSE DayInMonth(c.y + 1, sc.m, sc.d)

\* the due date one period before the next one; for a past one-time date, that date
LastDue(f, today) ==
    LET n == NextDue(f, today)
        c == Civil(n)
        sc == Civil(f.s)
    IN
    IF n = NODATE THEN (IF f.k = "once" THEN f.s ELSE NODATE)
    ELSE CASE f.k = "weekly"    -> n - 7
           [] f.k = "biweekly"  -> n - 14
           [] f.k = "monthly"   -> DayInMonthNo(MonthNo(c) - 1, f.d)
           [] f.k = "bimonthly" -> DayInMonthNo(MonthNo(c) - 2, sc.d)
           [] f.k = "annually"  -> DayInMonth(c.y - 1, sc.m, sc.d)
           [] OTHER -> NODATE

----------------------------------------------------------------------------
(* Dates in text, under a format made of %Y %y %m %b %h %B %d %j, %F (%Y-%m-%d), %D (%m/%d/%y), %% and     *)
(* other characters; a dash after the percent sign leaves leading zeros out  *)
NoDay == [ok |-> FALSE, day |-> 0]

\* number of digits at the start of s, at most n
DigitRun(s, n) ==
    LET m == IF Len(s) < n THEN Len(s) ELSE n
        bad == {i \in 1..m : Ch(s, i) \notin DIGIT}
    IN  IF bad = {} THEN m ELSE MinOf(bad) - 1

MonthNames == <<"january", "february", "march", "april", "may", "june", "july", "august", "september",
                "october", "november", "december">>
MonthShort == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Capital(s) == CASE Ch(s, 1) = "j" -> "J" [] Ch(s, 1) = "f" -> "F" [] Ch(s, 1) = "m" -> "M" [] Ch(s, 1) = "a" -> "A"
                [] Ch(s, 1) = "s" -> "S" [] Ch(s, 1) = "o" -> "O" [] Ch(s, 1) = "n" -> "N" [] OTHER -> "D"
MonthLong(i) == Capital(MonthNames[i]) \o Drop(MonthNames[i], 1)
\* the months whose short name s starts with
MonthsAt(s) == {i \in 1..12 : StartsWith(ToLower(s), SubSeq(MonthNames[i], 1, 3))}

Plain(fmt) == Replace(Replace(fmt, "%F", "%Y-%m-%d"), "%D", "%m/%d/%y")
NumWidth(c) == CASE c = "Y" -> 4 [] c = "j" -> 3 [] OTHER -> 2

RECURSIVE ScanDate(_, _, _)
ScanDate(fmt, s, got) ==
    LET no == [got EXCEPT !.ok = FALSE]
        f  == IF StartsWith(fmt, "%-") THEN Ch(fmt, 3) ELSE IF Len(fmt) >= 2 THEN Ch(fmt, 2) ELSE ""
        fr == Drop(fmt, IF StartsWith(fmt, "%-") THEN 3 ELSE 2)     \* what comes after it
    IN
    IF fmt = "" THEN (IF s = "" THEN got ELSE no)
    ELSE IF Ch(fmt, 1) = "%" /\ f \in {"Y", "y", "m", "d", "j"} THEN
        LET t == TrimStart(s)     \* a number may have space before it
            n == DigitRun(t, NumWidth(f))
            v == NatOf(SubSeq(t, 1, n), 0)
        IN  IF n = 0 THEN no
            ELSE ScanDate(fr, Drop(t, n),
                   CASE f = "Y" -> [got EXCEPT !.y = v]
                     [] f = "y" -> [got EXCEPT !.y = IF v < 70 THEN 2000 + v ELSE 1900 + v]
                     [] f = "m" -> [got EXCEPT !.m = v]
                     [] f = "d" -> [got EXCEPT !.d = v]
                     [] f = "j" -> [got EXCEPT !.j = v])
    ELSE IF Ch(fmt, 1) = "%" /\ f \in {"b", "h", "B"} THEN
        LET M == MonthsAt(s)
            i == MinOf(M)
        IN  IF M = {} THEN no
            ELSE ScanDate(fr, Drop(s, IF f = "B" /\ StartsWith(ToLower(s), MonthNames[i]) THEN Len(MonthNames[i]) ELSE 3),
                          [got EXCEPT !.m = i])
    ELSE IF StartsWith(fmt, "%%") THEN (IF StartsWith(s, "%") THEN ScanDate(Drop(fmt, 2), Drop(s, 1), got) ELSE no)
    ELSE IF Ch(fmt, 1) \in WS THEN ScanDate(TrimStart(fmt), TrimStart(s), got)     \* any space, or none
    ELSE IF s # "" /\ Ch(s, 1) = Ch(fmt, 1) THEN ScanDate(Drop(fmt, 1), Drop(s, 1), got)
    ELSE no

ParseDate(fmt, s) ==
    LET r == ScanDate(Plain(fmt), s, [ok |-> TRUE, y |-> -1, m |-> 0, d |-> 0, j |-> 0])
    IN  IF ~r.ok \/ r.y < 0 THEN NoDay
        ELSE IF ValidDate(r.y, r.m, r.d) /\ (r.j # 0 => DayNum(r.y, r.m, r.d) = DayNum(r.y, 1, 1) + r.j - 1)
             THEN [ok |-> TRUE, day |-> DayNum(r.y, r.m, r.d)]
        \* the day of the year alone is enough
        ELSE IF r.j \in 1..(DayNum(r.y, 12, 31) - DayNum(r.y, 1, 1) + 1) /\ r.m = 0 /\ r.d = 0
             THEN [ok |-> TRUE, day |-> DayNum(r.y, 1, 1) + r.j - 1]
        ELSE NoDay

Pad(n, w) == LET t == ToString(n) IN Concat([i \in 1..(w - Len(t)) |-> "0"]) \o t
RECURSIVE Fields(_, _, _)
Fields(fmt, n, c) ==
    LET bare == StartsWith(fmt, "%-")
        f  == IF bare THEN Ch(fmt, 3) ELSE IF Len(fmt) >= 2 THEN Ch(fmt, 2) ELSE ""
        fr == Drop(fmt, IF bare THEN 3 ELSE 2)
        num(v, w) == IF bare THEN ToString(v) ELSE Pad(v, w)
    IN  IF fmt = "" THEN ""
        ELSE IF Ch(fmt, 1) # "%" \/ f \notin {"Y", "y", "m", "d", "j", "b", "h", "B", "%"} THEN Ch(fmt, 1) \o Fields(Drop(fmt, 1), n, c)
        ELSE (CASE f = "Y" -> num(c.y, 4)
                [] f = "y" -> num(c.y % 100, 2)
                [] f = "m" -> num(c.m, 2)
                [] f = "d" -> num(c.d, 2)
                [] f = "j" -> num(n - DayNum(c.y, 1, 1) + 1, 3)
                [] f = "%" -> "%"
                [] f = "B" -> MonthLong(c.m)
                [] OTHER   -> MonthShort[c.m]) \o Fields(fr, n, c)
FormatDate(fmt, n) == Fields(Plain(fmt), n, Civil(n))
=============================================================================
