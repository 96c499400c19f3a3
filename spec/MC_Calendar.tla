----------------------------- MODULE MC_Calendar -----------------------------
(* Due dates, day by day: the algorithms of Calendar.tla against what it     *)
(* means for a day to be due, for a set of schedules, on every day of a      *)
(* range. Every state is emitted with the due dates it implies; the harness  *)
(* runs the real program on that day with all these schedules.               *)
EXTENDS Envelopes, Json
CONSTANTS First, Final,    \* the days explored
          Full             \* the larger set of schedules?

D(y, m, d) == DayNum(y, m, d)
Starts == {D(2023, 12, 31), D(2024, 1, 1), D(2024, 1, 29), D(2024, 1, 30), D(2024, 1, 31), D(2024, 2, 29),
           D(2024, 3, 31), D(2024, 8, 31), D(2023, 6, 15), D(2024, 11, 30), D(2024, 12, 31), D(2025, 2, 28)}
    \cup (IF Full THEN {D(2020, 2, 29), D(2000, 2, 29), D(1999, 12, 31), D(2022, 12, 30), D(2096, 2, 29),
                        D(2025, 7, 4), D(2021, 5, 31), D(2003, 9, 1)} ELSE {})
SetFreqs == {Freq("weekly", w, 0, 0) : w \in 0..6}
     \cup {Freq("monthly", 0, d, 0) : d \in 1..31}
     \cup {Freq(k, 0, 0, s) : k \in {"once", "biweekly", "bimonthly", "annually"}, s \in Starts}
     \cup {Freq("never", 0, 0, 0)}
Freqs == SetToSeq(SetFreqs)

\* a schedule as it is written in a journal
FreqText(f) ==
    LET date == FormatDate("%Y/%m/%d", f.s)
        dom == ToString(Civil(f.s).d)
        wd == WeekdayNames[Weekday(f.s) + 1][2]
    IN  CASE f.k = "never" -> "no date"
          [] f.k = "once" -> "by " \o date
          [] f.k = "weekly" -> "due every " \o WeekdayNames[f.w + 1][2]
          [] f.k = "monthly" -> "due every " \o ToString(f.d)
          [] f.k = "biweekly" -> "due every other " \o wd \o " starting " \o date
          [] f.k = "bimonthly" -> "due every other " \o dom \o " starting " \o date
          [] f.k = "annually" -> "due every year starting " \o date

VARIABLE today
\* day after day, from several days at once
Init == today \in {First + 50 * i : i \in 0..((Final - First) \div 50)}
Next == today < Final /\ (today - First) % 50 # 49 /\ today' = today + 1
Spec == Init /\ [][Next]_today

FMT == {"%Y/%m/%d", "%d.%m.%Y", "%m/%d/%Y", "%Y%m%d", "%d-%b-%Y", "%B/%-d/%Y", "%Y-%j", "%F"} \cup
       (IF today < 36524 THEN {"%D", "%y%m%d"} ELSE {})     \* 2069 is the last of the years of two digits
DatesInverse ==
    LET c == Civil(today)
    IN  /\ ValidDate(c.y, c.m, c.d) /\ DayNum(c.y, c.m, c.d) = today
        /\ Civil(today + 1) \in {[c EXCEPT !.d = @ + 1], [c EXCEPT !.m = @ + 1, !.d = 1], [y |-> c.y + 1, m |-> 1, d |-> 1]}
        /\ \A fm \in FMT : ParseDate(fm, FormatDate(fm, today)) = [ok |-> TRUE, day |-> today]
\* the next due date is due, is ahead, and nothing before it is due
NextRight ==
    \A i \in 1..Len(Freqs) :
        LET f == Freqs[i]
            n == NextDue(f, today)
        IN  /\ n # NODATE => n > today /\ IsDue(f, n)
            /\ IF IsDue(f, today + 1) THEN n = today + 1 ELSE n = NextDue(f, today + 1)
\* the last due date of a schedule that has begun is due, has come, and nothing since is due
LastRight ==
    \A i \in 1..Len(Freqs) :
        LET f == Freqs[i]
            l == LastDue(f, today)
            begun == f.k \in {"weekly", "monthly"} \/ f.s <= today
        IN  (f.k # "never" /\ begun) =>
              /\ l # NODATE /\ l <= today /\ IsDue(f, l)
              /\ IsDue(f, today) => l = today
              /\ ~IsDue(f, today) => l = LastDue(f, today - 1)
\* what is written in the journal is read back as the schedule
TextRight ==
    today = First =>
    \A i \in 1..Len(Freqs) :
        LET f == Freqs[i]
            e == ParseEnvHeader("expense x " \o FreqText(f), "a", "%Y/%m/%d")
        IN  e.ok /\ e.v.freq = f

\* Money moved into an envelope is ready now if a due date has come since, and saved for the next
\* one otherwise: moves of 1, 2 and 4 on the days around the last due date.
Begun(f) == f.k \in {"never", "weekly", "monthly", "once"} \/ f.s <= today
Pivot(f) == LET l == LastDue(f, today) IN IF l = NODATE THEN today - 1 ELSE l
Held3(f) ==
    LET e0 == [freq |-> f, now |-> 0, next |-> 0, touched |-> FALSE]
        e1 == ApplyAmt(e0, 1, Pivot(f) - 1, today)
        e2 == ApplyAmt(e1, 2, Pivot(f), today)
        e3 == ApplyAmt(e2, 4, Pivot(f) + 1, today)
    IN  <<e3.now, e3.next>>
DueSince(f, n) == IF f.k = "once" THEN n < f.s /\ f.s <= today ELSE \E d \in (n + 1)..today : IsDue(f, d)
SplitRight ==
    today % 5 = 0 =>
    \A i \in 1..Len(Freqs) :
        LET f == Freqs[i]
            ready(n, m) == IF DueSince(f, n) THEN m ELSE 0
            l == Pivot(f)
            now == ready(l - 1, 1) + ready(l, 2) + ready(l + 1, 4)
        IN  Begun(f) => Held3(f) = <<now, 7 - now>>

DueText(n) == IF n = NODATE THEN "" ELSE FormatDate("%Y-%m-%d", n)
EmitCase ==
    /\ today = First => PrintT(<<"CASE", ToJson([texts |-> [i \in 1..Len(Freqs) |-> FreqText(Freqs[i])]])>>)
    /\ PrintT(<<"CASE", ToJson([today |-> today,
          due |-> [i \in 1..Len(Freqs) |->
            DueText(EnvNextDue([freq |-> Freqs[i], start |-> IF Freqs[i].k \in {"never", "once", "weekly", "monthly"}
                                                           THEN NODATE ELSE Freqs[i].s], today))],
          pivot |-> [i \in 1..Len(Freqs) |-> IF Begun(Freqs[i]) THEN Pivot(Freqs[i]) ELSE NODATE],
          held |-> [i \in 1..Len(Freqs) |-> Held3(Freqs[i])]])>>)
=============================================================================
