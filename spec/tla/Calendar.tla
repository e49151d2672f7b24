------------------------------ MODULE Calendar ------------------------------
(* The Gregorian calendar as an odometer (C01), walked one day at a time from
   First to the end of year Last, and the clock, walked one second at a time
   through one day.  The odometers know nothing of day-count formulas; the law
   DayCount says that the rule book of leap years gives the same count.
   TLC prints every state; harness/table.py puts each into the code. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Year1, Month1, Day1, Count1,   \* a date and its modified Julian day plus a million
          Last, Clock                    \* last year; TRUE: walk the clock instead

VARIABLES y, m, d, day, h, mi, s
vars == <<y, m, d, day, h, mi, s>>

Leap(yy) == yy % 4 = 0 /\ (yy % 100 # 0 \/ yy % 400 = 0)
Length(yy, mm) == IF mm = 2 THEN IF Leap(yy) THEN 29 ELSE 28
                  ELSE IF mm \in {4, 6, 9, 11} THEN 30 ELSE 31

Init == /\ y = Year1 /\ m = Month1 /\ d = Day1 /\ day = Count1 - 1000000
        /\ h = 0 /\ mi = 0 /\ s = 0

Tomorrow == /\ day' = day + 1
            /\ IF d < Length(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
               ELSE /\ d' = 1
                    /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
                       ELSE m' = 1 /\ y' = y + 1
            /\ y' <= Last
            /\ UNCHANGED <<h, mi, s>>

Second == /\ IF s < 59 THEN s' = s + 1 /\ UNCHANGED <<mi, h>>
             ELSE /\ s' = 0
                  /\ IF mi < 59 THEN mi' = mi + 1 /\ UNCHANGED h
                     ELSE mi' = 0 /\ h' = h + 1
          /\ h' <= 23
          /\ UNCHANGED <<y, m, d, day>>

Next == IF Clock THEN Second ELSE Tomorrow
Spec == Init /\ [][Next]_vars

\* the code is given the date, the time, and the instant in seconds since the start of MJD `day`
Log == PrintT(ToJson(<<y, m, d, h, mi, s, day, (h * 60 + mi) * 60 + s>>))
Logged == Log = TRUE

------------------------------------------------------------------------------
TypeOK == /\ m \in 1..12 /\ d \in 1..Length(y, m)
          /\ h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
\* days of the whole years before, plus one per leap year, plus the months before
Leaps(yy) == (yy - 1) \div 4 - (yy - 1) \div 100 + (yy - 1) \div 400
RECURSIVE Months(_, _)
Months(yy, mm) == IF mm = 1 THEN 0 ELSE Length(yy, mm - 1) + Months(yy, mm - 1)
DayCount == day = 365 * (y - 1858) + Leaps(y) - Leaps(1858) + Months(y, m) + d - 1 - 320
\* a day has 86400 seconds, each of them once
Seconds == [][Clock => h' * 3600 + mi' * 60 + s' = h * 3600 + mi * 60 + s + 1]_vars
\* 400 years are exactly 20871 weeks: the calendar repeats
Cycle == 365 * 400 + Leaps(y + 400) - Leaps(y) = 146097 /\ 146097 = 7 * 20871
==============================================================================
