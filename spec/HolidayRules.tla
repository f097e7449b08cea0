---------------------------- MODULE HolidayRules ----------------------------
(***************************************************************************)
(* Vocabulary of holiday rules.  A year is a context c (see Year); a rule  *)
(* denotes the set of days of that year it closes, as day-of-year numbers  *)
(* (numbers outside the year are cut off when the rules are put together). *)
(***************************************************************************)
EXTENDS Computus, FiniteSets

Mon == 1  Tue == 2  Wed == 3  Thu == 4  Fri == 5  Sat == 6  Sun == 7

Year(y) ==
  [y   |-> y,
   w1  |-> WeekdayOfSerial(SerialYMD(y, 1, 1)),
   len |-> DaysInYear(y),
   cum |-> [m \in 1..12 |-> DaysBeforeMonth(y, m)],
   em  |-> EasterMonday(y),
   oem |-> OrthodoxEasterMonday(y)]

Day(c, m, d) == c.cum[m] + d
WD(c, o) == ((c.w1 + o - 2) % 7) + 1
Weekend(c) == {o \in 1..c.len : WD(c, o) >= 6}

(* --- when a rule is in force ------------------------------------------- *)
Since(c, y, S) == IF c.y >= y THEN S ELSE {}
Till(c, y, S) == IF c.y <= y THEN S ELSE {}
During(c, y1, y2, S) == IF c.y >= y1 /\ c.y <= y2 THEN S ELSE {}
In(c, Y, S) == IF c.y \in Y THEN S ELSE {}
NotIn(c, Y, S) == IF c.y \in Y THEN {} ELSE S

(* --- days --------------------------------------------------------------- *)
On(c, m, d) == {Day(c, m, d)}
OnDays(c, m, D) == {Day(c, m, d) : d \in D}
Fixed(c, MD) == {Day(c, x[1], x[2]) : x \in MD}
Easter(c, K) == {c.em + k : k \in K}           \* counted from Easter Monday
OrthodoxEasterDays(c, K) == {c.oem + k : k \in K}
GoodFriday(c) == {c.em - 3}
EasterMon(c) == {c.em}

\* the weekday w that falls on one of the days a..b of month m
WeekdayWithin(c, m, a, b, w) == {o \in Day(c, m, a)..Day(c, m, b) : WD(c, o) = w}
Nth(c, m, n, w) == WeekdayWithin(c, m, 7 * n - 6, 7 * n, w)
LastWeekday(c, m, w) ==
  LET n == DaysInMonth(c.y, m) IN WeekdayWithin(c, m, n - 6, n, w)

(* --- substitutes for holidays that fall on a weekend -------------------- *)
SunToMon(c, m, d) ==
  LET o == Day(c, m, d) IN {o} \cup (IF WD(c, o) = Sun THEN {o + 1} ELSE {})
SatToMon(c, m, d) ==
  LET o == Day(c, m, d) IN {o} \cup (IF WD(c, o) = Sat THEN {o + 2} ELSE {})
WkndToMon(c, m, d) == SunToMon(c, m, d) \cup SatToMon(c, m, d)
SatToFri(c, m, d) ==
  LET o == Day(c, m, d) IN {o} \cup (IF WD(c, o) = Sat THEN {o - 1} ELSE {})
Nearest(c, m, d) == SunToMon(c, m, d) \cup SatToFri(c, m, d)
\* of two holidays in a row both are kept: Saturday and Sunday move by two days
TwoOn(c, m, d) ==
  LET o == Day(c, m, d) IN {o} \cup (IF WD(c, o) >= Sat THEN {o + 2} ELSE {})

(* --- tables of announced days ------------------------------------------- *)
\* t is a sequence of <<year, <<mmdd, ...>>>>
RECURSIVE TableDays(_, _, _)
TableDays(c, t, k) ==
  IF k > Len(t) THEN {}
  ELSE IF t[k][1] = c.y
       THEN {Day(c, t[k][2][i] \div 100, t[k][2][i] % 100) : i \in 1..Len(t[k][2])}
       ELSE TableDays(c, t, k + 1)
Announced(c, t) == TableDays(c, t, 1)
=============================================================================
