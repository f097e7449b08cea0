------------------------------- MODULE Civil --------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar, twice: as a state machine that moves  *)
(* from a day to the next or previous one, and as closed formulas.  MCCivil *)
(* checks that the formulas describe the machine.                           *)
(*                                                                         *)
(* A day is a tuple <<y, m, d>>; "no day" is the empty tuple.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

MinYear == -262143
MaxYear == 262142

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

DaysInMonth(y, m) ==
  CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
    [] m \in {4, 6, 9, 11} -> 30
    [] m = 2 -> IF IsLeap(y) THEN 29 ELSE 28

DaysInYear(y) == IF IsLeap(y) THEN 366 ELSE 365

ValidYMD(y, m, d) ==
  /\ y >= MinYear /\ y <= MaxYear
  /\ m >= 1 /\ m <= 12
  /\ d >= 1
  /\ d <= DaysInMonth(y, m)

MinDay == <<MinYear, 1, 1>>
MaxDay == <<MaxYear, 12, 31>>

(* --- the machine ------------------------------------------------------- *)
Succ(x) ==
  IF x = MaxDay THEN <<>>
  ELSE IF x[3] < DaysInMonth(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>>
  ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>>
  ELSE <<x[1] + 1, 1, 1>>

Pred(x) ==
  IF x = MinDay THEN <<>>
  ELSE IF x[3] > 1 THEN <<x[1], x[2], x[3] - 1>>
  ELSE IF x[2] > 1 THEN <<x[1], x[2] - 1, DaysInMonth(x[1], x[2] - 1)>>
  ELSE <<x[1] - 1, 12, 31>>

(* --- the formulas ------------------------------------------------------ *)
DaysBeforeYear(y) ==                 \* days from 0001-01-01 to y-01-01
  LET p == y - 1 IN 365 * p + (p \div 4) - (p \div 100) + (p \div 400)

CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

Ordinal(y, m, d) == DaysBeforeMonth(y, m) + d
SerialYMD(y, m, d) == DaysBeforeYear(y) + Ordinal(y, m, d)
Serial(x) == SerialYMD(x[1], x[2], x[3])          \* 0001-01-01 has serial 1

MinSerial == Serial(MinDay)
MaxSerial == Serial(MaxDay)

MonthOfOrdinal(y, o) ==
  CHOOSE m \in 1..12 : /\ DaysBeforeMonth(y, m) < o
                       /\ o <= DaysBeforeMonth(y, m) + DaysInMonth(y, m)

OfOrdinal(y, o) ==
  LET m == MonthOfOrdinal(y, o) IN <<y, m, o - DaysBeforeMonth(y, m)>>

YearOfSerial(s) ==
  LET n400 == (s - 1) \div 146097
      r400 == (s - 1) % 146097
      n100 == IF r400 \div 36524 = 4 THEN 3 ELSE r400 \div 36524
      r100 == r400 - 36524 * n100
      n4   == r100 \div 1461
      r4   == r100 % 1461
      n1   == IF r4 \div 365 = 4 THEN 3 ELSE r4 \div 365
  IN 400 * n400 + 100 * n100 + 4 * n4 + n1 + 1

FromSerial(s) ==
  IF s < MinSerial \/ s > MaxSerial THEN <<>>
  ELSE LET y == YearOfSerial(s) IN OfOrdinal(y, s - DaysBeforeYear(y))

(* Monday = 1 ... Sunday = 7; 0001-01-01 was a Monday. *)
WeekdayOfSerial(s) == ((s - 1) % 7) + 1
Weekday(x) == WeekdayOfSerial(Serial(x))
IsSatSun(x) == Weekday(x) >= 6

(* order of days *)
DayLt(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
DayLe(a, b) == a = b \/ DayLt(a, b)
DayCmp(a, b) == IF a = b THEN 0 ELSE IF DayLt(a, b) THEN -1 ELSE 1

(* --- arithmetic -------------------------------------------------------- *)
Huge == 1000000000        \* any amount at least this large leaves the range

AddDays(x, n) ==          \* n any integer with |n| <= Huge
  IF n > 200000000 \/ n < -200000000 THEN <<>> ELSE FromSerial(Serial(x) + n)

Min2(a, b) == IF a < b THEN a ELSE b

AddMonths(x, n) ==
  IF n > 10000000 \/ n < -10000000 THEN <<>>
  ELSE LET k == x[1] * 12 + (x[2] - 1) + n
           y == k \div 12
           m == (k % 12) + 1
       IN IF y < MinYear \/ y > MaxYear THEN <<>>
          ELSE <<y, m, Min2(x[3], DaysInMonth(y, m))>>

AddYears(x, n) ==
  IF n > 1000000 \/ n < -1000000 THEN <<>> ELSE AddMonths(x, 12 * n)

LastOfMonth(x) == <<x[1], x[2], DaysInMonth(x[1], x[2])>>

(* Saturday and Sunday move to the following Monday. *)
WeekendRoll(x) ==
  LET w == Weekday(x) IN IF w >= 6 THEN AddDays(x, 8 - w) ELSE x
=============================================================================
