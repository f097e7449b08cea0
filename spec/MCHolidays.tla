----------------------------- MODULE MCHolidays -----------------------------
(***************************************************************************)
(* Design model behind the tables of announced days.  The lunar months     *)
(* pass one by one; each must begin within the 2.2 days around the mean    *)
(* new moon that true new moons (29.530588 days apart on average) can      *)
(* reach, years have the lengths lunisolar years have, and at the end of   *)
(* every lunar year the specification's holiday rules must close the       *)
(* weekdays on which its festivals fall.  The festivals of the Hebrew year *)
(* are checked against the length and weekday laws of that calendar.       *)
(***************************************************************************)
EXTENDS Lunar, HolidaysAsia, Hebrew
VARIABLES y, m, leap, day, moons, feasts
vars == <<y, m, leap, day, moons, feasts>>

(* feasts: the days seen so far of this lunar year, as a function month -> first day *)
Init == /\ y = FirstLunarYear /\ m = 1 /\ leap = FALSE
        /\ day = NewYear1900 /\ moons = 0 /\ feasts = <<NewYear1900>>

Len1 == IF leap THEN LeapLength(y) ELSE MonthLength(y, m)
NextMonth ==
  /\ day' = day + Len1
  /\ moons' = moons + 1
  /\ IF ~leap /\ LeapMonth(y) = m
     THEN leap' = TRUE /\ UNCHANGED <<y, m, feasts>>
     ELSE /\ leap' = FALSE
          /\ IF m < 12 THEN y' = y /\ m' = m + 1 /\ feasts' = Append(feasts, day')
             ELSE y' = y + 1 /\ m' = 1 /\ feasts' = <<day'>>
Next == day < SerialYMD(2049, 12, 25) /\ NextMonth
Spec == Init /\ [][Next]_vars

\* in millionths of a day, counted from the new moon of January 1900 (31 January 1900, 01:22 UT = 09:22 in China)
MeanMoon == SerialYMD(1900, 1, 31) * 1000 + 390      \* thousandths of a day
Astronomy ==
  LET mean == MeanMoon + 29 * moons * 1000 + (530588 * (moons \div 1000)) + ((530588 * (moons % 1000)) \div 1000)
  IN day * 1000 - mean \in -1850..350

Years(t) == {t[k][1] : k \in 1..Len(t)}
Closes(country(_), o, yy) == LET c == Year(yy) IN WD(c, o) >= Sat \/ o \in country(c)
Covered(yy) ==                  \* the years each table says anything about
  [China |-> yy \in Years(ChinaTable), HongKong |-> yy \in Years(HongKongTable),
   Singapore |-> yy \in Years(SingaporeTable), Taiwan |-> yy \in Years(TaiwanTable)]
FromSer(country(_), s, y1, y2) ==
  LET d == FromSerial(s) IN
  IF d[1] < y1 \/ d[1] > y2 THEN TRUE ELSE Closes(country, Ordinal(d[1], d[2], d[3]), d[1])
All(country(_), s, K, y1, y2) == \A k \in K : FromSer(country, s + k, y1, y2)
\* the Korean meridian puts some new moons on the next day
AllOrNext(country(_), s, K, y1, y2) ==
  \/ \A k \in K : FromSer(country, s + k, y1, y2)
  \/ \A k \in K : FromSer(country, s + k + 1, y1, y2)

NewYears ==
  m = 1 /\ ~leap =>
    /\ Covered(y).China => All(China, day, {0, 1, 2}, 2005, 2025)
    /\ Covered(y).HongKong => All(HongKong, day, {0}, 2005, 2024)
    /\ Covered(y).Singapore => All(Singapore, day, {0, 1}, 2004, 2024)
    /\ AllOrNext(SouthKorea, day, {-1, 0, 1}, 2005, 2050)
    /\ Covered(y).Taiwan => All(Taiwan, day, {-1, 0, 1, 2}, 2005, 2024)
Festivals ==
  m = 12 /\ ~leap =>
    /\ Covered(y).China => All(China, feasts[5] + 4, {0}, 2008, 2025)
    /\ Covered(y).China => All(China, feasts[8] + 14, {0}, 2008, 2025)
    /\ Covered(y).HongKong => All(HongKong, feasts[4] + 7, {0}, 2005, 2024)
    /\ Covered(y).HongKong => All(HongKong, feasts[5] + 4, {0}, 2005, 2024)
    /\ Covered(y).HongKong => All(HongKong, feasts[8] + 15, {0}, 2005, 2011)
    /\ Covered(y).HongKong => All(HongKong, feasts[9] + 8, {0}, 2005, 2024)
    /\ Covered(y).Taiwan => All(Taiwan, feasts[5] + 4, {0}, 2005, 2024)
    /\ Covered(y).Taiwan => All(Taiwan, feasts[8] + 14, {0}, 2005, 2024)
    /\ AllOrNext(SouthKorea, feasts[4] + 7, {0}, 2005, 2050)
    /\ AllOrNext(SouthKorea, feasts[8] + 14, {-1, 0, 1}, 2005, 2050)

YearLengths ==
  m = 1 /\ ~leap /\ y <= LastLunarYear =>
    /\ LunarYearLength(y) \in (IF LeapMonth(y) = 0 THEN 353..355 ELSE 383..385)
    /\ LET d == FromSerial(day) IN d[1] = y /\ Ordinal(y, d[2], d[3]) \in 20..52

(* The Hebrew year y + 3761 that begins in the autumn of y. *)
HebrewLaws ==
  m = 1 /\ ~leap =>
    LET h == y + 3761
        c == Year(y)
        len == RoshHashanahSerial(h + 1) - RoshHashanahSerial(h)
    IN /\ len \in {353, 354, 355, 383, 384, 385}
       /\ WD(c, RoshHashanah(y)) \notin {Sun, Wed, Fri}
       /\ WD(c, Passover(y)) \notin {Mon, Wed, Fri}
       \* the paschal full moon of the computus: Passover lies in March or April
       /\ Passover(y) \in Day(c, 3, 25)..Day(c, 4, 30)
       /\ WD(c, Independence(c)) \in {Tue, Wed, Thu}
=============================================================================
