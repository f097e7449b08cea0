------------------------------- MODULE Hebrew -------------------------------
(***************************************************************************)
(* The arithmetic Hebrew calendar (molad of Tishri and the four            *)
(* postponement rules), and from it the days the Israeli market closes.    *)
(***************************************************************************)
EXTENDS HolidayRules

\* days from the epoch to the molad of Tishri of year h, first two postponements applied
MoladDays(h) ==
  LET months == (235 * h - 234) \div 19
      parts == 12084 + 13753 * months
      day == 29 * months + parts \div 25920
  IN IF (3 * (day + 1)) % 7 < 3 THEN day + 1 ELSE day
\* no year may have 356 or 382 days
Postponement(h) ==
  IF MoladDays(h + 1) - MoladDays(h) = 356 THEN 2
  ELSE IF MoladDays(h) - MoladDays(h - 1) = 382 THEN 1 ELSE 0
\* serial number of 1 Tishri of year h (1 = 1 January of the year 1)
RoshHashanahSerial(h) == MoladDays(h) + Postponement(h) - 1373427

\* day of the (civil) year y on which the Hebrew year y + 3761 begins; 15 Nisan is 163 days earlier
RoshHashanah(y) == RoshHashanahSerial(y + 3761) - SerialYMD(y, 1, 1) + 1
Passover(y) == RoshHashanah(y) - 163

(* Independence day, 5 Iyar: from Friday or Saturday to Thursday, from Monday to Tuesday. *)
Independence(c) ==
  LET o == Passover(c.y) + 20
      w == WD(c, o)
  IN IF w = Fri THEN o - 1 ELSE IF w = Sat THEN o - 2 ELSE IF w = Mon THEN o + 1 ELSE o
(* 9 Av, from Saturday to Sunday. *)
FastDay(c) ==
  LET o == Passover(c.y) + 112 IN IF WD(c, o) = Sat THEN o + 1 ELSE o

IsraelFestivals(c) ==
  LET p == Passover(c.y)
      r == RoshHashanah(c.y)
  IN During(c, 2013, 2044,
       {p - 30}                                             \* Purim
       \cup {p, p + 6} \cup Till(c, 2020, {p - 1, p + 5})   \* Passover I and VII
       \cup {Independence(c) - 1, Independence(c)}
       \cup {p + 50} \cup Till(c, 2020, {p + 49})           \* Pentecost
       \cup {FastDay(c)}
       \cup {r, r + 1} \cup Till(c, 2019, {r - 1})          \* New Year
       \cup {r + 8, r + 9}                                  \* Yom Kippur
       \cup {r + 13, r + 14}                                \* Sukkoth
       \cup {r + 20, r + 21})                               \* Simchat Tora

\* the Israeli weekend is Friday and Saturday
Israel(c) == {o \in 1..c.len : WD(c, o) \in {Fri, Sat}} \cup IsraelFestivals(c)
=============================================================================
