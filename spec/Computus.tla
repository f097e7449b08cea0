------------------------------ MODULE Computus ------------------------------
(***************************************************************************)
(* The ecclesiastical computus: Easter is the Sunday after the paschal     *)
(* full moon (the 14th day of the ecclesiastical lunar month falling on or *)
(* after 21 March).                                                        *)
(***************************************************************************)
EXTENDS Civil

Golden(y) == (y % 19) + 1

(* Knuth, The Art of Computer Programming 1.3.2 exercise 14, written out.    *)
WesternEaster(y) ==
  LET g == Golden(y)
      c == y \div 100 + 1
      x == (3 * c) \div 4 - 12                  \* years dropped from the Julian leap rule
      z == (8 * c + 5) \div 25 - 5              \* correction for the moon's orbit
      d == (5 * y) \div 4 - x - 10              \* March ((-d) mod 7) is a Sunday
      e1 == (11 * g + 20 + z - x) % 30
      e == IF (e1 = 25 /\ g > 11) \/ e1 = 24 THEN e1 + 1 ELSE e1
      n1 == 44 - e
      n2 == IF n1 < 21 THEN n1 + 30 ELSE n1     \* March n2 is the paschal full moon
      n == n2 + 7 - ((d + n2) % 7)              \* the Sunday after it
  IN AddDays(<<y, 3, 1>>, n - 1)

(* Julian calendar: the paschal full moon repeats every 19 years.            *)
JulianPFM(y) == (19 * (y % 19) + 15) % 30       \* days after 21 March (Julian)

\* serial number of a day named in the Julian calendar, 1 March or later
JulianSerial(y, m, d) ==
  LET p == y - 1
      leap == y % 4 = 0
      ord == CumDays[m] + (IF leap THEN 1 ELSE 0) + d
  IN 365 * p + p \div 4 + ord - 2               \* Julian 0001-01-03 is Gregorian 0001-01-01

OrthodoxEaster(y) ==
  LET pfm == JulianSerial(y, 3, 21) + JulianPFM(y)
      w == WeekdayOfSerial(pfm)
  IN FromSerial(pfm + (7 - w) + (IF w = 7 THEN 7 ELSE 0))

OrdinalOf(x) == Ordinal(x[1], x[2], x[3])
EasterMonday(y) == OrdinalOf(WesternEaster(y)) + 1
OrthodoxEasterMonday(y) == OrdinalOf(OrthodoxEaster(y)) + 1
=============================================================================
