------------------------------ MODULE MCEaster ------------------------------
(***************************************************************************)
(* Design model of the computus: the years pass, the golden number, the    *)
(* (corrected) epact and the Julian moon run along as counters, and Easter *)
(* is found by waiting for the full moon and then for the Sunday.          *)
(***************************************************************************)
EXTENDS Computus
VARIABLES y, golden, epact, jul
vars == <<y, golden, epact, jul>>

First == 1583
Last == 2399
\* the epact moves by 11 each year, and by the century corrections
Century(yy) == yy % 100 = 0
SolarDrop(yy) == IF Century(yy) /\ yy % 400 # 0 THEN 1 ELSE 0
LunarAdd(yy) == IF Century(yy) /\ ((8 * (yy \div 100 + 1) + 5) \div 25 - (8 * (yy \div 100) + 5) \div 25) = 1 THEN 1 ELSE 0

EpactOf(yy) == LET c == yy \div 100 + 1 IN (11 * Golden(yy) + 20 + ((8 * c + 5) \div 25 - 5) - ((3 * c) \div 4 - 12)) % 30

Init == /\ y = First /\ golden = Golden(First) /\ epact = EpactOf(First) /\ jul = JulianPFM(First)

Next == /\ y < Last
        /\ y' = y + 1
        /\ golden' = (golden % 19) + 1
        /\ epact' = (epact + (IF golden = 19 THEN 12 ELSE 11) - SolarDrop(y + 1) + LunarAdd(y + 1)) % 30
        /\ jul' = (jul + 19 - (IF golden = 19 THEN 361 ELSE 0) + 360) % 30

Counters == golden = Golden(y) /\ epact = EpactOf(y) /\ jul = JulianPFM(y)

\* wait for the paschal moon: with epact e the 14th day of the moon is 44-e March, or a month later
WaitWestern ==
  LET e == IF epact = 24 \/ (epact = 25 /\ golden > 11) THEN epact + 1 ELSE epact
      n == 44 - e
      moon == AddDays(<<y, 3, 1>>, (IF n < 21 THEN n + 30 ELSE n) - 1)
      RECURSIVE Sunday(_)
      Sunday(x) == IF Weekday(x) = 7 THEN x ELSE Sunday(Succ(x))
  IN Sunday(Succ(moon))
Western == WesternEaster(y) = WaitWestern

\* the two well-known closed algorithms (anonymous Gregorian, Meeus' Julian)
Anonymous(yy) ==
  LET a == yy % 19   b == yy \div 100   c == yy % 100
      d == b \div 4  e == b % 4         f == (b + 8) \div 25
      g == (b - f + 1) \div 3
      hh == (19 * a + b - d - g + 15) % 30
      ii == c \div 4  k == c % 4
      l == (32 + 2 * e + 2 * ii - hh - k) % 7
      m == (a + 11 * hh + 22 * l) \div 451
      q == hh + l - 7 * m + 114
  IN <<yy, q \div 31, (q % 31) + 1>>
MeeusJulian(yy) ==
  LET a == yy % 4  b == yy % 7  c == yy % 19
      d == (19 * c + 15) % 30
      e == (2 * a + 4 * b - d + 34) % 7
      q == d + e + 114
  IN FromSerial(JulianSerial(yy, q \div 31, (q % 31) + 1))
Agree == WesternEaster(y) = Anonymous(y) /\ OrthodoxEaster(y) = MeeusJulian(y)

Bounds == /\ Weekday(WesternEaster(y)) = 7 /\ Weekday(OrthodoxEaster(y)) = 7
          /\ DayLe(<<y, 3, 22>>, WesternEaster(y)) /\ DayLe(WesternEaster(y), <<y, 4, 25>>)
          /\ y \in 1900..2099 => DayLe(<<y, 4, 4>>, OrthodoxEaster(y)) /\ DayLe(OrthodoxEaster(y), <<y, 5, 8>>)
          /\ y >= 1700 => DayLe(WesternEaster(y), OrthodoxEaster(y))
=============================================================================
