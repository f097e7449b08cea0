------------------------------- MODULE Lunar --------------------------------
(***************************************************************************)
(* The Chinese lunisolar calendar, 1900-2049.  LunarYears[k] describes the *)
(* lunar year 1899 + k: bits 16..5 (from the left, weights 32768..16) say  *)
(* which of the months 1..12 have 30 days, the lowest four bits which      *)
(* month is followed by a leap month (0: none), bit 17 whether the leap    *)
(* month has 30 days.  MCHolidays checks the table for consistency and     *)
(* checks the holiday tables against it.                                   *)
(***************************************************************************)
EXTENDS Civil, TLC
LunarYears == <<
  19416, 19168, 42352, 21717, 53856, 55632, 91476, 22176, 39632, 21970,
  19168, 42422, 42192, 53840, 119381, 46400, 54944, 44450, 38320, 84343,
  18800, 42160, 46261, 27216, 27968, 109396, 11104, 38256, 21234, 18800,
  25958, 54432, 59984, 28309, 23248, 11104, 100067, 37600, 116951, 51536,
  54432, 120998, 46416, 22176, 107956, 9680, 37584, 53938, 43344, 46423,
  27808, 46416, 86869, 19872, 42416, 83315, 21168, 43432, 59728, 27296,
  44710, 43856, 19296, 43748, 42352, 21088, 62051, 55632, 23383, 22176,
  38608, 19925, 19152, 42192, 54484, 53840, 54616, 46400, 46752, 103846,
  38320, 18864, 43380, 42160, 45690, 27216, 27968, 44870, 43872, 38256,
  19189, 18800, 25776, 29859, 59984, 27480, 21952, 43872, 38613, 37600,
  51552, 55636, 54432, 55888, 30034, 22176, 43959, 9680, 37584, 51893,
  43344, 46240, 47780, 44368, 21977, 19360, 42416, 86390, 21168, 43312,
  31060, 27296, 44368, 23378, 19296, 42726, 42208, 53856, 60005, 54576,
  23200, 30371, 38608, 19195, 19152, 42192, 118966, 53840, 54560, 56645,
  46496, 22224, 21938, 18864, 42359, 42160, 43600, 111189, 27936, 44448>>

Bit(n, w) == (n \div w) % 2
LeapMonth(y) == LunarYears[y - 1899] % 16
\* weights of the months 1..12 in an entry
MonthWeight == <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16>>
MonthLength(y, m) == 29 + Bit(LunarYears[y - 1899], MonthWeight[m])
LeapLength(y) == IF LeapMonth(y) = 0 THEN 0 ELSE 29 + Bit(LunarYears[y - 1899], 65536)

RECURSIVE DaysBeforeLunarMonth(_, _)
DaysBeforeLunarMonth(y, m) ==
  IF m = 1 THEN 0
  ELSE DaysBeforeLunarMonth(y, m - 1) + MonthLength(y, m - 1) + (IF LeapMonth(y) = m - 1 THEN LeapLength(y) ELSE 0)
LunarYearLength(y) ==
  DaysBeforeLunarMonth(y, 12) + MonthLength(y, 12) + (IF LeapMonth(y) = 12 THEN LeapLength(y) ELSE 0)

FirstLunarYear == 1900
LastLunarYear == 2049
NewYear1900 == SerialYMD(1900, 1, 31)
=============================================================================
