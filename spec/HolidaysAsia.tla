---------------------------- MODULE HolidaysAsia ----------------------------
(* The Asia-Pacific calendars (C08): standing rules here, the days announced year by year in the tables. *)
EXTENDS HolidayTables

AustraliaShared(c) ==
  WkndToMon(c, 1, 1) \cup WkndToMon(c, 1, 26) \cup Easter(c, {-3, 0}) \cup On(c, 4, 25) \cup Nth(c, 6, 2, Mon)
  \cup TwoOn(c, 12, 25) \cup TwoOn(c, 12, 26) \cup In(c, {2022}, On(c, 9, 22))
AustraliaSettlement(c) == AustraliaShared(c) \cup Nth(c, 8, 1, Mon) \cup Nth(c, 10, 1, Mon)

China(c) ==
  On(c, 1, 1)
  \cup Till(c, 2008, Fixed(c, {<<4, 4>>, <<6, 9>>, <<9, 15>>}))
  \cup Till(c, 2007, OnDays(c, 5, 1..7) \cup OnDays(c, 10, 1..7))
  \cup Announced(c, ChinaTable)

HongKong(c) ==
  SunToMon(c, 1, 1) \cup Easter(c, {-3, 0}) \cup SunToMon(c, 5, 1) \cup SunToMon(c, 7, 1) \cup SunToMon(c, 10, 1)
  \cup Fixed(c, {<<12, 25>>, <<12, 26>>})
  \cup Announced(c, HongKongTable)

India(c) ==
  Fixed(c, {<<1, 26>>, <<4, 14>>, <<5, 1>>, <<8, 15>>, <<10, 2>>, <<12, 25>>}) \cup GoodFriday(c)
  \cup Announced(c, IndiaTable)

Indonesia(c) ==
  Fixed(c, {<<1, 1>>, <<8, 17>>, <<12, 25>>}) \cup Easter(c, {-3, 38})
  \cup Announced(c, IndonesiaTable)

(* --- Japan ---------------------------------------------------------------- *)
(* Day of March (September) of the equinoxes in Japan, by the standard approximation used to draw up   *)
(* its calendar; millionths of a day.                                                                  *)
EquinoxBy(y, b1900, b1980, b2100) ==
  LET drift(b) == (b + 242194 * (y - 1980)) \div 1000000
  IN IF y < 1980 THEN drift(b1900) + (1983 - y) \div 4
     ELSE drift(IF y < 2100 THEN b1980 ELSE b2100) - (y - 1980) \div 4
VernalEquinox(y) == EquinoxBy(y, 20835700, 20843100, 21851000)
AutumnalEquinox(y) == EquinoxBy(y, 23258800, 23248800, 24248800)

Japan(c) ==
  LET ae == AutumnalEquinox(c.y)
      oae == Day(c, 9, ae)
  IN OnDays(c, 1, 1..3)
     \cup Since(c, 2000, Nth(c, 1, 2, Mon)) \cup Till(c, 1999, SunToMon(c, 1, 15))           \* Coming of Age
     \cup SunToMon(c, 2, 11)                                                                \* Foundation
     \cup Since(c, 2020, SunToMon(c, 2, 23)) \cup During(c, 1989, 2018, SunToMon(c, 12, 23)) \* Emperor
     \cup SunToMon(c, 3, VernalEquinox(c.y)) \cup SunToMon(c, 9, ae)
     \cup SunToMon(c, 4, 29)
     \cup OnDays(c, 5, 3..5)
     \cup (IF \E d \in 3..5 : WD(c, Day(c, 5, d)) = Sun THEN On(c, 5, 6) ELSE {})
     \* Marine, Mountain and Sports days, moved for the Olympic games of 2020 and 2021
     \cup During(c, 1996, 2002, SunToMon(c, 7, 20))
     \cup Since(c, 2003, NotIn(c, {2020, 2021}, Nth(c, 7, 3, Mon)))
     \cup Since(c, 2016, NotIn(c, {2020, 2021}, SunToMon(c, 8, 11)))
     \cup Till(c, 1999, SunToMon(c, 10, 10))
     \cup Since(c, 2000, NotIn(c, {2020, 2021}, Nth(c, 10, 2, Mon)))
     \cup In(c, {2020}, Fixed(c, {<<7, 23>>, <<7, 24>>, <<8, 10>>}))
     \cup In(c, {2021}, Fixed(c, {<<7, 22>>, <<7, 23>>, <<8, 9>>}))
     \* Respect for the Aged; the day caught between it and the equinox is a holiday too
     \cup Till(c, 2002, SunToMon(c, 9, 15)) \cup Since(c, 2003, Nth(c, 9, 3, Mon))
     \cup Since(c, 2003, IF oae - 2 \in Nth(c, 9, 3, Mon) THEN {oae - 1} ELSE {})
     \cup SunToMon(c, 11, 3) \cup SunToMon(c, 11, 23)
     \cup On(c, 12, 31)
     \cup Announced(c, << <<1959, <<410>>>>, <<1989, <<224>>>>, <<1990, <<1112>>>>, <<1993, <<609>>>>,
                          <<2019, <<430, 501, 502, 1022>>>> >>)

(* --- New Zealand ------------------------------------------------------------ *)
Matariki(c) == Announced(c, <<
  <<2022, <<624>>>>, <<2023, <<714>>>>, <<2024, <<628>>>>, <<2025, <<620>>>>, <<2026, <<710>>>>,
  <<2027, <<625>>>>, <<2028, <<714>>>>, <<2029, <<706>>>>, <<2030, <<621>>>>, <<2031, <<711>>>>,
  <<2032, <<702>>>>, <<2033, <<624>>>>, <<2034, <<707>>>>, <<2035, <<629>>>>, <<2036, <<718>>>>,
  <<2037, <<710>>>>, <<2038, <<625>>>>, <<2039, <<715>>>>, <<2040, <<706>>>>, <<2041, <<719>>>>,
  <<2042, <<711>>>>, <<2043, <<703>>>>, <<2044, <<624>>>>, <<2045, <<707>>>>, <<2046, <<629>>>>,
  <<2047, <<719>>>>, <<2048, <<703>>>>, <<2049, <<625>>>>, <<2050, <<715>>>>, <<2051, <<630>>>>,
  <<2052, <<621>>>> >>)
NewZealand(c) ==
  TwoOn(c, 1, 1) \cup TwoOn(c, 1, 2) \cup WeekdayWithin(c, 1, 19, 25, Mon)
  \cup On(c, 2, 6) \cup Since(c, 2014, WkndToMon(c, 2, 6))
  \cup Easter(c, {-3, 0})
  \cup On(c, 4, 25) \cup Since(c, 2014, WkndToMon(c, 4, 25))
  \cup Nth(c, 6, 1, Mon) \cup Matariki(c) \cup Nth(c, 10, 4, Mon)
  \cup TwoOn(c, 12, 25) \cup TwoOn(c, 12, 26)

Singapore(c) ==
  SunToMon(c, 1, 1) \cup GoodFriday(c) \cup On(c, 5, 1) \cup SunToMon(c, 8, 9) \cup On(c, 12, 25)
  \cup Announced(c, SingaporeTable)

SouthKorea(c) ==
  Fixed(c, {<<1, 1>>, <<3, 1>>, <<5, 1>>, <<5, 5>>, <<6, 6>>, <<8, 15>>, <<10, 3>>, <<12, 25>>})
  \cup Since(c, 2022, WkndToMon(c, 3, 1)) \cup Till(c, 2005, On(c, 4, 5)) \cup Since(c, 2014, WkndToMon(c, 5, 5))
  \cup Till(c, 2007, On(c, 7, 17)) \cup Since(c, 2021, WkndToMon(c, 8, 15)) \cup Since(c, 2021, WkndToMon(c, 10, 3))
  \cup Since(c, 2013, On(c, 10, 9)) \cup Since(c, 2021, WkndToMon(c, 10, 9)) \cup Since(c, 2023, WkndToMon(c, 12, 25))
  \cup Announced(c, SouthKoreaTable)

Taiwan(c) ==
  Fixed(c, {<<1, 1>>, <<2, 28>>, <<5, 1>>, <<10, 10>>}) \cup NotIn(c, {2008, 2009, 2012, 2017}, On(c, 4, 5))
  \cup Announced(c, TaiwanTable)

Thailand(c) ==
  WkndToMon(c, 1, 1) \cup WkndToMon(c, 4, 6)
  \cup OnDays(c, 4, 13..15) \cup WeekdayWithin(c, 4, 16, 16, Mon) \cup WeekdayWithin(c, 4, 16, 16, Tue)
  \cup WkndToMon(c, 5, 1) \cup Since(c, 2017, WkndToMon(c, 7, 28)) \cup WkndToMon(c, 8, 12)
  \cup Since(c, 2017, WkndToMon(c, 10, 13)) \cup WkndToMon(c, 12, 5) \cup WkndToMon(c, 12, 10)
  \cup On(c, 12, 31) \cup WeekdayWithin(c, 1, 1, 2, Mon)
  \cup Announced(c, ThailandTable)

AsiaPacific == {"Australia", "China", "HongKong", "India", "Indonesia", "Japan", "NewZealand", "Singapore",
                "SouthKorea", "Taiwan", "Thailand"}
ClosedAsia(c, cal, market) ==
  CASE cal = "Australia" -> IF market = "ASX" THEN AustraliaShared(c) ELSE AustraliaSettlement(c)
    [] cal = "China" -> China(c)
    [] cal = "HongKong" -> HongKong(c)
    [] cal = "India" -> India(c)
    [] cal = "Indonesia" -> Indonesia(c)
    [] cal = "Japan" -> Japan(c)
    [] cal = "NewZealand" -> NewZealand(c)
    [] cal = "Singapore" -> Singapore(c)
    [] cal = "SouthKorea" -> SouthKorea(c)
    [] cal = "Taiwan" -> Taiwan(c)
    [] cal = "Thailand" -> Thailand(c)
=============================================================================
