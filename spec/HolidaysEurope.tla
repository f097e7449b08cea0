--------------------------- MODULE HolidaysEurope ---------------------------
(* The European calendars (C06): the days, weekends apart, each market closes. *)
EXTENDS HolidayRules

NewYear(c) == On(c, 1, 1)
Christmas(c) == On(c, 12, 25)
BoxingDay(c) == On(c, 12, 26)
Ascension(c) == Easter(c, {38})
WhitMonday(c) == Easter(c, {49})
CorpusChristi(c) == Easter(c, {59})
MidsummerEve(c) == WeekdayWithin(c, 6, 19, 25, Fri)

AustriaNationalDay(c) == Since(c, 1967, On(c, 10, 26)) \cup During(c, 1919, 1934, On(c, 11, 12))
AustriaSettlement(c) ==
  Fixed(c, {<<1, 1>>, <<1, 6>>, <<5, 1>>, <<8, 15>>, <<11, 1>>, <<12, 8>>, <<12, 25>>, <<12, 26>>})
  \cup EasterMon(c) \cup Ascension(c) \cup WhitMonday(c) \cup CorpusChristi(c) \cup AustriaNationalDay(c)
AustriaExchange(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<12, 24>>, <<12, 25>>, <<12, 26>>, <<12, 31>>})
  \cup GoodFriday(c) \cup EasterMon(c) \cup WhitMonday(c) \cup AustriaNationalDay(c)

CzechRepublic(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<5, 8>>, <<7, 5>>, <<7, 6>>, <<9, 28>>, <<10, 28>>, <<11, 17>>,
            <<12, 24>>, <<12, 25>>, <<12, 26>>})
  \cup Since(c, 2016, GoodFriday(c)) \cup EasterMon(c)
  \cup In(c, {2004}, Fixed(c, {<<1, 2>>, <<12, 31>>}))

Denmark(c) ==
  Fixed(c, {<<1, 1>>, <<6, 5>>, <<12, 24>>, <<12, 25>>, <<12, 26>>, <<12, 31>>})
  \cup Easter(c, {-4, -3, 0, 38, 49})
  \cup Till(c, 2023, Easter(c, {25}))            \* General Prayer Day
  \cup Since(c, 2009, Easter(c, {39}))           \* the day after Ascension

Finland(c) ==
  Fixed(c, {<<1, 1>>, <<1, 6>>, <<5, 1>>, <<12, 6>>, <<12, 24>>, <<12, 25>>, <<12, 26>>})
  \cup Easter(c, {-3, 0, 38}) \cup MidsummerEve(c)

FranceFixed(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<5, 8>>, <<7, 14>>, <<8, 15>>, <<11, 1>>, <<11, 11>>, <<12, 25>>})
  \cup EasterMon(c)
FranceSettlement(c) == FranceFixed(c) \cup Ascension(c) \cup WhitMonday(c)
\* The implementation (and its test for 2023) keeps Ascension and Pentecost on 10 and 21 May:
\* a known finding, see DESIGN.md.
FranceSettlementAsBuilt(c) == FranceFixed(c) \cup Fixed(c, {<<5, 10>>, <<5, 21>>})
FranceExchange(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<12, 24>>, <<12, 25>>, <<12, 26>>, <<12, 31>>})
  \cup GoodFriday(c) \cup EasterMon(c)

GermanySettlement(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<10, 3>>, <<12, 24>>, <<12, 25>>, <<12, 26>>})
  \cup Easter(c, {-3, 0, 38, 49, 59})
Frankfurt(c) == Fixed(c, {<<1, 1>>, <<5, 1>>, <<12, 24>>, <<12, 25>>, <<12, 26>>}) \cup Easter(c, {-3, 0})
Eurex(c) == Frankfurt(c) \cup On(c, 12, 31)
Euwax(c) == Frankfurt(c) \cup WhitMonday(c)

Hungary(c) ==
  Fixed(c, {<<1, 1>>, <<3, 15>>, <<5, 1>>, <<8, 20>>, <<10, 23>>, <<11, 1>>, <<12, 25>>, <<12, 26>>})
  \cup Since(c, 2017, GoodFriday(c)) \cup Easter(c, {0, 49})

Iceland(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<6, 17>>, <<12, 25>>, <<12, 26>>})
  \cup Easter(c, {-4, -3, 0, 38, 49})
  \cup WeekdayWithin(c, 4, 19, 25, Thu)          \* first day of summer
  \cup Nth(c, 8, 1, Mon)                         \* commerce day

ItalySettlement(c) ==
  Fixed(c, {<<1, 1>>, <<1, 6>>, <<4, 25>>, <<5, 1>>, <<8, 15>>, <<11, 1>>, <<12, 8>>, <<12, 25>>, <<12, 26>>})
  \cup EasterMon(c) \cup Since(c, 2000, On(c, 6, 2)) \cup In(c, {1999}, On(c, 12, 31))
ItalyExchange(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<8, 15>>, <<12, 24>>, <<12, 25>>, <<12, 26>>, <<12, 31>>})
  \cup GoodFriday(c) \cup EasterMon(c)

Norway(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<5, 17>>, <<12, 25>>, <<12, 26>>})
  \cup Easter(c, {-4, -3, 0, 38, 49}) \cup Since(c, 2002, On(c, 12, 24))

Poland(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<5, 3>>, <<8, 15>>, <<11, 1>>, <<11, 11>>, <<12, 25>>, <<12, 26>>})
  \cup Easter(c, {0, 59}) \cup Since(c, 2011, On(c, 1, 6))

Romania(c) ==
  Fixed(c, {<<1, 1>>, <<1, 2>>, <<1, 24>>, <<5, 1>>, <<8, 15>>, <<11, 30>>, <<12, 1>>, <<12, 25>>, <<12, 26>>})
  \cup OrthodoxEasterDays(c, {0, 49}) \cup Since(c, 2017, On(c, 6, 1))

(* Russia: bridge days and moved days are decreed year by year. *)
RussiaExtraSettlement(c) == Announced(c, <<
  <<2017, <<224, 508, 1106>>>>,
  <<2018, <<309, 430, 502, 611, 1231>>>>,
  <<2019, <<502, 503, 509>>>>,
  <<2020, <<330, 331, 401, 402, 403>>>> >>)
RussiaExtraExchange(c) == Announced(c, <<
  <<2012, <<102, 309, 430, 611>>>>,
  <<2013, <<101, 102, 103, 104, 107>>>>,
  <<2014, <<101, 102, 103, 107>>>>,
  <<2015, <<101, 102, 107>>>>,
  <<2016, <<101, 107, 108, 502, 503, 613, 1230>>>>,
  <<2017, <<102, 508>>>>,
  <<2018, <<101, 102, 108, 1231>>>>,
  <<2019, <<101, 102, 107, 1231>>>>,
  <<2020, <<101, 102, 107, 224, 624, 701>>>> >>)
RussiaWorkingWeekends(c) == Announced(c, <<
  <<2012, <<311, 428, 505, 512, 609>>>>,
  <<2016, <<220>>>>,
  <<2018, <<428, 609, 1229>>>> >>)
RussiaSettlement(c) ==
  RussiaExtraSettlement(c)
  \cup Till(c, 2005, OnDays(c, 1, 1..2)) \cup Since(c, 2005, OnDays(c, 1, 1..5))
  \cup In(c, {2012}, On(c, 1, 6))
  \cup WkndToMon(c, 1, 7) \cup WkndToMon(c, 2, 23) \cup WkndToMon(c, 3, 8) \cup WkndToMon(c, 5, 1)
  \cup WkndToMon(c, 5, 9) \cup WkndToMon(c, 6, 12) \cup WkndToMon(c, 11, 4)
RussiaExchange(c) ==
  RussiaExtraExchange(c)
  \cup On(c, 2, 23) \cup WkndToMon(c, 3, 8) \cup On(c, 5, 1) \cup WkndToMon(c, 5, 9)
  \cup On(c, 6, 12) \cup WkndToMon(c, 11, 4) \cup On(c, 12, 31)

Slovakia(c) ==
  Fixed(c, {<<1, 1>>, <<1, 6>>, <<5, 1>>, <<5, 8>>, <<7, 5>>, <<8, 29>>, <<9, 1>>, <<9, 15>>, <<11, 1>>,
            <<11, 17>>, <<12, 24>>, <<12, 25>>, <<12, 26>>})
  \cup Easter(c, {-3, 0}) \cup In(c, {2004, 2005}, OnDays(c, 12, 24..31))

Sweden(c) ==
  Fixed(c, {<<1, 1>>, <<1, 6>>, <<5, 1>>, <<12, 24>>, <<12, 25>>, <<12, 26>>, <<12, 31>>})
  \cup Easter(c, {-3, 0, 38}) \cup Till(c, 2004, WhitMonday(c)) \cup Since(c, 2005, On(c, 6, 6))
  \cup MidsummerEve(c)

Switzerland(c) ==
  Fixed(c, {<<1, 1>>, <<1, 2>>, <<5, 1>>, <<8, 1>>, <<12, 25>>, <<12, 26>>}) \cup Easter(c, {-3, 0, 38, 49})

Target(c) ==
  Fixed(c, {<<1, 1>>, <<12, 25>>})
  \cup Since(c, 2000, Easter(c, {-3, 0}) \cup Fixed(c, {<<5, 1>>, <<12, 26>>}))
  \cup In(c, {1998, 1999, 2001}, On(c, 12, 31))

Ukraine(c) ==
  WkndToMon(c, 1, 1) \cup WkndToMon(c, 1, 7) \cup WkndToMon(c, 3, 8)
  \cup OrthodoxEasterDays(c, {0, 49})
  \cup OnDays(c, 5, 1..2) \cup WeekdayWithin(c, 5, 3, 3, Mon)
  \cup WkndToMon(c, 5, 9) \cup Fixed(c, {<<6, 28>>, <<8, 24>>}) \cup Since(c, 2015, On(c, 10, 14))

UnitedKingdom(c) ==
  WkndToMon(c, 1, 1) \cup Easter(c, {-3, 0})
  \cup NotIn(c, {1995, 2020}, Nth(c, 5, 1, Mon)) \cup In(c, {1995, 2020}, On(c, 5, 8))
  \cup NotIn(c, {2002, 2012, 2022}, LastWeekday(c, 5, Mon))
  \cup In(c, {2002}, OnDays(c, 6, {3, 4})) \cup In(c, {2012}, OnDays(c, 6, {4, 5}))
  \cup In(c, {2022}, OnDays(c, 6, {2, 3}))
  \cup LastWeekday(c, 8, Mon)
  \cup In(c, {2011}, On(c, 4, 29)) \cup In(c, {2022}, On(c, 9, 19)) \cup In(c, {2023}, On(c, 5, 8))
  \cup TwoOn(c, 12, 25) \cup TwoOn(c, 12, 26) \cup In(c, {1999}, On(c, 12, 31))

European == {"Austria", "CzechRepublic", "Denmark", "Finland", "France", "Germany", "Hungary", "Iceland",
             "Italy", "Norway", "Poland", "Romania", "Russia", "Slovakia", "Sweden", "Switzerland", "Target",
             "Ukraine", "UnitedKingdom", "WeekendsOnly"}

ClosedEurope(c, cal, market) ==
  CASE cal = "Austria" -> IF market = "Exchange" THEN AustriaExchange(c) ELSE AustriaSettlement(c)
    [] cal = "CzechRepublic" -> CzechRepublic(c)
    [] cal = "Denmark" -> Denmark(c)
    [] cal = "Finland" -> Finland(c)
    [] cal = "France" -> IF market = "Exchange" THEN FranceExchange(c) ELSE FranceSettlement(c)
    [] cal = "Germany" -> CASE market = "Settlement" -> GermanySettlement(c)
                            [] market = "Eurex" -> Eurex(c)
                            [] market = "Euwax" -> Euwax(c)
                            [] OTHER -> Frankfurt(c)
    [] cal = "Hungary" -> Hungary(c)
    [] cal = "Iceland" -> Iceland(c)
    [] cal = "Italy" -> IF market = "Exchange" THEN ItalyExchange(c) ELSE ItalySettlement(c)
    [] cal = "Norway" -> Norway(c)
    [] cal = "Poland" -> Poland(c)
    [] cal = "Romania" -> Romania(c)
    [] cal = "Russia" -> IF market = "Exchange" THEN RussiaExchange(c) ELSE RussiaSettlement(c)
    [] cal = "Slovakia" -> Slovakia(c)
    [] cal = "Sweden" -> Sweden(c)
    [] cal = "Switzerland" -> Switzerland(c)
    [] cal = "Target" -> Target(c)
    [] cal = "Ukraine" -> Ukraine(c)
    [] cal = "UnitedKingdom" -> UnitedKingdom(c)
    [] cal = "WeekendsOnly" -> {}

OpenWeekendsEurope(c, cal, market) ==
  IF cal = "Russia" /\ market = "Exchange" THEN RussiaWorkingWeekends(c) ELSE {}
=============================================================================
