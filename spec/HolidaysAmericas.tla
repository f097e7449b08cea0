-------------------------- MODULE HolidaysAmericas --------------------------
(* The American calendars (C07). *)
EXTENDS HolidayRules

Argentina(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<5, 25>>, <<7, 9>>, <<12, 8>>, <<12, 24>>, <<12, 31>>})
  \cup Easter(c, {-4, -3})
  \cup Nth(c, 6, 3, Mon) \cup Nth(c, 8, 3, Mon)
  \* Columbus day: 12 October, from Tuesday or Wednesday to the Monday before, from Thursday or Friday
  \* to the Monday after
  \cup WeekdayWithin(c, 10, 10, 12, Mon) \cup WeekdayWithin(c, 10, 15, 16, Mon)
  \cup WeekdayWithin(c, 12, 30, 30, Fri)

BrazilSettlement(c) ==
  Fixed(c, {<<1, 1>>, <<4, 21>>, <<5, 1>>, <<9, 7>>, <<10, 12>>, <<11, 2>>, <<11, 15>>, <<12, 25>>})
  \cup Easter(c, {-49, -48, -3, 59})
BrazilExchange(c) ==
  BrazilSettlement(c) \cup Fixed(c, {<<1, 25>>, <<7, 9>>, <<12, 24>>, <<12, 31>>})
  \cup Since(c, 2007, On(c, 11, 20)) \cup WeekdayWithin(c, 12, 29, 31, Fri)

CanadaShared(c) ==
  WkndToMon(c, 1, 1) \cup Since(c, 2008, Nth(c, 2, 3, Mon)) \cup GoodFriday(c)
  \cup WeekdayWithin(c, 5, 18, 24, Mon) \cup WkndToMon(c, 7, 1) \cup Nth(c, 8, 1, Mon) \cup Nth(c, 9, 1, Mon)
  \cup Since(c, 2021, WkndToMon(c, 9, 30)) \cup Nth(c, 10, 2, Mon)
  \cup TwoOn(c, 12, 25) \cup TwoOn(c, 12, 26)
CanadaSettlement(c) == CanadaShared(c) \cup WkndToMon(c, 11, 11)

Chile(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<5, 21>>, <<7, 16>>, <<8, 15>>, <<9, 18>>, <<9, 19>>, <<11, 1>>, <<12, 8>>,
            <<12, 25>>})
  \cup Since(c, 2017, SunToMon(c, 1, 1))
  \cup GoodFriday(c) \cup Since(c, 2021, On(c, 6, 21))
  \* 29 June and 12 October move to the Monday of their week, or to the next Monday from a Friday
  \cup WeekdayWithin(c, 6, 26, 29, Mon) \cup WeekdayWithin(c, 7, 2, 2, Mon)
  \cup WeekdayWithin(c, 10, 9, 12, Mon) \cup WeekdayWithin(c, 10, 15, 15, Mon)
  \cup Since(c, 2007, WeekdayWithin(c, 9, 17, 17, Mon)) \cup Since(c, 2017, WeekdayWithin(c, 9, 17, 17, Fri))
  \cup Since(c, 2007, WeekdayWithin(c, 9, 20, 20, Fri))
  \* Reformation day: from Tuesday to the Friday before, from Wednesday to the Friday after
  \cup Since(c, 2008, LET o == Day(c, 10, 31) IN
         IF WD(c, o) = Tue THEN {o - 4} ELSE IF WD(c, o) = Wed THEN {o + 2} ELSE {o})

Mexico(c) ==
  Fixed(c, {<<1, 1>>, <<5, 1>>, <<9, 16>>, <<11, 2>>, <<12, 12>>, <<12, 25>>})
  \cup Easter(c, {-4, -3})
  \cup Till(c, 2005, Fixed(c, {<<2, 5>>, <<3, 21>>, <<11, 20>>}))
  \cup Since(c, 2006, Nth(c, 2, 1, Mon) \cup Nth(c, 3, 3, Mon) \cup Nth(c, 11, 3, Mon))

(* --- United States ------------------------------------------------------ *)
USNewYear(c) == SunToMon(c, 1, 1)
KingDay(c, since) == Since(c, since, Nth(c, 1, 3, Mon))
WashingtonsBirthday(c) == Since(c, 1971, Nth(c, 2, 3, Mon)) \cup Till(c, 1970, Nearest(c, 2, 22))
MemorialDay(c) == Since(c, 1971, LastWeekday(c, 5, Mon)) \cup Till(c, 1970, Nearest(c, 5, 30))
Juneteenth(c) == Since(c, 2022, Nearest(c, 6, 19))
LaborDay(c) == Nth(c, 9, 1, Mon)
ColumbusDay(c) == Since(c, 1971, Nth(c, 10, 2, Mon))
\* the fourth Monday of October from 1971 to 1977
VeteransDay(c, rule(_, _, _)) == IF c.y > 1970 /\ c.y < 1978 THEN Nth(c, 10, 4, Mon) ELSE rule(c, 11, 11)
Thanksgiving(c) == Nth(c, 11, 4, Thu)

USSettlement(c) ==
  USNewYear(c) \cup WeekdayWithin(c, 12, 31, 31, Fri) \cup KingDay(c, 1983) \cup WashingtonsBirthday(c)
  \cup MemorialDay(c) \cup Juneteenth(c) \cup Nearest(c, 7, 4) \cup LaborDay(c) \cup ColumbusDay(c)
  \cup VeteransDay(c, Nearest) \cup Thanksgiving(c) \cup Nearest(c, 12, 25)

\* since 2015 Independence day has no substitute
USLibor(c) ==
  USSettlement(c) \ Since(c, 2015, Nearest(c, 7, 4) \ On(c, 7, 4))

NYSESpecial(c) == Announced(c, <<
  <<1954, <<1224>>>>, <<1956, <<1224>>>>, <<1958, <<1226>>>>, <<1961, <<529>>>>, <<1963, <<1125>>>>,
  <<1965, <<1224>>>>, <<1968, <<409, 705>>>>, <<1969, <<210, 331, 721>>>>, <<1972, <<1228>>>>,
  <<1973, <<125>>>>, <<1977, <<714>>>>, <<1985, <<927>>>>, <<1994, <<427>>>>,
  <<2001, <<911, 912, 913, 914>>>>, <<2004, <<611>>>>, <<2007, <<102>>>>, <<2012, <<1029, 1030>>>>,
  <<2018, <<1205>>>> >>)
  \* the paperwork crisis: closed on Wednesdays from 12 June 1968
  \cup In(c, {1968}, {o \in Day(c, 6, 12)..c.len : WD(c, o) = Wed})
USElection(c) == IF c.y <= 1968 \/ (c.y <= 1980 /\ c.y % 4 = 0) THEN WeekdayWithin(c, 11, 2, 8, Tue) ELSE {}
NYSE(c) ==
  USNewYear(c) \cup KingDay(c, 1998) \cup WashingtonsBirthday(c) \cup GoodFriday(c) \cup MemorialDay(c)
  \cup Juneteenth(c) \cup Nearest(c, 7, 4) \cup LaborDay(c) \cup Thanksgiving(c) \cup Nearest(c, 12, 25)
  \cup USElection(c) \cup NYSESpecial(c)

GovernmentBond(c) ==
  USNewYear(c) \cup KingDay(c, 1983) \cup WashingtonsBirthday(c)
  \cup NotIn(c, {2015, 2021, 2023}, GoodFriday(c)) \cup MemorialDay(c) \cup Juneteenth(c) \cup Nearest(c, 7, 4)
  \cup LaborDay(c) \cup ColumbusDay(c) \cup VeteransDay(c, SunToMon) \cup Thanksgiving(c)
  \cup Nearest(c, 12, 25)
  \cup In(c, {2018}, On(c, 12, 5)) \cup In(c, {2012}, On(c, 10, 30)) \cup In(c, {2004}, On(c, 6, 11))
SOFR(c) == GovernmentBond(c) \cup In(c, {2023}, GoodFriday(c))

NERC(c) ==
  USNewYear(c) \cup MemorialDay(c) \cup SunToMon(c, 7, 4) \cup LaborDay(c) \cup Thanksgiving(c)
  \cup SunToMon(c, 12, 25)
FederalReserve(c) ==
  NERC(c) \cup KingDay(c, 1983) \cup WashingtonsBirthday(c) \cup Juneteenth(c) \cup ColumbusDay(c)
  \cup VeteransDay(c, SunToMon)

American == {"Argentina", "Brazil", "Canada", "Chile", "Mexico", "UnitedStates"}
ClosedAmericas(c, cal, market) ==
  CASE cal = "Argentina" -> Argentina(c)
    [] cal = "Brazil" -> IF market = "Exchange" THEN BrazilExchange(c) ELSE BrazilSettlement(c)
    [] cal = "Canada" -> IF market = "TSX" THEN CanadaShared(c) ELSE CanadaSettlement(c)
    [] cal = "Chile" -> Chile(c)
    [] cal = "Mexico" -> Mexico(c)
    [] cal = "UnitedStates" -> CASE market = "Libor" -> USLibor(c)
                                 [] market = "NYSE" -> NYSE(c)
                                 [] market = "GovernmentBond" -> GovernmentBond(c)
                                 [] market = "SOFR" -> SOFR(c)
                                 [] market = "NERC" -> NERC(c)
                                 [] market = "FederalReserve" -> FederalReserve(c)
                                 [] OTHER -> USSettlement(c)
=============================================================================
