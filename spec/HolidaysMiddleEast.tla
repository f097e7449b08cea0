------------------------- MODULE HolidaysMiddleEast -------------------------
(* The Middle Eastern and African calendars (C09). *)
EXTENDS HolidayRules, Hebrew

(* A holiday and the next day both holidays: from Sunday to Monday, or on to Tuesday. *)
Botswana(c) ==
  SunToMon(c, 1, 1) \cup WeekdayWithin(c, 1, 3, 3, Tue)
  \cup Easter(c, {-3, 0, 38}) \cup SunToMon(c, 5, 1) \cup SunToMon(c, 7, 1) \cup Nth(c, 7, 3, Mon)
  \cup SunToMon(c, 9, 30) \cup SunToMon(c, 10, 1) \cup WeekdayWithin(c, 10, 3, 3, Tue)
  \cup On(c, 12, 25) \cup SunToMon(c, 12, 26)

SouthAfrica(c) ==
  SunToMon(c, 1, 1) \cup Easter(c, {-3, 0}) \cup SunToMon(c, 3, 21) \cup SunToMon(c, 4, 27) \cup SunToMon(c, 5, 1)
  \cup SunToMon(c, 6, 16) \cup SunToMon(c, 8, 9) \cup SunToMon(c, 9, 24) \cup SunToMon(c, 12, 16)
  \cup On(c, 12, 25) \cup SunToMon(c, 12, 26)
  \cup Announced(c, << <<2004, <<414>>>>, <<2009, <<422>>>>, <<2016, <<803>>>>, <<2021, <<1101>>>>,
                       <<2022, <<1227>>>> >>)

(* --- Turkey --------------------------------------------------------------- *)
(* Ramadan and Sacrifice feasts as announced (from 2024 on: as expected). *)
TurkeyFeasts == <<
  <<2004, <<201, 202, 203, 204, 1114, 1115, 1116>>>>,
  <<2005, <<119, 120, 121, 1102, 1103, 1104, 1105>>>>,
  <<2006, <<110, 111, 112, 113, 1023, 1024, 1025, 1231>>>>,
  <<2007, <<101, 102, 103, 1012, 1013, 1014, 1220, 1221, 1222, 1223>>>>,
  <<2008, <<930, 1001, 1002, 1208, 1209, 1210, 1211>>>>,
  <<2009, <<920, 921, 922, 1127, 1128, 1129, 1130>>>>,
  <<2010, <<909, 910, 911, 1116, 1117, 1118, 1119>>>>,
  <<2011, <<830, 831, 901, 1106, 1107, 1108, 1109>>>>,
  <<2012, <<818, 819, 820, 821, 1024, 1025, 1026, 1027, 1028>>>>,
  <<2013, <<807, 808, 809, 810, 1014, 1015, 1016, 1017, 1018, 1028>>>>,
  <<2014, <<727, 728, 729, 730, 1004, 1005, 1006, 1007, 1029>>>>,
  <<2015, <<717, 718, 719, 924, 925, 926, 927>>>>,
  <<2016, <<705, 706, 707, 912, 913, 914, 915>>>>,
  <<2017, <<625, 626, 627, 901, 902, 903, 904>>>>,
  <<2018, <<615, 616, 617, 821, 822, 823, 824>>>>,
  <<2019, <<604, 605, 606, 811, 812, 813, 814>>>>,
  <<2020, <<524, 525, 526, 731, 801, 802, 803>>>>,
  <<2021, <<513, 514, 515, 720, 721, 722, 723>>>>,
  <<2022, <<502, 503, 504, 709, 710, 711, 712>>>>,
  <<2023, <<421, 422, 423, 628, 629, 630>>>>,
  <<2024, <<410, 411, 412, 617, 618, 619>>>>,
  <<2025, <<331, 401, 402, 606, 607, 608, 609>>>>,
  <<2026, <<320, 321, 322, 526, 527, 528, 529>>>>,
  <<2027, <<310, 311, 312, 516, 517, 518, 519>>>>,
  <<2028, <<227, 228, 229, 504, 505, 506, 507>>>>,
  <<2029, <<215, 216, 217, 423, 424, 425, 426>>>>,
  <<2030, <<205, 206, 207, 413, 414, 415, 416>>>>,
  <<2031, <<125, 126, 127, 402, 403, 404, 405>>>>,
  <<2032, <<114, 115, 116, 321, 322, 323, 324>>>>,
  <<2033, <<103, 104, 105, 311, 312, 313, 314, 1223>>>>,
  <<2034, <<228, 301, 302, 303, 1212, 1213, 1214>>>> >>
Turkey(c) ==
  Fixed(c, {<<1, 1>>, <<4, 23>>, <<5, 1>>, <<5, 19>>, <<8, 30>>, <<10, 29>>}) \cup Since(c, 2017, On(c, 7, 15))
  \cup Announced(c, TurkeyFeasts)

MiddleEastern == {"Botswana", "Israel", "SouthAfrica", "Turkey"}
ClosedMiddleEast(c, cal, market) ==
  CASE cal = "Botswana" -> Botswana(c)
    [] cal = "Israel" -> Israel(c)
    [] cal = "SouthAfrica" -> SouthAfrica(c)
    [] cal = "Turkey" -> Turkey(c)
=============================================================================
