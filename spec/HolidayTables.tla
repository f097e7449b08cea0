--------------------------- MODULE HolidayTables ----------------------------
(***************************************************************************)
(* Days announced year by year, as <<year, <<mmdd, ...>>>>: weekdays on    *)
(* which a market closes in addition to its standing rules.                *)
(* MCHolidays checks them against the Chinese lunisolar calendar.          *)
(***************************************************************************)
EXTENDS HolidayRules

ChinaTable == <<
  <<2004, <<119, 120, 121, 122, 123, 126, 127, 128>>>>,
  <<2005, <<103, 207, 208, 209, 210, 211, 214, 215>>>>,
  <<2006, <<102, 103, 126, 127, 130, 131, 201, 202, 203>>>>,
  <<2007, <<102, 103, 219, 220, 221, 222, 223, 1231>>>>,
  <<2008, <<206, 207, 208, 211, 212, 501, 502, 929, 930, 1001, 1002, 1003>>>>,
  <<2009, <<102, 126, 127, 128, 129, 130, 406, 501, 528, 529, 1001, 1002, 1005, 1006, 1007, 1008>>>>,
  <<2010, <<215, 216, 217, 218, 219, 405, 503, 614, 615, 616, 922, 923, 924, 1001, 1004, 1005, 1006, 1007>>>>,
  <<2011, <<103, 202, 203, 204, 207, 208, 404, 405, 502, 606, 912, 1003, 1004, 1005, 1006, 1007>>>>,
  <<2012, <<102, 103, 123, 124, 125, 126, 127, 402, 403, 404, 430, 501, 622, 1001, 1002, 1003, 1004, 1005>>>>,
  <<2013, <<102, 103, 211, 212, 213, 214, 215, 404, 405, 429, 430, 501, 610, 611, 612, 919, 920, 1001, 1002, 1003, 1004, 1007>>>>,
  <<2014, <<131, 203, 204, 205, 206, 407, 501, 502, 602, 908, 1001, 1002, 1003, 1006, 1007>>>>,
  <<2015, <<102, 218, 219, 220, 223, 224, 406, 501, 622, 903, 904, 1001, 1002, 1005, 1006, 1007>>>>,
  <<2016, <<208, 209, 210, 211, 212, 404, 502, 609, 610, 915, 916, 1003, 1004, 1005, 1006, 1007>>>>,
  <<2017, <<102, 127, 130, 131, 201, 202, 403, 404, 501, 529, 530, 1002, 1003, 1004, 1005, 1006>>>>,
  <<2018, <<215, 216, 219, 220, 221, 405, 406, 430, 501, 618, 924, 1001, 1002, 1003, 1004, 1005, 1231>>>>,
  <<2019, <<204, 205, 206, 207, 208, 405, 501, 502, 503, 607, 913, 1001, 1002, 1003, 1004, 1007>>>>,
  <<2020, <<124, 127, 128, 129, 130, 131, 406, 501, 504, 505, 625, 626, 1001, 1002, 1005, 1006, 1007, 1008>>>>,
  <<2021, <<211, 212, 215, 216, 217, 405, 503, 504, 505, 614, 920, 921, 1001, 1004, 1005, 1006, 1007>>>>,
  <<2022, <<103, 131, 201, 202, 203, 204, 404, 405, 502, 503, 504, 603, 912, 1003, 1004, 1005, 1006, 1007>>>>,
  <<2023, <<102, 123, 124, 125, 126, 127, 405, 501, 502, 503, 622, 623, 929, 1002, 1003, 1004, 1005, 1006>>>> >>

HongKongTable == <<
  <<2004, <<122, 123, 405, 526, 622, 929, 1022>>>>,
  <<2005, <<209, 210, 211, 405, 516, 919, 1011>>>>,
  <<2006, <<130, 131, 405, 505, 531, 1030>>>>,
  <<2007, <<219, 220, 405, 524, 619, 926, 1019>>>>,
  <<2008, <<207, 208, 404, 512, 609, 915, 1007>>>>,
  <<2009, <<126, 127, 128, 528, 1026>>>>,
  <<2010, <<215, 216, 406, 521, 616, 923>>>>,
  <<2011, <<203, 204, 405, 510, 606, 913, 1005, 1227>>>>,
  <<2012, <<123, 124, 125, 404, 510, 1023>>>>,
  <<2013, <<211, 212, 213, 404, 517, 612, 920, 1014>>>>,
  <<2014, <<131, 203, 506, 602, 909, 1002>>>>,
  <<2015, <<219, 220, 407, 525, 903, 928, 1021>>>>,
  <<2016, <<208, 209, 210, 404, 609, 916, 1010, 1227>>>>,
  <<2017, <<130, 131, 404, 503, 530, 1005>>>>,
  <<2018, <<216, 219, 405, 522, 618, 925, 1017>>>>,
  <<2019, <<205, 206, 207, 405, 607, 1007>>>>,
  <<2020, <<127, 128, 430, 625, 1002, 1026>>>>,
  <<2021, <<212, 215, 519, 614, 922, 1014>>>>,
  <<2022, <<201, 202, 203, 405, 509, 603, 912, 1004>>>>,
  <<2023, <<123, 124, 125, 405, 526, 622, 1023>>>>,
  <<2024, <<212, 213, 404, 515, 610, 918, 1011>>>> >>

IndiaTable == <<
  <<2005, <<121, 907, 1012, 1101, 1103, 1115>>>>,
  <<2006, <<111, 209, 315, 406, 411, 1024, 1025>>>>,
  <<2007, <<101, 130, 216, 327, 502, 1109, 1221>>>>,
  <<2008, <<306, 320, 418, 519, 903, 1009, 1028, 1030, 1113, 1209>>>>,
  <<2009, <<108, 223, 310, 311, 403, 407, 921, 928, 1019, 1102, 1228>>>>,
  <<2010, <<101, 212, 301, 324, 910, 1105, 1117, 1217>>>>,
  <<2011, <<302, 412, 831, 901, 1006, 1026, 1027, 1107, 1110, 1206>>>>,
  <<2012, <<220, 308, 405, 820, 919, 1024, 1114, 1128>>>>,
  <<2013, <<327, 419, 424, 809, 909, 1016, 1104, 1114>>>>,
  <<2014, <<227, 317, 408, 729, 829, 1003, 1006, 1024, 1104, 1106>>>>,
  <<2019, <<219, 304, 321, 401, 417, 429, 605, 812, 902, 910, 1008, 1021, 1028, 1112>>>>,
  <<2020, <<219, 221, 310, 325, 401, 402, 406, 507, 525, 1030, 1116, 1130>>>>,
  <<2021, <<219, 311, 329, 413, 421, 526, 721, 910, 1015, 1019, 1105, 1119>>>>,
  <<2022, <<301, 318, 503, 516, 831, 1005, 1026, 1108>>>>,
  <<2023, <<308, 322, 330, 404, 505, 628, 919, 928, 1024, 1114, 1127>>>>,
  <<2024, <<219, 308, 325, 409, 417, 523, 617, 827, 916, 1115>>>>,
  <<2025, <<219, 226, 314, 331, 410, 512, 905, 1022, 1105>>>> >>

IndonesiaTable == <<
  <<2005, <<121, 209, 210, 311, 422, 524, 902, 1102, 1103, 1104, 1107, 1108, 1226>>>>,
  <<2006, <<110, 131, 330, 410, 821, 1023, 1024, 1025, 1026, 1027>>>>,
  <<2007, <<319, 518, 601, 1012, 1015, 1016, 1024, 1220>>>>,
  <<2008, <<110, 111, 207, 208, 307, 320, 520, 730, 818, 930, 1001, 1002, 1003, 1208, 1229, 1231>>>>,
  <<2009, <<102, 126, 309, 326, 409, 720, 918, 921, 922, 923, 1127, 1218, 1224, 1231>>>>,
  <<2010, <<226, 316, 528, 908, 909, 910, 913, 914, 1117, 1207, 1224, 1231>>>>,
  <<2011, <<203, 215, 517, 629, 829, 830, 831, 901, 902, 1226>>>>,
  <<2012, <<123, 323, 820, 821, 822, 1026, 1115, 1116, 1224, 1231>>>>,
  <<2013, <<124, 312, 606, 805, 806, 807, 808, 809, 1014, 1015, 1105, 1226, 1231>>>>,
  <<2014, <<114, 131, 331, 501, 515, 527, 728, 729, 730, 731, 801, 1226, 1231>>>> >>

SingaporeTable == <<
  <<2004, <<122, 123, 202, 602, 1111, 1115>>>>,
  <<2005, <<121, 209, 210, 1101, 1103>>>>,
  <<2006, <<110, 130, 131, 512, 1024>>>>,
  <<2007, <<102, 219, 220, 531, 1108, 1220>>>>,
  <<2008, <<207, 208, 1001, 1028, 1208>>>>,
  <<2009, <<126, 127, 921, 1116, 1127>>>>,
  <<2010, <<215, 216, 528, 910, 1105, 1117>>>>,
  <<2012, <<123, 124, 820, 1026, 1113>>>>,
  <<2013, <<211, 212, 524, 808, 1015>>>>,
  <<2014, <<131, 513, 728, 1006, 1023>>>>,
  <<2019, <<205, 206, 520, 605, 812, 1028>>>>,
  <<2020, <<127, 507, 525, 731>>>>,
  <<2021, <<212, 513, 526, 720, 1104>>>>,
  <<2022, <<201, 202, 502, 503, 516, 711, 1024, 1226>>>>,
  <<2023, <<123, 124, 602, 629, 1113>>>> >>

SouthKoreaTable == <<
  <<2004, <<121, 122, 123, 415, 526, 927, 928, 929>>>>,
  <<2005, <<208, 209, 210, 919>>>>,
  <<2006, <<130, 531, 1005, 1006>>>>,
  <<2007, <<219, 524, 924, 925, 926, 1219>>>>,
  <<2008, <<206, 207, 208, 409, 512, 915>>>>,
  <<2009, <<126, 127, 1002>>>>,
  <<2010, <<215, 521, 602, 921, 922, 923>>>>,
  <<2011, <<202, 203, 204, 510, 912, 913>>>>,
  <<2012, <<123, 124, 411, 528, 1001, 1219>>>>,
  <<2013, <<211, 517, 918, 919, 920>>>>,
  <<2014, <<130, 131, 506, 604, 908, 909, 910>>>>,
  <<2015, <<218, 219, 220, 525, 814, 928, 929>>>>,
  <<2016, <<208, 209, 210, 413, 914, 915, 916>>>>,
  <<2017, <<127, 130, 503, 509, 1004, 1005, 1006>>>>,
  <<2018, <<215, 216, 522, 613, 924, 925, 926>>>>,
  <<2019, <<204, 205, 206, 912, 913>>>>,
  <<2020, <<124, 127, 415, 430, 817, 930, 1001, 1002>>>>,
  <<2021, <<211, 212, 519, 920, 921, 922>>>>,
  <<2022, <<131, 201, 202, 309, 601, 909, 912>>>>,
  <<2023, <<123, 124, 529, 928, 929, 1002>>>>,
  <<2024, <<209, 212, 410, 515, 916, 917, 918>>>>,
  <<2025, <<128, 129, 130, 506, 1006, 1007, 1008>>>>,
  <<2026, <<216, 217, 218, 525, 924, 925>>>>,
  <<2027, <<208, 209, 513, 914, 915, 916>>>>,
  <<2028, <<126, 127, 128, 502, 1002, 1004, 1005>>>>,
  <<2029, <<212, 213, 214, 521, 921, 924>>>>,
  <<2030, <<204, 205, 509, 911, 912, 913>>>>,
  <<2031, <<122, 123, 124, 528, 930, 1001, 1002>>>>,
  <<2032, <<210, 211, 212, 517, 920, 921>>>>,
  <<2033, <<131, 201, 202, 506, 907, 908, 909>>>>,
  <<2034, <<220, 221, 525, 926, 927, 928>>>>,
  <<2035, <<207, 208, 209, 515, 917, 918>>>>,
  <<2036, <<128, 129, 130, 506, 1006, 1007>>>>,
  <<2037, <<216, 217, 522, 923, 924, 925>>>>,
  <<2038, <<203, 204, 205, 511, 913, 914, 915>>>>,
  <<2039, <<124, 125, 126, 502, 1004, 1005>>>>,
  <<2040, <<213, 214, 518, 920, 921>>>>,
  <<2041, <<131, 201, 507, 909, 910, 911>>>>,
  <<2042, <<121, 122, 123, 526, 929, 930>>>>,
  <<2043, <<209, 210, 211, 518, 916, 917, 918>>>>,
  <<2044, <<129, 201, 506, 1004, 1005, 1006>>>>,
  <<2045, <<216, 217, 524, 925, 926, 927>>>>,
  <<2046, <<205, 206, 207, 514, 914, 917>>>>,
  <<2047, <<125, 128, 502, 1004, 1007>>>>,
  <<2048, <<213, 214, 520, 921, 922, 923>>>>,
  <<2049, <<201, 202, 203, 510, 910, 913>>>>,
  <<2050, <<124, 125, 530, 929, 930>>>> >>

TaiwanTable == <<
  <<2002, <<211, 212, 213, 214, 215>>>>,
  <<2003, <<131, 203, 204, 205, 604, 911>>>>,
  <<2004, <<121, 122, 123, 126, 622, 928>>>>,
  <<2005, <<207, 208, 209, 210, 211, 502>>>>,
  <<2006, <<130, 131, 201, 202, 203, 531, 1006>>>>,
  <<2007, <<219, 220, 221, 222, 223, 406, 618, 619, 924, 925>>>>,
  <<2008, <<204, 205, 206, 207, 208, 211, 404>>>>,
  <<2009, <<102, 126, 127, 128, 129, 130, 528, 529>>>>,
  <<2010, <<215, 216, 217, 218, 219, 616, 922>>>>,
  <<2011, <<202, 203, 204, 207, 404, 502, 606, 912>>>>,
  <<2012, <<123, 124, 125, 126, 127, 227, 404, 1231>>>>,
  <<2013, <<211, 212, 213, 214, 215, 404, 612, 919, 920>>>>,
  <<2014, <<128, 129, 130, 131, 203, 204, 404, 602, 908>>>>,
  <<2015, <<102, 218, 219, 220, 223, 227, 403, 406, 619, 928, 1009>>>>,
  <<2016, <<208, 209, 210, 211, 212, 229, 404, 502, 609, 610, 915, 916>>>>,
  <<2017, <<102, 127, 130, 131, 201, 227, 403, 404, 529, 530, 1004, 1009>>>>,
  <<2018, <<215, 216, 219, 220, 404, 406, 618, 924, 1231>>>>,
  <<2019, <<204, 205, 206, 207, 208, 301, 404, 607, 913, 1011>>>>,
  <<2020, <<123, 124, 127, 128, 129, 402, 403, 625, 626, 1001, 1002, 1009>>>>,
  <<2021, <<210, 211, 212, 215, 216, 301, 402, 430, 614, 920, 921, 1011, 1231>>>>,
  <<2022, <<131, 201, 202, 203, 204, 404, 502, 603, 909>>>>,
  <<2023, <<102, 120, 123, 124, 125, 126, 127, 227, 403, 404, 622, 623, 929, 1009>>>>,
  <<2024, <<208, 209, 212, 213, 214, 404, 610, 917>>>> >>

ThailandTable == <<
  <<2000, <<221, 505, 517, 717, 1023>>>>,
  <<2001, <<208, 507, 508, 706, 1023>>>>,
  <<2005, <<223, 505, 523, 701, 722, 1024>>>>,
  <<2006, <<213, 419, 505, 512, 612, 613, 711, 1023>>>>,
  <<2007, <<305, 507, 531, 730, 1023, 1224>>>>,
  <<2008, <<221, 505, 519, 701, 717, 1023>>>>,
  <<2009, <<102, 209, 505, 508, 701, 706, 707, 1023>>>>,
  <<2010, <<301, 505, 520, 521, 528, 701, 726, 813, 1025>>>>,
  <<2011, <<218, 505, 516, 517, 701, 715, 1024>>>>,
  <<2012, <<103, 307, 409, 507, 604, 802, 1023>>>>,
  <<2013, <<225, 506, 524, 701, 722, 1023, 1230>>>>,
  <<2014, <<214, 505, 513, 701, 711, 811, 1023>>>>,
  <<2015, <<102, 304, 504, 505, 601, 701, 730, 1023>>>>,
  <<2016, <<222, 505, 506, 520, 701, 718, 719, 1024>>>>,
  <<2017, <<213, 510, 710, 1023, 1026>>>>,
  <<2018, <<301, 529, 727, 1023>>>> >>

=============================================================================
