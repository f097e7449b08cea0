------------------------------ MODULE BizDays -------------------------------
(***************************************************************************)
(* Business days: rolling a day under a convention, and counting business  *)
(* days, over any calendar.  A calendar is its set of closed days given as *)
(* a sequence of disjoint intervals <<lo, hi>> of serial numbers.          *)
(***************************************************************************)
EXTENDS Civil

ClosedIn(iv, s) == \E k \in 1..Len(iv) : iv[k][1] <= s /\ s <= iv[k][2]

\* the first open serial on or after (on or before) s; it may lie outside the range of days
RECURSIVE NextOpen(_, _)
NextOpen(iv, s) ==
  LET hit == {k \in 1..Len(iv) : iv[k][1] <= s /\ s <= iv[k][2]}
  IN IF hit = {} THEN s ELSE NextOpen(iv, iv[CHOOSE k \in hit : TRUE][2] + 1)
RECURSIVE PrevOpen(_, _)
PrevOpen(iv, s) ==
  LET hit == {k \in 1..Len(iv) : iv[k][1] <= s /\ s <= iv[k][2]}
  IN IF hit = {} THEN s ELSE PrevOpen(iv, iv[CHOOSE k \in hit : TRUE][1] - 1)

SameMonth(a, b) == a[1] = b[1] /\ a[2] = b[2]

Conventions == <<"Unadjusted", "Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding">>

(* The day an unadjusted day u (a day or none) rolls to; none when a day   *)
(* that is needed does not exist.                                          *)
Roll(iv, u, conv) ==
  IF u = <<>> THEN <<>>
  ELSE LET f == FromSerial(NextOpen(iv, Serial(u)))
           p == FromSerial(PrevOpen(iv, Serial(u)))
       IN CASE conv = "Unadjusted" -> u
            [] conv = "Following" -> f
            [] conv = "Preceding" -> p
            [] conv = "ModifiedFollowing" ->
                 IF f = <<>> THEN <<>> ELSE IF SameMonth(f, u) THEN f ELSE p
            [] conv = "ModifiedPreceding" ->
                 IF p = <<>> THEN <<>> ELSE IF SameMonth(p, u) THEN p ELSE f

(* Periods: the library's own, and some of those a user may write: the last *)
(* day of the n-th month after, the third Wednesday of it, n weeks later, n  *)
(* days earlier, one that never ends and one that ends with the range.       *)
ThirdWednesday(x) == <<x[1], x[2], 15 + ((3 - Weekday(<<x[1], x[2], 1>>)) % 7)>>

PeriodEnd(x, per) ==
  CASE per[1] = "addD" -> AddDays(x, per[2])
    [] per[1] = "addM" -> AddMonths(x, per[2])
    [] per[1] = "addY" -> AddYears(x, per[2])
    [] per[1] = "month end" ->
         LET y == AddMonths(x, per[2]) IN IF y = <<>> THEN <<>> ELSE LastOfMonth(y)
    [] per[1] = "third Wednesday" ->
         LET y == AddMonths(x, per[2]) IN IF y = <<>> THEN <<>> ELSE ThirdWednesday(y)
    [] per[1] = "weeks" -> AddDays(x, 7 * per[2])
    [] per[1] = "back" -> AddDays(x, 0 - per[2])
    [] per[1] = "never" -> <<>>
    [] per[1] = "forever" -> MaxDay

(* --- counting ----------------------------------------------------------- *)
(* open(k) says whether the day with index k is a business day.  Flags: 2   *)
(* unspecified (first included, last not), 1 included, 0 not included.      *)
IncFirst(f) == f # 0
IncLast(l) == l = 1

CountUp(open(_), a, b, f, l) ==        \* a <= b
  IF a = b THEN (IF IncFirst(f) /\ IncLast(l) /\ open(a) THEN 1 ELSE 0)
  ELSE LET RECURSIVE Inner(_)
           Inner(k) == IF k >= b THEN 0 ELSE (IF open(k) THEN 1 ELSE 0) + Inner(k + 1)
       IN Inner(a + 1) + (IF IncFirst(f) /\ open(a) THEN 1 ELSE 0)
                       + (IF IncLast(l) /\ open(b) THEN 1 ELSE 0)

Count(open(_), a, b, f, l) == IF a <= b THEN CountUp(open, a, b, f, l) ELSE -CountUp(open, b, a, f, l)

(* Calendars closed on certain days of the week and on certain days besides: *)
(* how many of their business days lie between two serial numbers follows    *)
(* from the numbers alone, over any number of years.                         *)
\* serials a..b that are day w of the week
OnWeekday(a, b, w) == IF a > b THEN 0 ELSE ((b - w) \div 7) - ((a - 1 - w) \div 7)
RECURSIVE OnWeekdayIn(_, _, _, _, _)
OnWeekdayIn(iv, k, a, b, w) ==
  IF k > Len(iv) THEN 0
  ELSE OnWeekday(IF iv[k][1] < a THEN a ELSE iv[k][1], IF iv[k][2] > b THEN b ELSE iv[k][2], w)
       + OnWeekdayIn(iv, k + 1, a, b, w)
OpenWeekly(off, iv, s) == WeekdayOfSerial(s) \notin off /\ ~ClosedIn(iv, s)
RECURSIVE OpenBetween(_, _, _, _, _)
OpenBetween(off, iv, a, b, w) ==
  IF w > 7 THEN 0
  ELSE (IF w \in off THEN 0 ELSE OnWeekday(a, b, w) - OnWeekdayIn(iv, 1, a, b, w))
       + OpenBetween(off, iv, a, b, w + 1)
CountWeeklyUp(off, iv, a, b, f, l) ==      \* a <= b
  LET open(s) == IF OpenWeekly(off, iv, s) THEN 1 ELSE 0
  IN IF a = b THEN (IF IncFirst(f) /\ IncLast(l) THEN open(a) ELSE 0)
     ELSE OpenBetween(off, iv, a + 1, b - 1, 1) + (IF IncFirst(f) THEN open(a) ELSE 0)
                                                + (IF IncLast(l) THEN open(b) ELSE 0)
CountWeekly(off, iv, a, b, f, l) ==
  IF a <= b THEN CountWeeklyUp(off, iv, a, b, f, l) ELSE -CountWeeklyUp(off, iv, b, a, f, l)

Pow2 == [k \in 0..30 |-> 2^k]
Bit(mask, k) == (mask \div Pow2[k]) % 2
=============================================================================
