----------------------------- MODULE TCalendar ------------------------------
(***************************************************************************)
(* Conformance of the derived calendar queries (C10).  The abstract state  *)
(* of a calendar in a year is the set of its open days, recorded as twelve *)
(* month masks (bit d-1 = day d).                                          *)
(***************************************************************************)
EXTENDS Replay, Civil, Bitwise

TInit(hist) == 0

P2 == [k \in 0..30 |-> 2^k]
Full == [k \in 0..31 |-> IF k = 31 THEN 2147483647 ELSE IF k = 0 THEN 0 ELSE P2[k] - 1]
Bit(mask, k) == (mask \div P2[k]) % 2

MonthLens(y) == [m \in 1..12 |-> DaysInMonth(y, m)]

\* Saturdays and Sundays of a month
WeekendMask(y, m) ==
  LET s == SerialYMD(y, m, 1)
      RECURSIVE Go(_)
      Go(k) == IF k = DaysInMonth(y, m) THEN 0
               ELSE (IF WeekdayOfSerial(s + k) >= 6 THEN P2[k] ELSE 0) + Go(k + 1)
  IN Go(0)

\* last open day of a month
RECURSIVE TopBit(_, _)
TopBit(mask, k) == IF k = 0 THEN 0 ELSE IF Bit(mask, k - 1) = 1 THEN k ELSE TopBit(mask, k - 1)

YearBad(e) ==
  LET y == e.y
      len == MonthLens(y)
  IN {m \in 1..12 :
        ~ /\ Len(e.open) = 12
          /\ Len(e.hol) = 12
          /\ e.open[m] >= 0 /\ e.hol[m] = Full[len[m]] - e.open[m]     \* exactly the other days
          /\ e.aopen = e.open /\ e.ahol = e.hol
          /\ e.wknd[m] = WeekendMask(y, m)
          /\ Len(e.rows[m].last) >= 4
          /\ \A k \in 1..Len(e.rows[m].last) : e.rows[m].last[k] = <<y, m, len[m]>>
          /\ e.open[m] > 0 => Len(e.rows[m].eom) = Len(e.rows[m].last)
          /\ \A k \in 1..Len(e.rows[m].eom) : e.rows[m].eom[k] = <<y, m, TopBit(e.open[m], len[m])>>}

DkOk(e) == \A k \in 1..Len(e.dk) :
  LET r == e.dk[k] IN
    /\ Len(r) = 6
    /\ LET x == r[1]
       IN r = <<x, x[3], Weekday(x), x[2], x[1], Ordinal(x[1], x[2], x[3])>>

JointBad(e) == {m \in 1..12 : ~(/\ Len(e.a) = 12 /\ Len(e.b) = 12 /\ Len(e.all.open) = 12
                                /\ e.all.open[m] = (e.a[m] & e.b[m]))}

TApply(hist, n, e) ==
  CASE e.op = "year" ->
         LET bad == YearBad(e)
         IN [ok |-> bad = {} /\ DkOk(e), st |-> n,
             why |-> <<"inconsistent months", bad, "weekend", [m \in bad |-> WeekendMask(e.y, m)],
                       "last open", [m \in bad |-> IF Len(e.open) = 12 THEN TopBit(e.open[m], DaysInMonth(e.y, m)) ELSE 0],
                       "decomposition", DkOk(e)>>]
    [] e.op = "joint" ->
         LET bad == YearBad(e.all)
             jb == JointBad(e)
         IN [ok |-> bad = {} /\ jb = {} /\ DkOk(e.all), st |-> n,
             why |-> <<"inconsistent months", bad, "join is not the intersection in months", jb>>]
=============================================================================
