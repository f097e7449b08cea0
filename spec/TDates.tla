------------------------------- MODULE TDates -------------------------------
(***************************************************************************)
(* Conformance of the date type (C01, C02): the specification's state is   *)
(* the day the cursor stands on; each recorded call is one action.         *)
(***************************************************************************)
EXTENDS Replay, Civil

TInit(hist) == hist.from

(* --- text -------------------------------------------------------------- *)
D2 == [k \in 0..31 |-> IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)]
Pad4(n) == IF n < 10 THEN "000" \o ToString(n)
           ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n)
           ELSE ToString(n)
YearText(y) == IF y >= 0 /\ y <= 9999 THEN Pad4(y)
               ELSE IF y < 0 THEN "-" \o Pad4(-y) ELSE "+" \o Pad4(y)
DayText(x, yt) == yt \o "-" \o D2[x[2]] \o "-" \o D2[x[3]]

(* --- C01: construction and observers ------------------------------------ *)
MonthOk(y, m, rows) ==
  IF ~ValidYMD(y, m, 1) THEN rows = <<>>
  ELSE LET first == SerialYMD(y, m, 1)
           yt == YearText(y)
           lp == IsLeap(y)
       IN /\ Len(rows) = DaysInMonth(y, m)
          /\ \A d \in 1..DaysInMonth(y, m) :
               LET w == rows[d]
                   x == <<y, m, d>>
               IN /\ w.d = d
                  /\ w.g = x
                  /\ w.s = first + d - 1
                  /\ w.l = lp
                  /\ w.n = Succ(x)
                  /\ w.p = Pred(x)
                  /\ w.t = DayText(x, yt)

MonthDiff(y, m, rows) ==     \* diagnosis: the first row that is wrong
  IF ~ValidYMD(y, m, 1) THEN <<"no such month">>
  ELSE IF Len(rows) # DaysInMonth(y, m) THEN <<"days in month", DaysInMonth(y, m), "accepted", Len(rows)>>
  ELSE LET bad == {d \in 1..Len(rows) :
                     LET x == <<y, m, d>> w == rows[d]
                     IN ~(/\ w.g = x /\ w.s = Serial(x) /\ w.l = IsLeap(y) /\ w.n = Succ(x)
                          /\ w.p = Pred(x) /\ w.t = DayText(x, YearText(y)))}
       IN IF bad = {} THEN <<>>
          ELSE LET d == CHOOSE d \in bad : \A k \in bad : d <= k
                   x == <<y, m, d>>
               IN <<"day", x, "got", rows[d], "serial", Serial(x), "leap", IsLeap(y),
                    "next", Succ(x), "prev", Pred(x), "text", DayText(x, YearText(y))>>

\* a run of years, coarsely: first and last day, leap status
YearsOk(e) ==
  /\ Len(e.s) = (IF e.y + 399 > MaxYear THEN MaxYear - e.y + 1 ELSE 400)
  /\ \A k \in 1..Len(e.s) :
       LET y == e.y + k - 1
       IN /\ e.s[k] = DaysBeforeYear(y) + 1
          /\ e.e[k] = DaysBeforeYear(y) + DaysInYear(y)
          /\ e.l[k] = IsLeap(y)
          /\ e.f[k] = IsLeap(y)

PairOk(e) ==
  LET c == DayCmp(e.a, e.b)
  IN /\ e.diff = Serial(e.a) - Serial(e.b)
     /\ e.cmp = c
     /\ e.ops = <<c = 0, c < 0, c <= 0, c > 0, c >= 0, TRUE>>
     /\ c = 0 => e.hash

(* --- C02: arithmetic ----------------------------------------------------- *)
Moved(x, e) ==
  IF e.big # "" THEN <<>>
  ELSE CASE e.op = "addD" -> AddDays(x, e.n)
         [] e.op = "subD" -> AddDays(x, -e.n)
         [] e.op = "addM" -> AddMonths(x, e.n)
         [] e.op = "subM" -> AddMonths(x, -e.n)
         [] e.op = "addY" -> AddYears(x, e.n)

Step(x, r) == IF r = <<>> THEN x ELSE r

TApply(hist, x, e) ==
  CASE e.op = "month" -> LET ok == MonthOk(e.y, e.m, e.rows)
                         IN [ok |-> ok, st |-> x, why |-> IF ok THEN <<>> ELSE MonthDiff(e.y, e.m, e.rows)]
    [] e.op = "years" -> [ok |-> YearsOk(e), st |-> x, why |-> "a year of this run has the wrong first day, last day or leap status"]
    [] e.op = "make" -> LET r == IF e.big \/ ~ValidYMD(e.y, e.m, e.d) THEN <<>> ELSE <<e.y, e.m, e.d>>
                        IN [ok |-> e.r = r, st |-> x, why |-> r]
    [] e.op = "pair" -> [ok |-> PairOk(e), st |-> x, why |-> <<Serial(e.a) - Serial(e.b), DayCmp(e.a, e.b)>>]
    [] e.op \in {"succ", "pred"} ->
         LET r == IF e.op = "succ" THEN Succ(x) ELSE Pred(x)
             n == Step(x, r)
         IN [ok |-> /\ e.r = r
                    /\ e.s = Serial(n)
                    /\ e.diff = (IF r = <<>> THEN 0 ELSE IF e.op = "succ" THEN 1 ELSE -1),
             st |-> n, why |-> <<r, Serial(n)>>]
    [] e.op \in {"addD", "subD", "addM", "subM", "addY"} ->
         LET r == Moved(x, e)
         IN [ok |-> e.r = r, st |-> IF e.mv THEN Step(x, r) ELSE x, why |-> <<"from", x, r>>]
=============================================================================
