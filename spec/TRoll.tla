------------------------------- MODULE TRoll --------------------------------
(* Conformance of business-day rolling (C03). *)
EXTENDS Replay, BizDays

\* the specification's state: the unadjusted day all events of the history roll from
TInit(hist) == PeriodEnd(hist.from, hist.per)

Five(iv, u) == [k \in 1..5 |-> Roll(iv, u, Conventions[k])]

\* intervals of the closed days of a window
MaskIv(mask, first, len) ==
  LET RECURSIVE Go(_, _)
      Go(k, acc) == IF k = len THEN acc
                    ELSE IF Bit(mask, k) = 1 THEN Go(k + 1, Append(acc, <<first + k, first + k>>))
                    ELSE Go(k + 1, acc)
  IN Go(0, <<>>)

WeekendDiff(y, m, r) ==
  IF Len(r) # DaysInMonth(y, m) THEN {0}
  ELSE {d \in 1..Len(r) : r[d] # WeekendRoll(<<y, m, d>>)}

TApply(hist, u, e) ==
  CASE e.op = "mask" ->
         LET w == Five(MaskIv(e.closed, hist.first, hist.len), u)
         IN [ok |-> e.r = w, st |-> u, why |-> <<"unadjusted", u, "expected", w>>]
    [] e.op = "closure" ->
         LET v == PeriodEnd(e.from, e.per)
             w == Five(e.iv, v)
         IN [ok |-> e.r = w, st |-> u, why |-> <<"unadjusted", v, "expected", w>>]
    [] e.op = "weekend" ->
         LET bad == WeekendDiff(e.y, e.m, e.r)
         IN [ok |-> bad = {}, st |-> u, why |-> <<"wrong days of month", bad, [d \in bad \ {0} |-> WeekendRoll(<<e.y, e.m, d>>)]>>]
=============================================================================
