----------------------------- MODULE TDayCount ------------------------------
(* Conformance of the day-count fractions (C04): exact rationals against    *)
(* recorded floats, in double and single precision.                         *)
EXTENDS Replay, DayCount, BigRat

TInit(hist) == 0

Rel64 == RPow2(-48)
Rel32 == RPow2(-20)

OneOk(w, r, rel) ==
  IF w[1] = "err" THEN r = <<"err", "InvalidInput">>
  ELSE /\ r[1] = "ok"
       /\ r[2] \notin {"nan", "inf", "-inf"}
       /\ RNear(r[2], RRat(w[2], w[3]), rel, R0)

ConvOk(conv, e, res) ==
  LET w == Fraction(conv, e.a, e.b) IN OneOk(w, res[1], Rel64) /\ OneOk(w, res[2], Rel32)

TApply(hist, n, e) ==
  LET ok == /\ ConvOk("act360", e, e.act360)
            /\ ConvOk("act365", e, e.act365)
            /\ ConvOk("thirty360", e, e.thirty360)
  IN [ok |-> ok, st |-> n,
      why |-> <<"360", Act360(e.a, e.b), "365", Act365(e.a, e.b), "30/360", Thirty360(e.a, e.b)>>]
=============================================================================
