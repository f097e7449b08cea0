----------------------------- MODULE TLongBond ------------------------------
(***************************************************************************)
(* Conformance of bonds with very many coupons (C19-C21), one question at  *)
(* a time: the flows are never written out.                                *)
(*   new    the bond is made                                               *)
(*   on     what is paid on one day (C20), or whether anything is (C19)    *)
(*   all    the sum of all that is still to come (C21)                     *)
(* The terms are regular at the end, so that no two flows meet.            *)
(***************************************************************************)
EXTENDS Replay, Bond

Finite(v) == v \notin {"nan", "inf", "-inf"}
Eps(hist) == IF hist.prec = "f64" THEN RPow2(-44) ELSE RPow2(-17)

TermsOf(e) == [issue |-> e.issue, first |-> e.first, pen |-> e.pen, mat |-> e.mat, rate |-> RNorm(e.rate), face |-> RNorm(e.face)]
TInit(hist) == <<>>
Meets(t) == Ordered(t) /\ FirstPrior(t) # <<>> /\ RegularEnd(t) # <<>> /\ NumRegular(t) > 0 /\ DayLt(t.pen, t.mat)

\* how many coupons fall due up to and including a day
DueBy(t, d) == IF DayLt(d, t.first) THEN 0
               ELSE LET n == NumRegular(t)
                        m == NumRegular([t EXCEPT !.pen = d])
                    IN IF m < n THEN m ELSE n
Amount(t, k) == IF k = 1 THEN RMul(Regular(t), FirstFraction(t)) ELSE Regular(t)
Last(t) == RAdd(t.face, RMul(Regular(t), FinalFraction(t)))
\* coupons (1, 2, ...) paid on a day, and still to come at settlement
PaidOn(t, d, settle) ==
  LET m == ((d[1] - t.first[1]) * 12 + d[2] - t.first[2]) \div Period
  IN {k \in m..(m + 2) : k >= 1 /\ k <= NumRegular(t) /\ WeekendRoll(Coupon(t, k - 1)) = d /\ DayLt(settle, Coupon(t, k - 1))}
DoOn(hist, t, e) ==
  LET ks == PaidOn(t, e.day, e.settle)
      amounts == {Amount(t, k) : k \in ks} \cup (IF e.day = t.mat /\ DayLt(e.settle, t.mat) THEN {Last(t)} ELSE {})
      want == IF amounts = {} THEN R0 ELSE CHOOSE a \in amounts : TRUE
      near == e.amt # "panic" /\ Finite(e.amt) /\ RNear(e.amt, want, Eps(hist), R0)
  IN [ok |-> IF e.op = "any" THEN e.any = (amounts # {}) ELSE near, st |-> t,
      why |-> <<"coupons paid then", ks, "thousandths", RFloor(RMul(want, "1000/1"))>>]
DoAll(hist, t, e) ==
  LET n == NumRegular(t)
      gone == DueBy(t, e.settle)
      first == IF gone = 0 THEN Amount(t, 1) ELSE R0
      rest == IF n - gone - (IF gone = 0 THEN 1 ELSE 0) < 0 THEN 0 ELSE n - gone - (IF gone = 0 THEN 1 ELSE 0)
      want == IF DayLt(e.settle, t.mat) THEN RAdd(RAdd(first, RMul(RInt(rest), Regular(t))), Last(t)) ELSE R0
      tol == RMul(Eps(hist), RMul(RInt(n + 1), RAdd(RAbs(Last(t)), RMul("3/1", RAbs(Regular(t))))))
  IN [ok |-> e.sum[1] = "ok" /\ Finite(e.sum[2]) /\ RClose(e.sum[2], want, tol), st |-> t,
      why |-> <<"coupons due", gone, "of", n, "sum in thousandths", RFloor(RMul(want, "1000/1"))>>]
TApply(hist, t, e) ==
  CASE e.op = "new" -> [ok |-> Meets(TermsOf(e)) => e.res = "some", st |-> TermsOf(e), why |-> <<"a bond">>]
    [] e.op \in {"on", "any"} -> DoOn(hist, t, e)
    [] e.op = "all" -> DoAll(hist, t, e)
=============================================================================
