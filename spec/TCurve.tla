------------------------------- MODULE TCurve -------------------------------
(***************************************************************************)
(* Conformance of yield curves.  A history is the life of one curve: its   *)
(* construction ("new") and questions ("df").  judge "value" (C17): exact  *)
(* discount factors, and the data the interpolator that answers was given; *)
(* judge "outcome" (C18): which requests fail, and how.                    *)
(* User-written day counts and interpolators are modelled (Curve); for     *)
(* those of the library the specification takes what they answer when the  *)
(* driver asks them directly (C04 and C12-C16 judge those answers).        *)
(***************************************************************************)
EXTENDS Replay, Curve

TInit(hist) == <<>>

Finite(v) == v \notin {"nan", "inf", "-inf"}
Eps(hist) == IF hist.prec = "f64" THEN RPow2(-46) ELSE RPow2(-18)
TimeEps(hist) == IF hist.prec = "f64" THEN RPow2(-48) ELSE RPow2(-20)

InvalidHead == "Invalid inputs are passed by: "
DocumentedMessage(kind, msg) ==
  CASE kind = "InvalidInput" -> Len(msg) >= Len(InvalidHead) /\ SubSeq(msg, 1, Len(InvalidHead)) = InvalidHead
    [] kind = "InterpolationError" -> msg = "interpolation failed"
    [] kind = "ZeroDivisionError" -> msg = "Zero division occurred"
    [] OTHER -> TRUE
FailureOk(r, errors) == r[1] = "err" /\ r[2] \in errors /\ DocumentedMessage(r[2], r[3])

UserDayCount(hist) == hist.dc \in {"square", "picky"}
UserInterpolator(hist) == hist.kind = "poly"

TimeIn(hist, s, d, recorded) == IF UserDayCount(hist) THEN Time(hist.dc, s, d) ELSE recorded
Itp(hist) == [kind |-> hist.kind, m |-> Empty, c |-> IF UserInterpolator(hist) THEN hist.c ELSE <<>>,
              lo |-> hist.lo, hi |-> hist.hi]
YieldIn(hist, t, recorded) ==
  IF UserInterpolator(hist) THEN (IF t[1] = "err" THEN <<"err">> ELSE YieldAt(Itp(hist), t[2])) ELSE recorded

DoNew(hist, e) ==
  LET times == [k \in 1..Len(e.mats) |-> TimeIn(hist, e.s, e.mats[k], e.times[k])]
      ys == [k \in 1..Len(e.ys) |-> RNorm(e.ys[k])]
      fits == IF UserInterpolator(hist) THEN hist.fit = "" ELSE e.fits
      errors == NewErrors(times, ys, fits)
      accepted == e.res = <<"ok">>
      pts == CurvePoints(times, ys)
  IN IF errors = {}
     THEN [ok |-> accepted, st |-> [s |-> e.s, pts |-> IF hist.judge = "value" THEN pts ELSE <<>>], why |-> <<"a curve">>]
     ELSE [ok |-> FailureOk(e.res, errors), st |-> <<>>, why |-> <<"one of", errors>>]

\* the interpolator that answered holds the pairs (fraction, yield), in the given order, once
HeldOk(hist, st, held) ==
  \/ held = <<>>
  \/ /\ Len(held[1]) = Len(st.pts)
     /\ \A k \in 1..Len(st.pts) :
          /\ RNear(held[1][k][1], st.pts[k].x, TimeEps(hist), R0)
          /\ REq(held[1][k][2], st.pts[k].y)

(* Rounding allowance of the exponent: that of t y(t), and for a user's quadratic that of y itself. *)
GrowthTol(hist, t, y) ==
  LET c == Itp(hist).c
      slope == IF ~UserInterpolator(hist) THEN R0
               ELSE RAdd(RAbs(c[1]), RAdd(RMul("2/1", RMul(RAbs(t), RAbs(c[2]))), RMul("3/1", RMul(RSq(t), RAbs(c[3])))))
  IN RMul(Eps(hist), RMul(RAbs(t), RAdd(RAbs(y), slope)))

DoAsk(hist, st, e) ==
  LET ta == TimeIn(hist, st.s, e.a, e.t[1])
      tb == TimeIn(hist, st.s, e.b, e.t[2])
      ya == YieldIn(hist, ta, e.y[1])
      yb == YieldIn(hist, tb, e.y[2])
      T(d) == IF d = e.b THEN tb ELSE ta
      Y(d) == IF d = e.b THEN yb ELSE ya
      errors == DiscountErrors(st.s, T, Y, e.a, e.b)
      want == DiscountFactor(st.s, T, Y, e.a, e.b)
      tolA == IF e.a = st.s THEN R0 ELSE GrowthTol(hist, ta[2], ya[2])
      tol == RMul(want, RMul("2/1", RAdd(Eps(hist), RAdd(tolA, GrowthTol(hist, tb[2], yb[2])))))
  IN IF errors # {} THEN [ok |-> FailureOk(e.res, errors), st |-> st, why |-> <<"one of", errors>>]
     ELSE IF hist.judge = "outcome"
     THEN [ok |-> e.res[1] = "ok", st |-> st, why |-> <<"a discount factor">>]
     ELSE [ok |-> e.res[1] = "ok" /\ Finite(e.res[2]) /\ RClose(e.res[2], want, tol) /\ HeldOk(hist, st, e.held),
           st |-> st,
           why |-> <<hist.kind, hist.dc, "exponent", RFloor(RMul(Exponent(st.s, T, Y, e.a, e.b), "1000000000/1")),
                     "billionths, data", st.pts>>]

TApply(hist, st, e) ==
  CASE e.op = "new" -> DoNew(hist, e)
    [] e.op = "df" -> DoAsk(hist, st, e)
=============================================================================
