------------------------------- MODULE Price --------------------------------
(***************************************************************************)
(* From quotes to price: a bond valued on a curve that was built from      *)
(* quoted maturities and yields.  Nothing here but the composition of the  *)
(* parts: Bond.Flows gives the flows, DayCount the times, Interp the       *)
(* yields, Curve the discount factors, Bond.Value the sum.                 *)
(***************************************************************************)
EXTENDS Curve, Bond

\* quotes: [s, dc, kind, mats, ys]; a curve: [s, dc, m]
QuoteTimes(q) == [k \in 1..Len(q.mats) |-> LET t == Time(q.dc, q.s, q.mats[k]) IN t]
QuotePoints(q) == CurvePoints(QuoteTimes(q), q.ys)
QuoteErrors(q) ==
  LET times == QuoteTimes(q)
      bad == Len(q.mats) # Len(q.ys) \/ TimeErrors(times) # {}
  IN NewErrors(times, q.ys, IF bad THEN TRUE ELSE FitErrors(q.kind, QuotePoints(q)) = {})
CurveOf(q) == [s |-> q.s, dc |-> q.dc, m |-> Fitted(q.kind, QuotePoints(q))]

TimeOn(c, d) == Time(c.dc, c.s, d)
YieldOn(c, d) ==
  LET t == TimeOn(c, d) IN
  IF t[1] = "err" THEN <<"err">>
  ELSE IF Side(c.m, t[2]) # "in" THEN <<"err">>
  ELSE <<"ok", ValueOf(c.m, c.m.q, t[2])>>
GrowthOn(c, d) == IF d = c.s THEN R0 ELSE RMul(TimeOn(c, d)[2], YieldOn(c, d)[2])
FactorErrors(c, a, b) ==
  LET T(d) == TimeOn(c, d)
      Y(d) == YieldOn(c, d)
  IN DiscountErrors(c.s, T, Y, a, b)
FactorOn(c, a, b) == RExp(RSub(GrowthOn(c, a), GrowthOn(c, b)))

PriceErrors(c, flows, settle) ==
  UNION {FactorErrors(c, settle, flows[k].pay) : k \in Future(flows, settle)}
PriceOf(c, flows, settle) ==
  LET D(d) == FactorOn(c, settle, d) IN Value(flows, settle, D)
=============================================================================
