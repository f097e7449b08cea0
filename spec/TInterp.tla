------------------------------ MODULE TInterp -------------------------------
(***************************************************************************)
(* Conformance of the interpolators (C12-C16).  A history is the life of   *)
(* one interpolator: fits (a later one replaces the data, a failed one     *)
(* leaves an empty interpolator) and questions.  With shape FALSE only the      *)
(* range is modelled.                                                      *)
(*   fit, ask, wildfit, wild   C12: acceptance, range, no panic            *)
(*   knot                      C13: value at and next to a data point      *)
(*   value                     C14-C16: the exact value                    *)
(* Floats are recorded exactly; the specification's values are exact, and  *)
(* are compared within a rounding allowance proportional to the size of    *)
(* the terms involved (Tol).                                               *)
(***************************************************************************)
EXTENDS Replay, Allowance

TInit(hist) == [m |-> Empty, size |-> R0, told |-> FALSE]

PointOf(t) == [x |-> RNorm(t[1]), y |-> RNorm(t[2]), s |-> RNorm(t[3])]
Points(e) == [i \in 1..Len(e.pts) |-> PointOf(e.pts[i])]

Tol(hist, st) == RMul(Eps(hist.prec), st.size)
\* one step of the argument's own grid changes the value by this much more
GridTol(hist, st) ==
  LET n == Len(st.m.p)
      X(i) == RAbs(st.m.p[i].x)
      InvH(i) == RDiv(R1, Gap(st.m.p, i))
  IN RMul(Tol(hist, st), RAdd(R1, RMul(MaxOver(X, n), MaxOver(InvH, n - 1))))

DoFit(hist, st, e, judge) ==
  IF ~judge
  THEN [ok |-> e.res # <<"panic">>, st |-> TInit(hist), why |-> <<"no panic">>]
  ELSE
  LET p == Points(e)
      accepted == e.res = <<"ok">>
      fine == IF accepted THEN FitAccepts(hist.kind, p)
              ELSE e.res[1] = "err" /\ Tail(e.res) \in FitErrors(hist.kind, p)
      m == IF ~(accepted /\ fine) THEN Empty
           ELSE IF hist.shape THEN Fitted(hist.kind, p) ELSE [Empty EXCEPT !.p = p]
  IN [ok |-> fine, st |-> [m |-> m, size |-> IF m.q = <<>> THEN MaxOrdinate(m) ELSE Size(m), told |-> st.told],
      why |-> <<"allowed errors", FitErrors(hist.kind, p)>>]

\* C12: only whether the question is answered
Place(m, x) == IF m.p = <<>> THEN "none" ELSE IF x = "inf" THEN "upper" ELSE IF x = "-inf" THEN "lower" ELSE Side(m, x)
AskOk(st, e) ==
  CASE Place(st.m, e.x) = "none" -> e.res = <<"err", "few", 0>>
    [] Place(st.m, e.x) = "lower" -> e.res = <<"err", "lower", e.x>>
    [] Place(st.m, e.x) = "upper" -> e.res = <<"err", "upper", e.x>>
    [] Place(st.m, e.x) = "in" -> e.res[1] = "ok" /\ Finite(e.res[2])


KnotOk(hist, st, e) ==
  LET y == st.m.p[e.i].y
      tol == GridTol(hist, st)
  IN \A k \in 1..3 : Near(e.res[k], y, IF k = 1 THEN Tol(hist, st) ELSE tol)

DoValue(hist, st, e) ==
  LET x == RNorm(e.x)
      want == ValueOf(st.m, st.m.q, x)
      right == Near(e.res, want, Tol(hist, st))
      built == ~right /\ hist.kind = "catmull" /\ Near(e.res, ValueOf(st.m, st.m.built, x), Tol(hist, st))
      tell == IF built /\ ~st.told THEN PrintT(<<"KNOWN", "catmull-rom-left-slopes">>) ELSE TRUE
  IN [ok |-> right \/ (built /\ tell), st |-> [st EXCEPT !.told = st.told \/ built],
      why |-> <<hist.kind, hist.prec, "value", RFloor(RMul(want, "1000000/1")), "millionths, tolerance 2^-60 *",
                RFloor(RMul(Tol(hist, st), RPow2(60)))>>]

TApply(hist, st, e) ==
  CASE e.op = "fit" -> DoFit(hist, st, e, TRUE)
    [] e.op = "wildfit" -> DoFit(hist, st, e, FALSE)
    [] e.op = "wild" -> [ok |-> e.res # <<"panic">>, st |-> st, why |-> <<"no panic">>]
    [] e.op = "ask" -> [ok |-> AskOk(st, e), st |-> st, why |-> <<hist.kind, "the argument is", Place(st.m, e.x)>>]
    [] e.op = "knot" -> [ok |-> KnotOk(hist, st, e), st |-> st, why |-> <<hist.kind, "ordinate", st.m.p[e.i].y>>]
    [] e.op = "value" -> DoValue(hist, st, e)
=============================================================================
