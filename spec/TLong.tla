------------------------------- MODULE TLong --------------------------------
(***************************************************************************)
(* Conformance of interpolators of very long data (C12-C16).  The data are *)
(* given by formulas, and a value is judged on the points around it: a     *)
(* local curve needs its neighbours, and the natural spline forgets a      *)
(* point more than threefold with every point between, so Around(kind) points on *)
(* each side tell it to far more places than are compared.                 *)
(* A history is the life of one interpolator:                              *)
(*   fit   n points, the at-th and the next exchanged unless at = 0        *)
(*   ask   only whether it is answered   knot   value at the i-th point    *)
(*   value between the i-th point and the next                             *)
(***************************************************************************)
EXTENDS Replay, Allowance
Around(kind) == IF kind = "natural" THEN 36 ELSE 4

XAt(hist, k) == RAdd(RInt(k + hist.from), RMul(RInt((k * hist.a) % 4), "1/8"))
YAt(hist, k) == LET r == k % 97 IN RMul(RInt((r * r + hist.b * r) % 97), "1/8")
SAt(hist, k) == RSub(RMul(RInt(((k % 11) * 3 + hist.b) % 11), "1/4"), R1)
PointAt(hist, k) == [x |-> XAt(hist, k), y |-> YAt(hist, k), s |-> SAt(hist, k)]
Points2(hist, lo, hi) ==
  LET RECURSIVE Go(_, _)
      Go(k, acc) == IF k > hi THEN acc ELSE Go(k + 1, Append(acc, PointAt(hist, k)))
  IN Go(lo, <<>>)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

TInit(hist) == [n |-> 0, told |-> FALSE]
LFit(hist, st, e) ==
  LET want == IF e.n < Least(hist.kind) THEN {<<"err", "few", e.n>>} ELSE {}
      errors == want \cup (IF e.at # 0 THEN {<<"err", "order">>} ELSE {})
      fine == IF errors = {} THEN e.res = <<"ok">> ELSE e.res \in errors
  IN [ok |-> fine, st |-> [st EXCEPT !.n = IF errors = {} THEN e.n ELSE 0], why |-> <<"allowed errors", errors>>]
\* the points around the i-th interval of n, and where it is among them
Near2(hist, n, i) == LET lo == Max(1, i - Around(hist.kind)) IN [m |-> Fitted(hist.kind, Points2(hist, lo, Min(n, i + 1 + Around(hist.kind)))), lo |-> lo]
LValue(hist, st, e) ==
  LET x == RNorm(e.x)
      w == Near2(hist, st.n, e.i)
      i == e.i - w.lo + 1
      t == RSub(x, w.m.p[i].x)
      tol == RMul(Eps(hist.prec), Size(w.m))
      want == PieceAt(w.m.q[i], t)
      right == Near(e.res, want, tol)
      built == ~right /\ hist.kind = "catmull" /\ Near(e.res, PieceAt(w.m.built[i], t), tol)
      tell == IF built /\ ~st.told THEN PrintT(<<"KNOWN", "catmull-rom-left-slopes">>) ELSE TRUE
      placed == RLe(w.m.p[i].x, x) /\ RLe(x, w.m.p[i + 1].x)
  IN [ok |-> placed /\ (right \/ (built /\ tell)), st |-> [st EXCEPT !.told = st.told \/ built],
      why |-> <<hist.kind, hist.prec, "value", RFloor(RMul(want, "1000000/1")), "millionths, tolerance 2^-60 *", RFloor(RMul(tol, RPow2(60)))>>]
LKnot(hist, st, e) ==
  LET w == Near2(hist, st.n, Min(e.i, st.n - 1)) IN
  [ok |-> Near(e.res, YAt(hist, e.i), RMul(Eps(hist.prec), Size(w.m))), st |-> st, why |-> <<hist.kind, "ordinate", YAt(hist, e.i)>>]
LAsk(hist, st, e) ==
  LET place == IF st.n = 0 THEN "none" ELSE LET x == RNorm(e.x) IN
               IF RLt(x, XAt(hist, 1)) THEN "lower" ELSE IF RLt(XAt(hist, st.n), x) THEN "upper" ELSE "in"
  IN [ok |-> CASE place = "none" -> e.res = <<"err", "few", 0>>
               [] place \in {"lower", "upper"} -> e.res = <<"err", place, e.x>>
               [] place = "in" -> e.res[1] = "ok" /\ Finite(e.res[2]),
      st |-> st, why |-> <<hist.kind, "the argument is", place>>]
TApply(hist, st, e) ==
  CASE e.op = "fit" -> LFit(hist, st, e)
    [] e.op = "ask" -> LAsk(hist, st, e)
    [] e.op = "knot" -> LKnot(hist, st, e)
    [] e.op = "value" -> LValue(hist, st, e)
=============================================================================
