------------------------------ MODULE MCInterp ------------------------------
(***************************************************************************)
(* Design model of interpolation: an interpolator is fitted and refitted   *)
(* with every small data set; whenever it is fitted the defining           *)
(* conditions of its curve hold.  (What TInterp compares the code with is  *)
(* the same piecewise cubic.)                                              *)
(***************************************************************************)
EXTENDS Interp, FiniteSets
CONSTANTS MaxPoints
Gaps == {1, 3}
Ordinates == {-1, 0, 2}
Slopes == {-1, 2}
VARIABLES kind, xs, model, phase
vars == <<kind, xs, model, phase>>


Data(k, sz) ==
  LET X(w, i) == -1 + (LET RECURSIVE Sum(_) Sum(j) == IF j = 0 THEN 0 ELSE w[j] + Sum(j - 1) IN Sum(i - 1))
  IN {[i \in 1..sz |-> [x |-> RInt(X(w, i)), y |-> RInt(y[i]), s |-> RInt(s[i])]] :
        w \in [1..(sz - 1) -> Gaps],
        y \in [1..sz -> Ordinates],
        s \in IF k = "hermite" THEN [1..sz -> Slopes] ELSE {[i \in 1..sz |-> 0]}}

Init == kind \in Kinds /\ xs = <<>> /\ model = Empty /\ phase = "empty"
Fit == /\ phase = "empty"
       /\ \E sz \in Least(kind)..MaxPoints : \E p \in Data(kind, sz) : xs' = p /\ model' = Fitted(kind, p)
       /\ phase' = "fitted" /\ UNCHANGED kind
\* the same data with two neighbours exchanged is refused
Spoil == /\ phase = "fitted" /\ Len(xs) > 1
         /\ xs' = [xs EXCEPT ![1] = xs[2], ![2] = xs[1]]
         /\ ~FitAccepts(kind, xs') /\ FitErrors(kind, xs') = { <<"order">> }
         /\ phase' = "spoilt" /\ model' = Empty /\ UNCHANGED kind
Next == Fit \/ Spoil
Spec == Init /\ [][Next]_vars

n == Len(xs)
Inner == 2..(n - 1)
Q(i) == model.q[i]
H(i) == Gap(xs, i)
Fine == phase = "fitted"

Accepted == Fine => FitAccepts(kind, xs) /\ FitErrors(kind, xs) = {}
Spoilt == phase = "spoilt" => ~FitAccepts(kind, xs) /\ Side(model, R0) = "none"
\* passes through its data, from both sides
Passes ==
  Fine => \A i \in 1..n : /\ ValueOf(model, model.q, xs[i].x) = xs[i].y
                          /\ i < n => PieceAt(Q(i), R0) = xs[i].y /\ PieceAt(Q(i), H(i)) = xs[i + 1].y
\* the as-built deviation is also continuous
BuiltPasses == Fine /\ kind = "catmull" => \A i \in 1..(n - 1) : PieceAt(model.built[i], H(i)) = xs[i + 1].y
Smooth1 == Fine /\ kind # "linear" => \A i \in Inner : SlopeAt(Q(i - 1), H(i - 1)) = SlopeAt(Q(i), R0)
Smooth2 == Fine /\ kind = "natural" =>
             /\ \A i \in Inner : CurvatureAt(Q(i - 1), H(i - 1)) = CurvatureAt(Q(i), R0)
             /\ CurvatureAt(Q(1), R0) = R0 /\ CurvatureAt(Q(n - 1), H(n - 1)) = R0
Slopes1 ==
  Fine /\ kind \in {"hermite", "catmull"} =>
    \A i \in 1..(n - 1) :
      LET want(j) == IF kind = "hermite" THEN xs[j].s
                     ELSE LET a == IF j = 1 THEN 1 ELSE j - 1
                              b == IF j = n THEN n ELSE j + 1
                          IN RDiv(RSub(xs[b].y, xs[a].y), RSub(xs[b].x, xs[a].x))
      IN SlopeAt(Q(i), R0) = want(i) /\ SlopeAt(Q(i), H(i)) = want(i + 1)
Collinear == \A i \in 1..(n - 2) : Chord(xs, i) = Chord(xs, i + 1)
Straight ==
  Fine /\ n > 1 /\ kind # "hermite" /\ Collinear =>
    \A i \in 1..(n - 1) : Q(i)[2] = Chord(xs, i) /\ Q(i)[3] = R0 /\ Q(i)[4] = R0
\* values between two points of a linear interpolator lie between the ordinates
Within ==
  Fine /\ kind = "linear" =>
    \A i \in 1..(n - 1) : \A t \in {"1/4", "1/2", "3/4"} :
      LET v == PieceAt(Q(i), RMul(t, H(i))) IN
      RLe(RMin(xs[i].y, xs[i + 1].y), v) /\ RLe(v, RMax(xs[i].y, xs[i + 1].y))
\* the range is exactly the data's
Range ==
  Fine => /\ Side(model, xs[1].x) = "in" /\ Side(model, xs[n].x) = "in"
          /\ Side(model, RSub(xs[1].x, "1/1000000")) = "lower"
          /\ Side(model, RAdd(xs[n].x, "1/1000000")) = "upper"
          /\ \A i \in 1..(n - 1) : Side(model, RAdd(xs[i].x, RDiv(H(i), "2/1"))) = "in"
                                   /\ Interval(model, RAdd(xs[i].x, RDiv(H(i), "2/1"))) = i
=============================================================================
