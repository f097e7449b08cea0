------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation, over exact rationals.                                    *)
(*                                                                         *)
(* A point is [x, y, s] (s: the slope, used by Hermite only).  A fitted    *)
(* interpolator is a piecewise cubic: for each interval i the coefficients *)
(* <<a, b, c, d>> of a + b t + c t^2 + d t^3 with t = x - x_i.  MCInterp   *)
(* checks that these pieces have the properties that define each curve.    *)
(***************************************************************************)
EXTENDS BigRat

Kinds == {"linear", "natural", "catmull", "hermite"}
Least(kind) == IF kind = "linear" THEN 1 ELSE 3

(* --- data ----------------------------------------------------------------- *)
Ascending(p) == \A i \in 1..(Len(p) - 1) : RLt(p[i].x, p[i + 1].x)
OutOfOrder(p) == \E i \in 1..(Len(p) - 1) : RLt(p[i + 1].x, p[i].x)

Gap(p, i) == RSub(p[i + 1].x, p[i].x)
Chord(p, i) == RDiv(RSub(p[i + 1].y, p[i].y), Gap(p, i))

(* --- slopes and second derivatives ---------------------------------------- *)
CatmullSlope(p, i) ==
  LET n == Len(p) IN
  IF i = 1 THEN Chord(p, 1)
  ELSE IF i = n THEN Chord(p, n - 1)
  ELSE RDiv(RSub(p[i + 1].y, p[i - 1].y), RSub(p[i + 1].x, p[i - 1].x))

(* What the code does instead at the left end of every interval but the first: the chord of the  *)
(* neighbours is divided by the width of the two intervals plus that of the right one.  See      *)
(* known_findings.txt; the repository's own test pins it.                                        *)
CatmullLeftSlopeAsBuilt(p, i) ==
  IF i = 1 THEN Chord(p, 1)
  ELSE RDiv(RSub(p[i + 1].y, p[i - 1].y), RAdd(RSub(p[i + 1].x, p[i - 1].x), Gap(p, i)))

(* Second derivatives of the natural spline: zero at both ends, and at the inner points             *)
(*   h[i-1] M[i-1] + 2 (h[i-1] + h[i]) M[i] + h[i] M[i+1] = 6 (chord[i] - chord[i-1])               *)
NaturalM(p) ==
  LET n == Len(p)
      h == [i \in 1..(n - 1) |-> Gap(p, i)]
      k == [i \in 1..(n - 1) |-> Chord(p, i)]
      \* long data: 400 binary places after the point are enough, and keep the numbers small
      Short(x) == IF n > 40 THEN RRound(x, 400) ELSE x
      \* M[i] = e[i][1] - e[i][2] * M[i+1]
      RECURSIVE Forward(_, _)
      Forward(i, e) ==
        IF i = n THEN e
        ELSE LET w == RSub(RMul("2/1", RAdd(h[i - 1], h[i])), RMul(h[i - 1], e[i - 1][2]))
                 r == RSub(RMul("6/1", RSub(k[i], k[i - 1])), RMul(h[i - 1], e[i - 1][1]))
             IN Forward(i + 1, Append(e, <<Short(RDiv(r, w)), Short(RDiv(h[i], w))>>))
      e == Forward(2, << <<R0, R0>> >>)
      RECURSIVE Back(_, _)
      Back(i, m) ==       \* m = <<M[i+1], ..., M[n]>>
        IF i = 0 THEN m ELSE Back(i - 1, <<Short(RSub(e[i][1], RMul(e[i][2], m[1])))>> \o m)
  IN Back(n - 1, <<R0>>)

(* --- pieces ---------------------------------------------------------------- *)
LinearPiece(p, i) == <<p[i].y, Chord(p, i), R0, R0>>
NaturalPiece(p, m, i) ==
  LET h == Gap(p, i) IN
  <<p[i].y,
    RSub(Chord(p, i), RMul(h, RDiv(RAdd(RMul("2/1", m[i]), m[i + 1]), "6/1"))),
    RDiv(m[i], "2/1"),
    RDiv(RSub(m[i + 1], m[i]), RMul("6/1", h))>>
HermitePiece(p, i, left, right) ==
  LET h == Gap(p, i)
      k == Chord(p, i)
  IN <<p[i].y, left,
       RDiv(RSub(RMul("3/1", k), RAdd(RMul("2/1", left), right)), h),
       RDiv(RSub(RAdd(left, right), RMul("2/1", k)), RSq(h))>>

Pieces(kind, p) ==
  LET n == Len(p)
      m == IF kind = "natural" THEN NaturalM(p) ELSE <<>>
      s == CASE kind = "catmull" -> [i \in 1..n |-> CatmullSlope(p, i)]
             [] kind = "hermite" -> [i \in 1..n |-> p[i].s]
             [] OTHER -> <<>>
  IN [i \in 1..(n - 1) |->
       CASE kind = "linear" -> LinearPiece(p, i)
         [] kind = "natural" -> NaturalPiece(p, m, i)
         [] OTHER -> HermitePiece(p, i, s[i], s[i + 1])]
PiecesAsBuilt(kind, p) ==
  IF kind # "catmull" THEN <<>>
  ELSE [i \in 1..(Len(p) - 1) |-> HermitePiece(p, i, CatmullLeftSlopeAsBuilt(p, i), CatmullSlope(p, i + 1))]

PieceAt(q, t) == RAdd(q[1], RMul(t, RAdd(q[2], RMul(t, RAdd(q[3], RMul(t, q[4]))))))
SlopeAt(q, t) == RAdd(q[2], RMul(t, RAdd(RMul("2/1", q[3]), RMul(t, RMul("3/1", q[4])))))
CurvatureAt(q, t) == RAdd(RMul("2/1", q[3]), RMul("6/1", RMul(t, q[4])))

(* --- the interpolator ------------------------------------------------------ *)
Empty == [p |-> <<>>, q |-> <<>>, built |-> <<>>]
Fitted(kind, p) == [p |-> p, q |-> Pieces(kind, p), built |-> PiecesAsBuilt(kind, p)]

(* The outcomes a fit may have; the number of points and the order can both be wrong. *)
FitErrors(kind, p) ==
  (IF Len(p) < Least(kind) THEN { <<"few", Len(p)>> } ELSE {}) \cup (IF OutOfOrder(p) THEN { <<"order">> } ELSE {})
\* fitting no points to a linear interpolator may also succeed and leave it empty
FitAccepts(kind, p) == FitErrors(kind, p) = {} \/ (kind = "linear" /\ p = <<>>)

(* Where x lies: "none" (no points), "lower", "upper", "in". *)
Side(m, x) ==
  LET n == Len(m.p) IN
  IF n = 0 THEN "none"
  ELSE IF RLt(x, m.p[1].x) THEN "lower"
  ELSE IF RLt(m.p[n].x, x) THEN "upper" ELSE "in"

\* the interval that x (inside the range) lies in
Interval(m, x) ==
  LET n == Len(m.p)
      RECURSIVE Search(_, _)          \* p[lo].x <= x, and x < p[hi].x or hi = n
      Search(lo, hi) ==
        IF hi = lo + 1 THEN lo
        ELSE LET mid == (lo + hi) \div 2 IN IF RLe(m.p[mid].x, x) THEN Search(mid, hi) ELSE Search(lo, mid)
  IN Search(1, n)
ValueOf(m, pieces, x) ==
  IF Len(m.p) = 1 THEN m.p[1].y
  ELSE LET i == Interval(m, x) IN PieceAt(pieces[i], RSub(x, m.p[i].x))
=============================================================================
