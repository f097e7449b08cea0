------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Yield curves.  A curve is [s, dc, itp]: settlement day, day-count       *)
(* convention and an interpolator that gives the continuously compounded   *)
(* yield at a time.  An interpolator is one of the library's (kind linear, *)
(* natural, catmull; m is its model, see Interp) or a user's (kind poly: a *)
(* quadratic c on the times lo..hi, whatever it was fitted with).          *)
(***************************************************************************)
EXTENDS Civil, DayCount, Interp

(* --- time: the day-count fraction from the settlement day ------------------ *)
\* <<"ok", rational>>, or <<"err", kind>>
Time(dc, s, d) ==
  LET days == Serial(d) - Serial(s) IN
  CASE dc = "act360" -> <<"ok", RRat(days, 360)>>
    [] dc = "act365" -> <<"ok", RRat(days, 365)>>
    [] dc = "thirty360" -> LET f == Thirty360(s, d) IN
                           IF f[1] = "err" THEN <<"err", "InvalidInput">> ELSE <<"ok", RRat(f[2], f[3])>>
    \* user-written conventions
    [] dc = "square" -> <<"ok", RDiv(RMul(RInt(days), RAbs(RInt(days))), "1000000")>>
    [] dc = "picky" -> IF s[3] = 13 \/ d[3] = 13 THEN <<"err", "InvalidInput">> ELSE <<"ok", RRat(days, 365)>>

(* --- the yield at a time --------------------------------------------------- *)
InRange(itp, t) ==
  IF itp.kind = "poly"
  THEN (itp.lo = "-inf" \/ RLe(itp.lo, t)) /\ (itp.hi = "inf" \/ RLe(t, itp.hi))
  ELSE Side(itp.m, t) = "in"
Quadratic(c, t) == RAdd(c[1], RMul(t, RAdd(c[2], RMul(t, c[3]))))
YieldAt(itp, t) ==
  IF ~InRange(itp, t) THEN <<"err">>
  ELSE <<"ok", IF itp.kind = "poly" THEN Quadratic(itp.c, t) ELSE ValueOf(itp.m, itp.m.q, t)>>

(* --- construction: the outcomes allowed ------------------------------------ *)
\* times: the sequence of Time(...) of the maturities; fits: whether the interpolator accepts the data
TimeErrors(times) == {times[k][2] : k \in {j \in 1..Len(times) : times[j][1] = "err"}}
NewErrors(times, ys, fits) ==
  IF Len(times) # Len(ys) THEN {"InvalidInput"}
  ELSE IF TimeErrors(times) # {} THEN TimeErrors(times)
  ELSE IF ~fits THEN {"InterpolationError"}
  ELSE {}
CurvePoints(times, ys) == [k \in 1..Len(times) |-> [x |-> times[k][2], y |-> ys[k], s |-> R0]]

(* --- discounting ------------------------------------------------------------ *)
(* The times a discount factor from a to b needs: that of b, and that of a unless it is the settlement *)
(* day itself (there the exponent's first term is zero whatever the yield).                            *)
Needed(s, a, b) == IF a = s THEN {b} ELSE {a, b}
BadOrder(s, a, b) == DayLt(b, a) \/ DayLt(a, s) \/ DayLt(b, s)
(* T(d): the time of day d (see Time); Y(d): <<"ok", yield>> or <<"err">>, asked when T(d) is a time.  *)
DiscountErrors(s, T(_), Y(_), a, b) ==
  IF BadOrder(s, a, b) THEN {"InvalidInput"}
  ELSE UNION {IF T(d)[1] = "err" THEN {T(d)[2]}
              ELSE IF Y(d)[1] = "err" THEN {"InterpolationError"} ELSE {} : d \in Needed(s, a, b)}
\* t * y(t), the logarithm of the growth factor
Growth(T(_), Y(_), d) == RMul(T(d)[2], Y(d)[2])
Exponent(s, T(_), Y(_), a, b) ==
  IF a = s THEN RNeg(Growth(T, Y, b)) ELSE RSub(Growth(T, Y, a), Growth(T, Y, b))
DiscountFactor(s, T(_), Y(_), a, b) == RExp(Exponent(s, T, Y, a, b))
=============================================================================
