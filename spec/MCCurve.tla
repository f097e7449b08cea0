------------------------------ MODULE MCCurve -------------------------------
(***************************************************************************)
(* Design model of yield curves: build a curve from every small choice of  *)
(* convention, interpolator, maturities and yields (also refused ones),    *)
(* then travel through discount factors: the product of the factors over   *)
(* the legs of a journey is the factor from its start to its end.          *)
(***************************************************************************)
EXTENDS Curve
VARIABLES curve,    \* <<>> or [s, dc, itp]
          refused,  \* errors of the construction
          from, at, \* the journey so far
          log       \* sum of the exponents of its legs
vars == <<curve, refused, from, at, log>>

Settle == <<2023, 8, 31>>
Offsets == {-1, 0, 1, 13, 181, 365}
DayAt(k) == FromSerial(Serial(Settle) + k)
Convs == {"act360", "act365", "thirty360", "square", "picky"}
Maturities == {<<>>, <<1>>, <<0, 181>>, <<1, 13, 365>>, <<13, 1, 365>>, <<-1, 13, 181>>, <<0, 1, 181, 365>>}
YieldSeqs == {<<>>, <<"1/50">>, <<"1/50", "1/25">>, <<"1/50", "-1/100", "1/40">>, <<"1/50", "1/50", "1/20", "1/30">>}
Interps == {"poly", "linear", "natural", "catmull"}

Init == curve = <<>> /\ refused = {} /\ from = <<>> /\ at = <<>> /\ log = R0

Build ==
  /\ curve = <<>> /\ refused = {}
  /\ \E dc \in Convs : \E kind \in Interps : \E mats \in Maturities : \E ys \in YieldSeqs : \E fit \in {"", "order"} :
       LET times == [k \in 1..Len(mats) |-> Time(dc, Settle, DayAt(mats[k]))]
           pts == CurvePoints(times, ys)
           fits == IF kind = "poly" THEN fit = "" ELSE FitAccepts(kind, pts)
           errors == NewErrors(times, ys, fits)
           itp == [kind |-> kind, m |-> IF kind = "poly" THEN Empty ELSE Fitted(kind, pts),
                   c |-> IF kind = "poly" THEN <<"1/50", "1/1000", "-1/10000">> ELSE <<>>, lo |-> "-inf", hi |-> "9/10"]
       IN /\ kind # "poly" => fit = ""
          /\ refused' = errors
          /\ curve' = IF errors = {} THEN [s |-> Settle, dc |-> dc, itp |-> itp] ELSE <<>>
          /\ from' = IF errors = {} THEN Settle ELSE <<>>
          /\ at' = from'
          /\ log' = R0

T(d) == Time(curve.dc, curve.s, d)
Y(d) == YieldAt(curve.itp, T(d)[2])
Travel ==
  /\ curve # <<>>
  /\ \E k \in Offsets :
       /\ DiscountErrors(curve.s, T, Y, at, DayAt(k)) = {}
       /\ at' = DayAt(k)
       /\ log' = RAdd(log, Exponent(curve.s, T, Y, at, DayAt(k)))
       /\ from' = from
  /\ UNCHANGED <<curve, refused>>
StartOver == curve # <<>> /\ at # from /\ from' = at /\ log' = R0 /\ UNCHANGED <<curve, refused, at>>
Next == Build \/ Travel \/ StartOver
Spec == Init /\ [][Next]_vars

Journey == curve # <<>> =>
  /\ DiscountErrors(curve.s, T, Y, from, at) = {} => log = Exponent(curve.s, T, Y, from, at)
  /\ from = at => log = R0
Forward == curve # <<>> => DayLe(curve.s, from) /\ DayLe(from, at)
\* the exponential: positive, and multiplicative to 60 bits
Exponentials == curve # <<>> /\ DiscountErrors(curve.s, T, Y, from, at) = {} /\ DiscountErrors(curve.s, T, Y, curve.s, from) = {} =>
  LET d == DiscountFactor(curve.s, T, Y, from, at) IN
  RLt(R0, d) /\ RNear(RMul(d, DiscountFactor(curve.s, T, Y, curve.s, from)), DiscountFactor(curve.s, T, Y, curve.s, at), RPow2(-60), R0)
\* a request fails for one reason at a time here; wrong order never reaches the interpolator
Reasons == curve # <<>> =>
  \A k \in Offsets : \A j \in Offsets :
    LET E == DiscountErrors(curve.s, T, Y, DayAt(k), DayAt(j)) IN
    /\ (k > j \/ k < 0) => E = {"InvalidInput"}
    /\ (0 <= k /\ k <= j) /\ curve.dc # "picky" => E \subseteq {"InterpolationError"}
    /\ E = {} => DiscountErrors(curve.s, T, Y, DayAt(j), DayAt(j)) = {}
Refusals == refused \subseteq {"InvalidInput", "InterpolationError"} /\ (refused # {} => curve = <<>>)
=============================================================================
