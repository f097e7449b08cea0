------------------------------ MODULE TSystem -------------------------------
(***************************************************************************)
(* Conformance of chained use (C25).  The histories are behaviours of the  *)
(* specification (GenSystem), carried out on the real library with its own *)
(* results as inputs; an event is the action and what the library gave.    *)
(* Days, counts and outcomes must be those of the specification, numbers   *)
(* within their rounding allowance; a number goes on as it was given.      *)
(***************************************************************************)
EXTENDS Replay, System

TInit(hist) == [prec |-> hist.prec, days |-> hist.days, nums |-> [k \in 1..Len(hist.nums) |-> Given(<<>>, hist.nums[k])],
                curves |-> <<<<>>, <<>>>>, bonds |-> <<<<>>, <<>>>>, models |-> <<<<>>, <<>>>>]

Fits(o, r) ==
  CASE o[1] = "day" -> r = o[2]
    [] o[1] = "int" -> r = o[2]
    [] o[1] = "num" -> r[1] = "ok" /\ Finite(r[2]) /\ RClose(r[2], o[2], o[3])
    [] o[1] = "err" -> r[1] = "err" /\ r[2] \in o[2]
    [] o[1] = "curve" -> r[1] = "ok"
    [] o[1] = "model" -> IF o[3] = {} THEN r = <<"ok">> ELSE r[1] = "err" /\ Tail(r) \in o[3]
    [] o[1] = "out" -> r[1] = "err" /\ r[2] = o[2] /\ Finite(r[3]) /\ RClose(r[3], o[3], R0)
    [] o[1] = "bond" -> r[1] = IF o[2] = <<>> THEN "none" ELSE "some"
Told(o) == CASE o[1] = "num" -> <<"number", RFloor(RMul(o[2], "1000000000/1")), "billionths, allowance", RFloor(RMul(o[3], "1000000000000/1")), "in 10^-12">>
             [] o[1] = "curve" -> <<"a curve">>
             [] o[1] = "model" -> IF o[3] = {} THEN <<"an interpolator">> ELSE <<"one of", o[3]>>
             [] o[1] = "out" -> <<"out of range", o[2]>>
             [] o[1] = "bond" -> IF o[2] = <<>> THEN <<"no bond">> ELSE <<"a bond">>
             [] OTHER -> o
TApply(hist, w, e) ==
  LET o == Outcome(w, e)
      ok == Fits(o, e.r)
  IN [ok |-> ok, st |-> IF ok THEN After(w, e, o, IF o[1] = "num" THEN RNorm(e.r[2]) ELSE R0) ELSE w, why |-> Told(o)]
=============================================================================
