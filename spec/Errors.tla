------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* The library's errors.  An error is [kind, data]: data is the text of    *)
(* what it carries ("" when it carries nothing).  Two families: compute    *)
(* errors, which every fallible request ends in, and interpolation errors, *)
(* which become a compute error as soon as they leave the interpolators.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

ComputeKinds == {"ZeroDivisionError", "CastNumberError", "InvalidInput", "InterpolationError"}
InterpKinds == {"order", "lower", "upper", "few"}
WithData == {"CastNumberError", "InvalidInput", "lower", "upper", "few"}
IsError(e) == e.kind \in ComputeKinds \cup InterpKinds /\ (e.kind \notin WithData => e.data = "")

Text(e) ==
  CASE e.kind = "ZeroDivisionError" -> "Zero division occurred"
    [] e.kind = "CastNumberError" -> e.data \o " cannot cast to a primitive type"
    [] e.kind = "InvalidInput" -> "Invalid inputs are passed by: " \o e.data
    [] e.kind = "InterpolationError" -> "interpolation failed"
    [] e.kind = "order" -> "points must be sorted"
    [] e.kind = "lower" -> "out of lower bound: " \o e.data
    [] e.kind = "upper" -> "out of upper bound: " \o e.data
    [] e.kind = "few" -> "length of inputs: " \o e.data \o " is not enough points for construction"

\* one layer up
Rise(e) == IF e.kind \in InterpKinds THEN [kind |-> "InterpolationError", data |-> ""] ELSE e
=============================================================================
