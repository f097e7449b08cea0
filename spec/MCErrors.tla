------------------------------ MODULE MCErrors ------------------------------
(***************************************************************************)
(* Design model: an error is born at some layer and rises through the      *)
(* others to the caller.                                                   *)
(***************************************************************************)
EXTENDS Errors
VARIABLES born,   \* the error as it was raised
          now,    \* as it is at this layer
          layer
vars == <<born, now, layer>>

Layers == <<"interpolator", "daycount", "curve", "bond", "caller">>
\* where errors of each kind are raised
BornAt(l) == CASE l = "interpolator" -> InterpKinds
               [] l = "daycount" -> ComputeKinds
               [] l = "curve" -> {"InvalidInput"}
               [] OTHER -> {}
Data == {"", "1", "2023-01-02", "points must be sorted", "interpolation failed"}

Init == /\ layer \in {"interpolator", "daycount", "curve"}
        /\ born \in {e \in [kind : BornAt(layer), data : Data] : IsError(e)}
        /\ now = born
Above(l) == CASE l \in {"interpolator", "daycount"} -> "curve" [] l = "curve" -> "bond" [] l = "bond" -> "caller"
Up == layer # "caller" /\ layer' = Above(layer) /\ now' = Rise(now) /\ born' = born
Next == Up
Spec == Init /\ [][Next]_vars

Valid == IsError(born) /\ IsError(now)
Category == layer = "caller" =>
  /\ now.kind \in ComputeKinds
  /\ (now.kind = "InterpolationError") = (born.kind \in InterpKinds \cup {"InterpolationError"})
  /\ born.kind \in ComputeKinds => now = born /\ Text(now) = Text(born)
Stable == layer \in {"curve", "bond", "caller"} => Rise(Rise(now)) = Rise(now)
\* texts of errors that differ differ (but for data that mimic a template)
Distinct == \A k \in ComputeKinds \cup InterpKinds : k # now.kind => Text([kind |-> k, data |-> ""]) # Text(now)
=============================================================================
