-------------------------------- MODULE Pure --------------------------------
(***************************************************************************)
(* The library as a function.  A request is an operation, the values it is *)
(* given and what the objects it is given were made from; its answer is a  *)
(* function of the request.  What an observer may hold against the library *)
(* is therefore only this: two answers to one request that differ, whoever *)
(* asked, whenever, and whatever was asked, made or dropped in between.    *)
(*   seen   the answers so far, per request: a function from requests      *)
(***************************************************************************)
EXTENDS TLC, Integers, Sequences, FiniteSets

Unknown == "?"
NothingSeen(requests) == [q \in requests |-> Unknown]
Allowed(seen, q, ans) == seen[q] \in {Unknown, ans}
Saw(seen, q, ans) == IF seen[q] = Unknown THEN [seen EXCEPT ![q] = ans] ELSE seen
=============================================================================
