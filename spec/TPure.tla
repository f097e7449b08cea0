------------------------------- MODULE TPure --------------------------------
(***************************************************************************)
(* Conformance of C24.  A history holds a few requests and, for each,      *)
(* every answer the library gave: first to a process that asked nothing    *)
(* else, then to a user that asked everything in many orders, making and   *)
(* dropping objects, then to several users at the same time.               *)
(* hist.asks names the requests; an event answers the request numbered q.  *)
(***************************************************************************)
EXTENDS Replay, Pure

TInit(hist) == NothingSeen(1..Len(hist.asks))
TApply(hist, st, e) ==
  [ok |-> Allowed(st, e.q, e.ans), st |-> Saw(st, e.q, e.ans), why |-> <<hist.asks[e.q], "first", st[e.q], "then", e.ans, e.by, e.turn>>]
=============================================================================
