------------------------------ MODULE TEaster -------------------------------
(* Conformance of the Easter tables (C05), on every calendar. *)
EXTENDS Replay, Computus

TInit(hist) == 0
TApply(hist, n, e) ==
  LET w == EasterMonday(e.y)
      o == OrthodoxEasterMonday(e.y)
  IN [ok |-> /\ Len(e.w) = hist.n /\ Len(e.o) = hist.n
             /\ \A k \in 1..hist.n : e.w[k] = w /\ e.o[k] = o,
      st |-> n, why |-> <<"year", e.y, "western", w, "orthodox", o>>]
=============================================================================
