------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation.  Hist is a sequence of recorded histories; a history  *)
(* is a record with a sequence ev of events (and whatever InitOf needs).   *)
(* The replayed system is given by InitOf(h), the specification's state at *)
(* the start of history h, and Apply(h, st, e), a record [ok, st, why]:    *)
(*   ok   the specification allows event e in state st                     *)
(*   st   the specification's next state                                   *)
(*   why  what the specification expected (diagnosis only)                 *)
(* A history whose event is refused goes no further and violates Conform.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS InitOf(_), Apply(_, _, _)
Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES hnum,      \* which history
          hpos,      \* events replayed so far
          hstate,    \* the specification's state
          hfine      \* no event refused so far

Init == /\ hnum \in 1..Len(Hist)
        /\ hpos = 0
        /\ hstate = InitOf(Hist[hnum])
        /\ hfine = TRUE

Next == /\ hfine
        /\ hpos < Len(Hist[hnum].ev)
        /\ LET r == Apply(Hist[hnum], hstate, Hist[hnum].ev[hpos + 1])
           IN /\ hstate' = r.st
              /\ hfine' = IF r.ok THEN TRUE
                          ELSE PrintT(<<"MISMATCH", hnum, hpos + 1, r.why>>) /\ FALSE
        /\ hpos' = hpos + 1
        /\ hnum' = hnum

Conform == hfine
=============================================================================
