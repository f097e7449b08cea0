------------------------------- MODULE TErrors ------------------------------
(***************************************************************************)
(* Conformance of errors (C22).  Histories of three kinds:                 *)
(*   an error made by hand: what it holds, how it reads, how it rises      *)
(*     (ops string, make, same, rise)                                      *)
(*   a curve and a bond on top of a day count and an interpolator that     *)
(*     fail at given places: which request ends in which error (arm, new,  *)
(*     df, bond)                                                           *)
(*   day counts in a number type that cannot hold every integer (cast)     *)
(***************************************************************************)
EXTENDS Replay, Errors, Bond, DayCount

NoError == [kind |-> "", data |-> ""]
TInit(hist) == [err |-> NoError]

(* --- by hand ---------------------------------------------------------------- *)
DoString(st, e) ==
  [ok |-> e.ref = e.text /\ e.deref = e.text /\ e.show = e.text /\ e.len = e.bytes, st |-> st, why |-> <<e.text>>]
Reads(e, got) == got.kind = e.kind /\ got.data = e.data /\ got.text = Text(e) /\ got.below = <<>>
DoMake(st, e) ==
  LET err == [kind |-> e.kind, data |-> e.data] IN
  [ok |-> IsError(err) /\ Reads(err, e.got), st |-> [err |-> err], why |-> <<Text(err)>>]
DoRise(st, e) ==
  LET err == Rise(st.err) IN
  [ok |-> Reads(err, e.got), st |-> [err |-> err], why |-> <<"after", e.how, err.kind, Text(err)>>]
DoSame(st, e) == [ok |-> e.same = (e.other = [kind |-> st.err.kind, data |-> st.err.data]), st |-> st, why |-> <<st.err>>]

(* --- injected ----------------------------------------------------------------- *)
\* hist: s settlement day, bad days and raise (the day count's error), fit and val (the interpolator's), last (good) day
Anything == "*"
Request == [kind |-> "InvalidInput", data |-> Anything]
IsBad(hist, d) == \E k \in 1..Len(hist.bad) : hist.bad[k] = d
TimeFaults(hist, S) == IF \E d \in S : IsBad(hist, d) THEN {Rise(hist.raise)} ELSE {}
NewFaults(hist, e) ==
  IF Len(e.mats) # e.n THEN {Request}
  ELSE IF TimeFaults(hist, {e.mats[k] : k \in 1..Len(e.mats)}) # {} THEN {Rise(hist.raise)}
  ELSE IF hist.fit.kind # "" THEN {Rise(hist.fit)} ELSE {}
FactorFaults(hist, a, b) ==
  IF DayLt(b, a) \/ DayLt(a, hist.s) THEN {Request}
  ELSE LET days == {a, b} \ {hist.s} IN
       TimeFaults(hist, days)
         \cup (IF \E d \in days : ~IsBad(hist, d) /\ DayLt(hist.last, d) THEN {Rise(hist.val)} ELSE {})
BondFaults(hist, e) ==
  LET flows == Flows([issue |-> e.issue, first |-> e.first, pen |-> e.pen, mat |-> e.mat, rate |-> "1/20", face |-> "1/1"])
  IN UNION {FactorFaults(hist, e.settle, flows[k].pay) : k \in Future(flows, e.settle)}

Answer(faults, r) ==
  IF faults = {} THEN r = <<"ok">>
  ELSE /\ r[1] = "err"
       /\ \E f \in faults :
            LET f2 == IF f.data = Anything THEN [f EXCEPT !.data = r[2].data] ELSE f IN Reads(f2, r[2])
DoNew(hist, st, e) == [ok |-> Answer(NewFaults(hist, e), e.res), st |-> st, why |-> <<"allowed", NewFaults(hist, e)>>]
DoFactor(hist, st, e) ==
  [ok |-> Answer(FactorFaults(hist, e.a, e.b), e.res), st |-> st, why |-> <<"allowed", FactorFaults(hist, e.a, e.b)>>]
DoBond(hist, st, e) == [ok |-> Answer(BondFaults(hist, e), e.res), st |-> st, why |-> <<"allowed", BondFaults(hist, e)>>]

(* --- numbers a type cannot hold ----------------------------------------------- *)
TooLarge(n, limit) == n > limit \/ n < -limit
DoCast(st, e) ==
  LET f == Fraction(e.conv, e.a, e.b)
      failing == {n \in {f[2], f[3]} : TooLarge(n, e.limit)}
      want == IF f[1] = "err" THEN {Request} ELSE {[kind |-> "CastNumberError", data |-> ToString(n)] : n \in failing}
  IN [ok |-> Answer(want, e.res), st |-> st, why |-> <<"allowed", want>>]

TApply(hist, st, e) ==
  CASE e.op = "string" -> DoString(st, e)
    [] e.op = "make" -> DoMake(st, e)
    [] e.op = "rise" -> DoRise(st, e)
    [] e.op = "same" -> DoSame(st, e)
    [] e.op = "new" -> DoNew(hist, st, e)
    [] e.op = "df" -> DoFactor(hist, st, e)
    [] e.op = "bond" -> DoBond(hist, st, e)
    [] e.op = "cast" -> DoCast(st, e)
=============================================================================
