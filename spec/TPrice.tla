------------------------------- MODULE TPrice -------------------------------
(***************************************************************************)
(* Conformance from quotes to price (C23).  A history:                     *)
(*   quote    a curve is built from quotes with a day count and an         *)
(*            interpolator of the library                                  *)
(*   new      a bond is made                                               *)
(*   price    the bond is valued on curve number k at a settlement date    *)
(* Nothing is taken from the code: the price follows from terms and quotes. *)
(***************************************************************************)
EXTENDS Replay, Rounded

\* cs: the curves so far, each with the size of its data; <<>> where there is none
TInit(hist) == [cs |-> <<>>, flows |-> <<>>]

DoQuote(hist, st, e) ==
  LET q == [s |-> e.s, dc |-> hist.dc, kind |-> hist.kind, mats |-> e.mats, ys |-> [k \in 1..Len(e.ys) |-> RNorm(e.ys[k])]]
      errors == QuoteErrors(q)
      c == CurveOf(q)
  IN IF errors = {}
     THEN [ok |-> e.res = <<"ok">>, st |-> [st EXCEPT !.cs = Append(@, <<[c |-> [c EXCEPT !.m = Short(c.m)], size |-> ModelSize(c.m)]>>)], why |-> <<"a curve">>]
     ELSE [ok |-> e.res[1] = "err" /\ e.res[2] \in errors, st |-> [st EXCEPT !.cs = Append(@, <<>>)], why |-> <<"one of", errors>>]

DoBond(st, e) ==
  LET t == [issue |-> e.issue, first |-> e.first, pen |-> e.pen, mat |-> e.mat,
            rate |-> RNorm(e.rate), face |-> RNorm(e.face)]
  IN IF Ordered(t) /\ Exists(t)
     THEN [ok |-> e.res = "some", st |-> [st EXCEPT !.flows = Flows(t)], why |-> <<"a bond">>]
     ELSE [ok |-> e.res = "none", st |-> [st EXCEPT !.flows = <<>>], why |-> <<"no bond">>]

DoPrice(hist, st, e) ==
  LET errors == PriceErrors(st.c, st.flows, e.settle)
      todo == Future(st.flows, e.settle)
      p == Priced(hist.prec, st, e.settle)
  IN IF errors # {} THEN [ok |-> e.res[1] = "err" /\ e.res[2] \in errors, st |-> st, why |-> <<"one of", errors>>]
     ELSE IF todo = {} THEN [ok |-> e.res[1] = "ok" /\ Finite(e.res[2]) /\ REq(e.res[2], R0), st |-> st, why |-> <<"nothing">>]
     ELSE [ok |-> e.res[1] = "ok" /\ (p[3] => (Finite(e.res[2]) /\ RClose(e.res[2], p[1], p[2]))),
           st |-> st,
           why |-> <<"price", RFloor(RMul(p[1], "1000000000/1")), "billionths, allowance", RFloor(RMul(p[2], "1000000000000/1")), "in 10^-12">>]

TApply(hist, st, e) ==
  CASE e.op = "quote" -> DoQuote(hist, st, e)
    [] e.op = "new" -> DoBond(st, e)
    [] e.op = "price" -> IF st.cs[e.k] = <<>> \/ st.flows = <<>> THEN [ok |-> TRUE, st |-> st, why |-> <<>>]
                         ELSE LET on == st.cs[e.k][1]
                                  r == DoPrice(hist, [c |-> on.c, size |-> on.size, flows |-> st.flows], e)
                              IN [ok |-> r.ok, st |-> st, why |-> r.why]
=============================================================================
