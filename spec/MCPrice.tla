------------------------------- MODULE MCPrice ------------------------------
(***************************************************************************)
(* Design model of pricing: a bond and a curve are chosen, then the        *)
(* settlement day moves on; what falls due is put aside at its value on    *)
(* the first day.  Holding the bond is worth the same whenever one looks:  *)
(* value on the first day = what was put aside + the value later,          *)
(* discounted to the first day.                                            *)
(***************************************************************************)
EXTENDS Price, FiniteSets
CONSTANT Deep
VARIABLES q,       \* the quotes
          c,       \* the curve, <<>> before
          flows,   \* of the bond
          start, settle, aside
vars == <<q, c, flows, start, settle, aside>>

Settle == <<2023, 8, 31>>
On(d, n) == FromSerial(Serial(d) + n)
Terms == {[issue |-> On(Settle, i), first |-> On(Settle, f), pen |-> On(Settle, f + p), mat |-> On(Settle, f + p + m),
           rate |-> "1/20", face |-> "100/1"] :
             i \in IF Deep THEN {-200, 0} ELSE {-20}, f \in IF Deep THEN {1, 170, 184} ELSE {1, 184}, p \in {0, 366},
             m \in IF Deep THEN {30, 183, 300} ELSE {183, 300}}
Quotes == {[s |-> Settle, dc |-> dc, kind |-> kind, mats |-> [k \in 1..Len(m) |-> On(Settle, m[k])], ys |-> ys] :
             dc \in {"act360", "act365", "thirty360"}, kind \in {"linear", "natural"},
             m \in {<<0, 400, 1200>>, <<1, 100, 250>>, <<40, 700, 900, 1500>>},
             ys \in {<<"1/50", "1/40", "1/25">>, <<R0, R0, R0>>, <<"1/50", "-1/100", "1/30", "1/20">>}}

Init == /\ q \in {x \in Quotes : Len(x.mats) = Len(x.ys)}
        /\ \E t \in Terms : Exists(t) /\ flows = Flows(t)
        /\ c = <<>> /\ start = Settle /\ settle = Settle /\ aside = R0

Build == /\ c = <<>> /\ QuoteErrors(q) = {}
         /\ c' = CurveOf(q)
         /\ UNCHANGED <<q, flows, start, settle, aside>>
\* the first look may be later than the curve's settlement day
Look == /\ c # <<>> /\ aside = R0 /\ settle = start /\ start = Settle
        /\ \E n \in {1, 40, 200} : start' = On(Settle, n) /\ settle' = start'
        /\ UNCHANGED <<q, c, flows, aside>>
Priced(s) == PriceErrors(c, flows, s) = {}
Wait == /\ c # <<>> /\ Priced(start) /\ Future(flows, settle) # {}
        /\ LET k == CHOOSE k \in Future(flows, settle) : \A j \in Future(flows, settle) : k <= j
               s == flows[k].due
               gone == Future(flows, settle) \ Future(flows, s)
               RECURSIVE Sum(_)
               Sum(S) == IF S = {} THEN R0 ELSE
                 LET j == CHOOSE j \in S : TRUE IN RAdd(RMul(flows[j].amt, FactorOn(c, start, flows[j].pay)), Sum(S \ {j}))
           IN settle' = s /\ aside' = RAdd(aside, Sum(gone))
        /\ UNCHANGED <<q, c, flows, start>>
Next == Build \/ Look \/ Wait
Spec == Init /\ [][Next]_vars

Tiny == RPow2(-60)
Look0 == c # <<>> /\ Priced(start)
NoArbitrage == Look0 /\ Priced(settle) /\ FactorErrors(c, start, settle) = {} =>
  RNear(RAdd(aside, RMul(FactorOn(c, start, settle), PriceOf(c, flows, settle))), PriceOf(c, flows, start), Tiny, Tiny)
\* a later refusal has the reason that the settlement day itself lies off the curve
Refused == Look0 /\ ~Priced(settle) => YieldOn(c, settle) = <<"err">>
AtZero == Look0 /\ (\A k \in 1..Len(q.ys) : q.ys[k] = R0) =>
  LET One(d) == R1 IN PriceOf(c, flows, start) = Value(flows, start, One)
\* a parallel shift up lowers the price; the curves reproduce straight lines, so the factor is known
Up == [c EXCEPT !.m = Fitted(q.kind, [k \in 1..Len(c.m.p) |-> [c.m.p[k] EXCEPT !.y = RAdd(c.m.p[k].y, "1/100")]])]
Shift == Look0 /\ settle = start /\ Future(flows, start) # {} =>
  LET D(d) == RMul(FactorOn(c, start, d), RExp(RMul("-1/100", RSub(TimeOn(c, d)[2], TimeOn(c, start)[2])))) IN
  /\ RNear(PriceOf(Up, flows, start), Value(flows, start, D), Tiny, Tiny)
  /\ RLe(PriceOf(Up, flows, start), PriceOf(c, flows, start))
OverWhenPaid == c # <<>> /\ Future(flows, settle) = {} => PriceErrors(c, flows, settle) = {} /\ PriceOf(c, flows, settle) = R0
=============================================================================
