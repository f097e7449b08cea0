------------------------------- MODULE MCBond -------------------------------
(***************************************************************************)
(* Design model of bonds: a machine that walks from one coupon month to    *)
(* the next, remembering only the month and the day it wants, adds flows;  *)
(* then the settlement day moves on and what fell due is taken out of the  *)
(* value.  The closed forms of module Bond have to agree with it.          *)
(***************************************************************************)
EXTENDS Bond, FiniteSets
CONSTANT Deep
VARIABLES phase,    \* "make", "live" or "none" (no bond)
          t,        \* the terms
          month,    \* the month of the next coupon, counted from year 0
          flows,    \* made so far
          settle,   \* the settlement day
          taken     \* sum of the discounted amounts that fell due so far
vars == <<phase, t, month, flows, settle, taken>>

Firsts == IF Deep THEN {<<2023, 8, 31>>, <<2023, 8, 30>>, <<2024, 2, 29>>, <<2023, 8, 29>>, <<2023, 4, 15>>, <<2100, 2, 28>>, <<2023, 12, 31>>}
          ELSE {<<2023, 8, 31>>, <<2024, 2, 29>>, <<2023, 4, 15>>}
Heads == IF Deep THEN {1, 30, 181, 184, 185, 250, 365, 370} ELSE {1, 184, 185, 300}
Pens == IF Deep THEN {-1, 0, 100, 182, 183, 184, 185, 366, 730, 1100} ELSE {-1, 0, 100, 184, 366, 730}
Tails == IF Deep THEN {0, 3, 181, 182, 184, 185, 300, 365, 400} ELSE {0, 3, 182, 184, 300, 366}
On(d, n) == FromSerial(Serial(d) + n)
Terms == {[issue |-> On(f, -h), first |-> f, pen |-> On(f, p), mat |-> On(On(f, p), m), rate |-> "1/20", face |-> "100/1"] :
            f \in Firsts, h \in Heads, p \in Pens, m \in Tails}

\* the day of month m on which the coupon falls: the wanted day, or the last day there is
Fitting(m, day) ==
  LET y == m \div 12 mm == (m % 12) + 1 IN
  <<y, mm, IF day > DaysInMonth(y, mm) THEN DaysInMonth(y, mm) ELSE day>>

Init == /\ t \in Terms
        /\ phase = "make" /\ flows = <<>> /\ settle = t.issue /\ taken = R0
        /\ month = t.first[1] * 12 + t.first[2] - 1

Add ==
  /\ phase = "make" /\ DayLe(Fitting(month, t.first[3]), t.pen)
  /\ LET d == Fitting(month, t.first[3]) IN
     flows' = Append(flows, [due |-> d, pay |-> WeekendRoll(d),
                             amt |-> IF flows = <<>> THEN RMul(Regular(t), FirstFraction(t)) ELSE Regular(t)])
  /\ month' = month + Period
  /\ UNCHANGED <<phase, t, settle, taken>>
Finish ==
  /\ phase = "make" /\ DayLt(t.pen, Fitting(month, t.first[3]))
  /\ IF flows = <<>> THEN phase' = "none" /\ flows' = flows
     ELSE /\ phase' = "live"
          /\ flows' = Append(flows, [due |-> t.mat, pay |-> t.mat, amt |-> RAdd(t.face, RMul(Regular(t), FinalFraction(t)))])
  /\ UNCHANGED <<t, month, settle, taken>>
\* discount factors of some made-up curve from the issue day on
D(d) == RDiv("1/1", RInt(1 + Serial(d) - Serial(t.issue)))
Due == {k \in 1..Len(flows) : DayLt(settle, flows[k].due)}
Wait ==
  /\ phase = "live" /\ Due # {}
  /\ \E n \in {-1, 0, 1} :
       LET k == CHOOSE k \in Due : \A j \in Due : k <= j
           s == On(flows[k].due, n)
           gone == {j \in Due : DayLe(flows[j].due, s)}
           RECURSIVE Sum(_)
           Sum(S) == IF S = {} THEN R0 ELSE LET j == CHOOSE j \in S : TRUE IN RAdd(RMul(flows[j].amt, D(flows[j].pay)), Sum(S \ {j}))
       IN /\ DayLt(settle, s)
          /\ settle' = s
          /\ taken' = RAdd(taken, Sum(gone))
  /\ UNCHANGED <<phase, t, month, flows>>
Next == Add \/ Finish \/ Wait
Spec == Init /\ [][Next]_vars

\* the machine makes exactly the flows of the closed form
ClosedForm == /\ phase = "live" => flows = Flows(t) /\ Exists(t) /\ NumRegular(t) = Len(flows) - 1
              /\ phase = "none" => NumRegular(t) = 0
              /\ phase = "make" => \A k \in 1..Len(flows) : flows[k].due = Coupon(t, k - 1)
\* the schedule
Schedule == \A k \in 1..Len(flows) :
  /\ k > 1 => DayLe(flows[k - 1].due, flows[k].due)
  /\ (k > 1 /\ (phase = "make" \/ k < Len(flows))) => DayLt(flows[k - 1].due, flows[k].due)
  /\ ~IsSatSun(flows[k].pay) \/ flows[k].due = t.mat
  /\ DayLe(flows[k].due, flows[k].pay) /\ Serial(flows[k].pay) - Serial(flows[k].due) <= 2
\* what the value has lost is what fell due
Additive == phase = "live" => RAdd(taken, Value(flows, settle, D)) = Value(flows, t.issue, D)
AfterMaturity == phase = "live" /\ DayLe(t.mat, settle) => Value(flows, settle, D) = R0
\* amounts
One(d) == R1
Amounts == phase = "live" =>
  LET twice == Flows([t EXCEPT !.face = RMul(t.face, "2/1")])
      zero == Flows([t EXCEPT !.rate = R0])
      n == Len(flows)
  IN /\ \A k \in 1..n : twice[k].amt = RMul("2/1", flows[k].amt)
     /\ \A k \in 1..n : zero[k].amt = IF k = n THEN t.face ELSE R0
     /\ RLt(R0, FirstFraction(t)) /\ RLe(R0, FinalFraction(t))
     \* a day more of either stub is worth more, without a jump of more than a few days of interest
     /\ LET g == FirstFraction([t EXCEPT !.issue = On(t.issue, -1)]) IN
        RLt(FirstFraction(t), g) /\ RLe(RSub(g, FirstFraction(t)), "1/181")
     /\ LET g == FinalFraction([t EXCEPT !.mat = On(t.mat, 1)]) IN
        RLt(FinalFraction(t), g) /\ RLe(RSub(g, FinalFraction(t)), "1/181")
=============================================================================
