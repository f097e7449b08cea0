-------------------------------- MODULE Bond --------------------------------
(***************************************************************************)
(* Fixed-coupon bonds with two coupon periods a year.                      *)
(* Terms: [issue, first, pen, mat, rate, face] (days and rationals).  A    *)
(* bond is its sequence of flows [due, pay, amt], in order of due date.    *)
(***************************************************************************)
EXTENDS Civil, BigRat

Period == 6          \* months
Frequency == 2

(* --- the schedule --------------------------------------------------------- *)
\* the k-th regular coupon date, k = 0, 1, ...: every one counted from the first
Coupon(t, k) == AddMonths(t.first, Period * k)
\* how many lie on or before the penultimate coupon date
NumRegular(t) ==
  IF DayLt(t.pen, t.first) THEN 0
  ELSE LET k == ((t.pen[1] - t.first[1]) * 12 + (t.pen[2] - t.first[2])) \div Period
           last == Coupon(t, k)
       IN IF last # <<>> /\ DayLe(last, t.pen) THEN k + 1 ELSE k
Ordered(t) == DayLt(t.issue, t.first) /\ DayLe(t.first, t.pen) /\ DayLe(t.pen, t.mat)

(* --- amounts -------------------------------------------------------------- *)
Regular(t) == RDiv(RMul(t.rate, t.face), RInt(Frequency))
\* the part of a period from a to b that the days from c to d are
Part(c, d, a, b) == RRat(Serial(d) - Serial(c), Serial(b) - Serial(a))

FirstPrior(t) == AddMonths(t.first, -Period)
SecondPrior(t) == AddMonths(t.first, -2 * Period)
FirstFraction(t) ==
  LET p == FirstPrior(t) IN
  IF t.issue = p THEN R1
  ELSE IF DayLt(p, t.issue) THEN Part(t.issue, t.first, p, t.first)
  ELSE RAdd(R1, Part(t.issue, p, SecondPrior(t), p))

RegularEnd(t) == AddMonths(t.pen, Period)
NextEnd(t) == AddMonths(t.pen, 2 * Period)
FinalFraction(t) ==
  LET e == RegularEnd(t) IN
  IF t.mat = e THEN R1
  ELSE IF DayLt(t.mat, e) THEN Part(t.pen, t.mat, t.pen, e)
  ELSE RAdd(R1, Part(e, t.mat, e, NextEnd(t)))

(* --- existence ------------------------------------------------------------ *)
\* every day that the schedule or an accrual fraction needs is a representable day
Representable(t) ==
  /\ \A k \in 0..(NumRegular(t) - 1) : Coupon(t, k) # <<>> /\ WeekendRoll(Coupon(t, k)) # <<>>
  /\ FirstPrior(t) # <<>>
  /\ DayLt(t.issue, FirstPrior(t)) => SecondPrior(t) # <<>>
  /\ RegularEnd(t) # <<>>
  /\ DayLt(RegularEnd(t), t.mat) => NextEnd(t) # <<>>
\* the order test for the first period must not look at a day that is none
Exists(t) ==
  /\ NumRegular(t) > 0
  /\ FirstPrior(t) # <<>> /\ RegularEnd(t) # <<>>
  /\ Representable(t)

Flows(t) ==
  LET n == NumRegular(t) IN
  [k \in 1..(n + 1) |->
     IF k <= n
     THEN LET d == Coupon(t, k - 1) IN
          [due |-> d, pay |-> WeekendRoll(d), amt |-> IF k = 1 THEN RMul(Regular(t), FirstFraction(t)) ELSE Regular(t)]
     ELSE [due |-> t.mat, pay |-> t.mat, amt |-> RAdd(t.face, RMul(Regular(t), FinalFraction(t)))]]

(* --- valuation ------------------------------------------------------------ *)
Future(flows, settle) == {k \in 1..Len(flows) : DayLt(settle, flows[k].due)}
\* D(d): the discount factor from the settlement day to day d
Value(flows, settle, D(_)) ==
  LET RECURSIVE Go(_)
      Go(k) == IF k > Len(flows) THEN R0
               ELSE RAdd(IF DayLt(settle, flows[k].due) THEN RMul(flows[k].amt, D(flows[k].pay)) ELSE R0, Go(k + 1))
  IN Go(1)
=============================================================================
