------------------------------- MODULE TBond --------------------------------
(***************************************************************************)
(* Conformance of bonds (C19-C21).  A history is the life of one bond:     *)
(*   new        the bond is made, or not                                   *)
(*   scan       the days on which a flow is paid, seen from the issue date *)
(*   drop       how many of those are left from a later settlement date    *)
(*   amounts    the amounts of the flows, in order of payment              *)
(*   value      a valuation on a curve with a discount factor of its own   *)
(*              for every day (Weight), which may refuse late times        *)
(*   id         the identifier                                             *)
(***************************************************************************)
EXTENDS Replay, Bond, FiniteSets, SequencesExt

TInit(hist) == [flows |-> <<>>, seen |-> <<>>]

Finite(v) == v \notin {"nan", "inf", "-inf"}
Eps(hist) == IF hist.prec = "f64" THEN RPow2(-44) ELSE RPow2(-17)

DoNew(e) ==
  LET t == [issue |-> e.issue, first |-> e.first, pen |-> e.pen, mat |-> e.mat,
            rate |-> RNorm(e.rate), face |-> RNorm(e.face)]
      must == Ordered(t) /\ Exists(t)
      mustNot == NumRegular(t) = 0 \/ (Ordered(t) /\ ~Exists(t))
      ok == /\ e.res # "panic"
            /\ must => e.res = "some"
            /\ mustNot => e.res = "none"
  IN [ok |-> ok, st |-> [flows |-> IF must /\ ok THEN Flows(t) ELSE <<>>, seen |-> <<>>],
      why |-> <<IF must THEN "a bond" ELSE IF mustNot THEN "no bond" ELSE "no panic">>]

\* the flows still to come, their distinct payment days
Pays(st, settle) == {st.flows[k].pay : k \in Future(st.flows, settle)}
Earliest(S) == CHOOSE x \in S : \A y \in S : DayLe(x, y)

DoScan(st, e) ==
  LET want == Pays(st, e.settle)
      got == IF e.paid[1] = "ok" THEN {e.paid[2][k] : k \in 1..Len(e.paid[2])} ELSE {}
  IN [ok |-> e.paid[1] = "ok" /\ got = want, st |-> st,
      why |-> <<"missing", want \ got, "not due", got \ want>>]
DoDrop(st, e) ==
  LET want == Pays(st, e.settle) IN
  [ok |-> e.n = Cardinality(want) /\ e.next = (IF want = {} THEN <<>> ELSE Earliest(want)), st |-> st,
   why |-> <<"payments left", Cardinality(want), "the next", IF want = {} THEN <<>> ELSE Earliest(want)>>]

(* Amounts in order of payment; flows paid on one day come together, and nothing stands for zero. *)
OnDay(flows, d) ==
  LET RECURSIVE Go(_)
      Go(k) == IF k > Len(flows) THEN R0 ELSE RAdd(IF flows[k].pay = d THEN flows[k].amt ELSE R0, Go(k + 1))
  IN Go(1)
InOrder(flows) == \A k \in 1..(Len(flows) - 1) : DayLe(flows[k].pay, flows[k + 1].pay)
Grouped(flows) ==
  LET days == SetToSortSeq({flows[k].pay : k \in 1..Len(flows)}, DayLt)
  IN SelectSeq([k \in 1..Len(days) |-> OnDay(flows, days[k])], LAMBDA a : a # R0)
MaxAmount(flows) ==
  LET RECURSIVE Go(_)
      Go(k) == IF k = 0 THEN R0 ELSE RMax(RAbs(flows[k].amt), Go(k - 1))
  IN Go(Len(flows))
DoAmounts(hist, st, e) ==
  LET want == Grouped(st.flows)
      got == IF e.a[1] = "ok" THEN e.a[2] ELSE <<>>
      n == Len(want)
      near(x, y) == Finite(x) /\ RNear(x, y, Eps(hist), R0)
      \* the schedule is another property's: the first, the last and the amounts in between
      ok == /\ e.a[1] = "ok"
            /\ (Len(got) = 0) = (n = 0)
            /\ (n > 0 /\ ~InOrder(st.flows)) => Len(got) = n /\ \A k \in 1..n : near(got[k], want[k])
            /\ (n > 0 /\ InOrder(st.flows)) =>
                  /\ near(got[1], want[1])
                  /\ near(got[Len(got)], want[n])
                  /\ (n > 2) => (\A k \in 2..(Len(got) - 1) : near(got[k], want[2]))
  IN [ok |-> ok, st |-> st, why |-> <<"first", IF n > 0 THEN want[1] ELSE <<>>, "regular", IF n > 2 THEN want[2] ELSE <<>>,
                                     "last", IF n > 0 THEN want[n] ELSE <<>>>>]

(* --- valuation -------------------------------------------------------------- *)
Weight(serial, k) == RAdd(R1, RRat(((serial % 1009) * k) % 1009, 1009))
Recorded(e, d) == {k \in 1..Len(e.dfs) : e.dfs[k][1] = d}
\* what the curve answered when asked directly, else what it is made to answer
Factor(e, d) ==
  LET r == Recorded(e, d) IN
  IF r # {} THEN e.dfs[CHOOSE k \in r : TRUE][2]
  ELSE RDiv(IF d = e.cs THEN R1 ELSE Weight(Serial(d), e.k), IF e.settle = e.cs THEN R1 ELSE Weight(Serial(e.settle), e.k))
Time(e, d) == RRat(Serial(d) - Serial(e.cs), 365)
Outside(e, d) == (e.hi # "inf" /\ RLt(e.hi, Time(e, d))) \/ (e.lo # "-inf" /\ RLt(Time(e, d), e.lo))
CurveErrors(e, d) ==
  IF DayLt(e.settle, e.cs) \/ DayLt(d, e.cs) THEN {"InvalidInput"}
  ELSE IF Outside(e, d) \/ (e.settle # e.cs /\ Outside(e, e.settle)) THEN {"InterpolationError"} ELSE {}

Key(e) == <<e.settle, e.cs, e.k, e.lo, e.hi, e.val>>
DoValue(hist, st, e) ==
  LET todo == Future(st.flows, e.settle)
      errors == UNION {CurveErrors(e, st.flows[k].pay) : k \in todo}
      D(d) == Factor(e, d)
      want == Value(st.flows, e.settle, D)
      tol == RMul(Eps(hist), RMul("4/1", RMul(MaxAmount(st.flows), RInt(Len(st.flows)))))
      before == {k \in 1..Len(st.seen) : st.seen[k][1] = Key(e)}
      same == \A k \in before : st.seen[k][2] = e.res
      right == IF errors # {} THEN e.res[1] = "err" /\ e.res[2] \in errors
               ELSE e.res[1] = "ok" /\ Finite(e.res[2])
                    /\ (IF todo = {} THEN REq(e.res[2], R0) ELSE RClose(e.res[2], want, tol))
  IN [ok |-> right /\ same, st |-> [st EXCEPT !.seen = IF before = {} THEN Append(st.seen, <<Key(e), e.res>>) ELSE st.seen],
      why |-> <<IF errors # {} THEN errors ELSE <<"value", RFloor(RMul(want, "1000000/1")), "millionths">>,
                "flows to come", Cardinality(todo), IF same THEN "" ELSE "differs from an earlier answer">>]

TApply(hist, st, e) ==
  CASE e.op = "new" -> DoNew(e)
    [] e.op = "scan" -> DoScan(st, e)
    [] e.op = "drop" -> DoDrop(st, e)
    [] e.op = "amounts" -> DoAmounts(hist, st, e)
    [] e.op = "value" -> DoValue(hist, st, e)
    [] e.op = "id" -> [ok |-> e.got = e.want, st |-> st, why |-> <<"identifier", e.want>>]
=============================================================================
