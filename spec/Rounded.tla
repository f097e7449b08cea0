------------------------------ MODULE Rounded -------------------------------
(***************************************************************************)
(* What a floating-point evaluation of Price may differ by: values and     *)
(* their rounding allowance, which grows with the size of what they are    *)
(* computed from.  st = [c, size, flows]: a curve, the size of its data,   *)
(* the flows of a bond.                                                    *)
(***************************************************************************)
EXTENDS Price, Allowance

(* Size of what an interpolated yield is computed from (as in TInterp), one step of the time's grid included. *)
ModelSize(m) ==
  LET n == Len(m.p)
      YY(i) == RAbs(m.p[i].y)
      X(i) == RAbs(m.p[i].x)
      H(i) == Gap(m.p, i)
      InvH(i) == RDiv(R1, Gap(m.p, i))
      T(i) == LET h == Gap(m.p, i) IN
              RMul(h, RAdd(RAbs(m.q[i][2]), RMul(h, RAdd(RAbs(m.q[i][3]), RMul(h, RAbs(m.q[i][4]))))))
      inv == MaxOver(InvH, n - 1)
  IN IF n < 2 THEN MaxOver(YY, n)
     ELSE RRound(RAdd(RMul(RAdd(R1, RMul(RAdd(MaxOver(H, n - 1), MaxOver(X, n)), inv)),
                           RAdd(MaxOver(YY, n), MaxOver(T, n - 1))), RPow2(-100)), 120)

\* coefficients kept short: 400 binary places are far more than the allowance can see
Short(m) == [m EXCEPT !.q = [i \in 1..Len(m.q) |-> <<RRound(m.q[i][1], 400), RRound(m.q[i][2], 400), RRound(m.q[i][3], 400), RRound(m.q[i][4], 400)>>]]

(* The price and its rounding allowance in one pass over the flows: for every flow to come the exponent is   *)
(* that of Curve (GrowthOn), the allowance grows with the size of what the yields are computed from.  The     *)
(* third component says whether every exponential and every present value lies in the range of the number     *)
(* type: where one does not, no result can be asked for.                                                      *)
Reach(st, d) ==
  IF d = st.c.s THEN <<R0, R0>>
  ELSE LET t == TimeOn(st.c, d)[2]
           y == YieldOn(st.c, d)[2]
       IN <<RRound(RMul(t, y), 300), RMul(RAbs(t), RAdd(RAbs(y), st.size))>>
Holdable(prec, a, b, pv) ==
  LET most == IF prec = "f32" THEN "80/1" ELSE "700/1"
      large == IF prec = "f32" THEN RPow2(120) ELSE RPow2(1000)
  IN RLe(RAbs(a), most) /\ RLe(RAbs(b), most) /\ RLe(RAbs(RSub(a, b)), most) /\ RLe(RAbs(pv), large)
Priced(prec, st, settle) ==
  LET from == Reach(st, settle)
      RECURSIVE Go(_, _)
      Go(k, acc) ==
        IF k > Len(st.flows) THEN acc
        ELSE IF ~DayLt(settle, st.flows[k].due) THEN Go(k + 1, acc)
        ELSE LET to == Reach(st, st.flows[k].pay)
                 pv == RRound(RMul(st.flows[k].amt, RExp(RSub(from[1], to[1]))), 300)
             IN Go(k + 1, <<RAdd(acc[1], pv), RAdd(acc[2], RMul(RAbs(pv), RRound(RAdd(R1, RAdd(from[2], to[2])), 100))),
                              acc[3] /\ Holdable(prec, from[1], to[1], pv)>>)
      r == Go(1, <<R0, R0, TRUE>>)
  IN <<r[1], RMul(Eps(prec), RAdd(RMul("4/1", r[2]), RAbs(r[1]))), r[3]>>

=============================================================================
