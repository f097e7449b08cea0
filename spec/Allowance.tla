----------------------------- MODULE Allowance ------------------------------
(***************************************************************************)
(* What a floating-point evaluation of an interpolated value may differ    *)
(* from the exact one by: a small part of the size of the terms.           *)
(***************************************************************************)
EXTENDS Interp

Finite(v) == v \notin {"nan", "inf", "-inf"}
MaxOver(S(_), n) ==
  LET RECURSIVE Go(_, _)
      Go(i, a) == IF i > n THEN a ELSE Go(i + 1, RMax(a, S(i)))
  IN Go(1, R0)
MaxOrdinate(m) == LET Y(i) == RAbs(m.p[i].y) IN MaxOver(Y, Len(m.p))
(* The size of the quantities a value is put together from. *)
Size(m) ==
  LET n == Len(m.p)
      y == MaxOrdinate(m)
      H(i) == Gap(m.p, i)
      InvH(i) == RDiv(R1, Gap(m.p, i))
      T(i) == LET h == Gap(m.p, i) IN
              RMul(h, RAdd(RAbs(m.q[i][2]), RMul(h, RAdd(RAbs(m.q[i][3]), RMul(h, RAbs(m.q[i][4]))))))
  IN RRound(RAdd(RMul(RAdd(R1, RMul(MaxOver(H, n - 1), MaxOver(InvH, n - 1))), RAdd(y, MaxOver(T, n - 1))), RPow2(-100)), 120)
Eps(prec) == IF prec = "f64" THEN RPow2(-43) ELSE RPow2(-16)
Near(r, y, tol) == r[1] = "ok" /\ Finite(r[2]) /\ RClose(r[2], y, tol)
=============================================================================
