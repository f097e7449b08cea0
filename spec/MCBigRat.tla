------------------------------ MODULE MCBigRat ------------------------------
(***************************************************************************)
(* The operators of BigRat mean what their names say: compared with TLC's  *)
(* own integer arithmetic on small fractions, and field, order, floor and  *)
(* exponential laws.                                                       *)
(***************************************************************************)
EXTENDS BigRat, TLC
VARIABLES p, q, r
vars == <<p, q, r>>
N == -4..4
D == {1, 2, 3, 7}
Fr == {<<n, d>> : n \in N, d \in D}
S(f) == RRat(f[1], f[2])
Init == p \in Fr /\ q = <<0, 1>> /\ r = <<0, 1>>
Next == \/ q = <<0, 1>> /\ q' \in Fr /\ UNCHANGED <<p, r>>
        \/ r = <<0, 1>> /\ r' \in {f \in Fr : f[2] = 3} /\ UNCHANGED <<p, q>>

Eq(f, s) == REq(S(f), s)
Defined == /\ Eq(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>, RAdd(S(p), S(q)))
           /\ Eq(<<p[1] * q[2] - q[1] * p[2], p[2] * q[2]>>, RSub(S(p), S(q)))
           /\ Eq(<<p[1] * q[1], p[2] * q[2]>>, RMul(S(p), S(q)))
           /\ q[1] # 0 => Eq(<<p[1] * q[2], p[2] * q[1]>>, RDiv(S(p), S(q)))
           /\ RCmp(S(p), S(q)) = (IF p[1] * q[2] < q[1] * p[2] THEN -1 ELSE IF p[1] * q[2] = q[1] * p[2] THEN 0 ELSE 1)
           /\ RFloor(S(p)) = RInt(p[1] \div p[2])
Canonical == (p[1] * q[2] = q[1] * p[2]) <=> (S(p) = S(q))
Laws == /\ RAdd(S(p), RAdd(S(q), S(r))) = RAdd(RAdd(S(p), S(q)), S(r))
        /\ RMul(S(p), RAdd(S(q), S(r))) = RAdd(RMul(S(p), S(q)), RMul(S(p), S(r)))
        /\ RMul(S(p), S(q)) = RMul(S(q), S(p))
        /\ RSub(S(p), S(p)) = R0
        /\ q[1] # 0 => RMul(RDiv(S(p), S(q)), S(q)) = S(p)
        /\ RAbs(S(p)) = RMax(S(p), RNeg(S(p)))
Exp == /\ q = <<0, 1>> /\ r = <<0, 1>> =>
            /\ RNear(RMul(RExp(S(p)), RExp(RNeg(S(p)))), R1, RPow2(-60), R0)
            /\ RLt(R0, RExp(S(p)))
       /\ r = <<0, 1>> /\ q[2] = 1 =>
            RNear(RExp(RAdd(S(p), S(q))), RMul(RExp(S(p)), RExp(S(q))), RPow2(-60), R0)
\* e to 18 places, dyadics, integers as text
Landmarks == /\ RClose(RExp(1), "2718281828459045235/1000000000000000000", RPow2(-58))
             /\ RNorm("3p-2") = "3/4" /\ RNorm("-5p3") = "-40/1" /\ RNorm("12") = "12/1" /\ RNorm("0p0") = R0
             /\ RAdd("100000000000000000000", 1) = "100000000000000000001/1"
             /\ RRound("1/3", 4) = "5/16"
=============================================================================
