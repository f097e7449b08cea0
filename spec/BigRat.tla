------------------------------- MODULE BigRat -------------------------------
(***************************************************************************)
(* Exact rational numbers of unbounded size.                               *)
(*                                                                         *)
(* TLC's integers are 32 bit, so a rational is named by a string: "n/d" in *)
(* lowest terms with d > 0 (the canonical name, produced by every operator *)
(* below), and on input also "n", an integer value, or the exact dyadic    *)
(* "mpe" that stands for m * 2^e (the harness writes every finite float    *)
(* that way, without rounding).                                            *)
(*                                                                         *)
(* The primitive operators are given by their meaning only and evaluated   *)
(* by java/QOverrides.java (java.math.BigInteger); MCBigRat checks the     *)
(* field and order laws against TLC's own integers on a finite range.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Unevaluated == CHOOSE s \in STRING : TRUE

RNorm(a)   == Unevaluated      \* canonical name of a
RAdd(a, b) == Unevaluated      \* a + b
RSub(a, b) == Unevaluated      \* a - b
RMul(a, b) == Unevaluated      \* a * b
RDiv(a, b) == Unevaluated      \* a / b, b # 0
RCmp(a, b) == 0                \* -1, 0, 1 as a < b, a = b, a > b
RFloor(a)  == Unevaluated      \* greatest integer <= a
RPow2(e)   == Unevaluated      \* 2^e for an integer e (TLC integer)

R0 == "0/1"
R1 == "1/1"
RInt(i)    == RNorm(i)
RRat(n, d) == RDiv(n, d)
RNeg(a)    == RSub(R0, a)
RLt(a, b)  == RCmp(a, b) < 0
RLe(a, b)  == RCmp(a, b) <= 0
REq(a, b)  == RCmp(a, b) = 0
RSgn(a)    == RCmp(a, R0)
RAbs(a)    == IF RLt(a, R0) THEN RNeg(a) ELSE RNorm(a)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RSq(a)     == RMul(a, a)
RCube(a)   == RMul(a, RMul(a, a))
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

(* |a - b| <= rel * |b| + abs *)
RNear(a, b, rel, abs) == RClose(a, b, RAdd(RMul(rel, RAbs(b)), abs))

(* Rounding to a multiple of 2^-bits, used to keep long computations small. *)
RRound(a, bits) == RDiv(RFloor(RAdd(RMul(a, RPow2(bits)), "1/2")), RPow2(bits))

RSumSeq(s) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i = 0 THEN R0 ELSE RAdd(Go(i - 1), s[i])
  IN Go(Len(s))

RMaxAbsSeq(s) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i = 0 THEN R0 ELSE RMax(Go(i - 1), RAbs(s[i]))
  IN Go(Len(s))

(***************************************************************************)
(* exp(x) for |x| <= 2^20: halve the argument until it is at most 1/16,    *)
(* sum 14 Taylor terms, square back.  The error of the reduced series is   *)
(* below (2^-4)^15/15! < 2^-100, rounding to 170 binary places adds less;  *)
(* each squaring at most doubles the relative error, so the result is good *)
(* to better than 2^-70 relative (2^-94 for |x| <= 1).                     *)
(***************************************************************************)
RExp(x) ==
  LET bits == 170
      RECURSIVE Taylor(_, _)
      Taylor(r, n) == IF n > 14 THEN R1
                      ELSE RRound(RAdd(R1, RMul(RDiv(r, n), Taylor(r, n + 1))), bits)
      RECURSIVE Go(_)
      Go(r) == IF RLe(RAbs(r), "1/16") THEN Taylor(r, 1)
               ELSE LET h == Go(RDiv(r, "2/1")) IN RRound(RMul(h, h), bits)
  IN Go(RRound(x, bits + 30))
=============================================================================
