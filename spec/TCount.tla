------------------------------- MODULE TCount -------------------------------
(* Conformance of business-day counting (C11). *)
EXTENDS Replay, BizDays

(* mask and weekly histories: nothing to remember.  walk histories: the counter's      *)
(* state is <<business days strictly between start and the cursor, is the   *)
(* cursor's day open, has the cursor moved>>.                               *)
TInit(hist) == IF hist.kind # "walk" THEN <<0, FALSE, FALSE>> ELSE <<0, hist.open0, FALSE>>

B(x) == IF x THEN 1 ELSE 0

FlagOf == <<2, 1, 0>>
MaskRow(hist, i) ==
  LET open(k) == ~(k >= 0 /\ k < hist.len /\ Bit(hist.closed, k) = 1)
  IN [j \in 1..hist.len + 2 |->
        [c \in 1..9 |-> Count(open, i, j - 2, FlagOf[(c - 1) \div 3 + 1], FlagOf[((c - 1) % 3) + 1])]]

RECURSIVE CountTrue(_, _)
CountTrue(s, k) == IF k = 0 THEN 0 ELSE B(s[k]) + CountTrue(s, k - 1)

Walked(hist, s, f, l) ==
  IF ~s[3] THEN B(IncFirst(f) /\ IncLast(l) /\ hist.open0)
  ELSE s[1] + B(IncFirst(f) /\ hist.open0) + B(IncLast(l) /\ s[2])

TApply(hist, s, e) ==
  CASE e.op = "from" ->
         LET w == MaskRow(hist, e.i)
         IN [ok |-> e.r = w, st |-> s, why |-> <<"expected", w>>]
    [] e.op = "pass" ->
         LET n == Len(e.open)
             c == s[1] + B(s[3] /\ s[2]) + CountTrue(e.open, n - 1)
         IN [ok |-> TRUE, st |-> <<c, e.open[n], TRUE>>, why |-> <<>>]
    [] e.op = "count" ->
         \* the earlier date is the first one, whichever way round they are passed
         LET w == Walked(hist, s, e.f, e.l)
             v == IF e.swap THEN -w ELSE w
         IN [ok |-> e.r = v, st |-> s, why |-> <<"expected", v>>]
    [] e.op = "between" ->
         LET v == CountWeekly({hist.off[k] : k \in 1..Len(hist.off)}, hist.iv, e.a, e.b, e.f, e.l)
         IN [ok |-> e.r = v, st |-> s, why |-> <<"expected", v>>]
    [] e.op = "same" ->
         LET v == B(IncFirst(e.f) /\ IncLast(e.l) /\ s[2])
         IN [ok |-> e.r = v, st |-> s, why |-> <<"expected", v>>]
=============================================================================
