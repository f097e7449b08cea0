------------------------------- MODULE MCBiz --------------------------------
(***************************************************************************)
(* Design model of business days: a calendar is being drawn up one day at  *)
(* a time (each day of a window is decided open or closed), around month,  *)
(* February and year ends and the ends of the range; on every calendar so  *)
(* obtained rolling and counting mean what they should.                    *)
(***************************************************************************)
EXTENDS BizDays, FiniteSets
CONSTANT W                 \* window length
VARIABLES first, iv, n     \* first day, closed days decided so far, days decided
vars == <<first, iv, n>>

Firsts == {<<2023, 12, 28>>, <<2024, 2, 26>>, <<2023, 2, 26>>, <<2024, 3, 12>>, <<2024, 4, 28>>,
           <<MaxYear, 12, 32 - W>>, MinDay}
Init == first \in Firsts /\ iv = <<>> /\ n = 0
Next == /\ n < W
        /\ n' = n + 1
        /\ first' = first
        /\ \/ iv' = iv
           \/ LET s == Serial(first) + n
              IN iv' = IF iv # <<>> /\ iv[Len(iv)][2] = s - 1
                       THEN [iv EXCEPT ![Len(iv)] = <<@[1], s>>]
                       ELSE Append(iv, <<s, s>>)

Days == {FromSerial(Serial(first) + k) : k \in 0..W - 1}
Open(x) == ~ClosedIn(iv, Serial(x))

RollsToOpen ==
  \A u \in Days : \A c \in {"Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding"} :
    LET r == Roll(iv, u, c) IN r # <<>> => Open(r)

NearestOpen ==
  \A u \in Days :
    LET f == Roll(iv, u, "Following")
        p == Roll(iv, u, "Preceding")
    IN /\ f # <<>> => DayLe(u, f) /\ \A x \in Days : DayLe(u, x) /\ DayLt(x, f) => ~Open(x)
       /\ p # <<>> => DayLe(p, u) /\ \A x \in Days : DayLt(p, x) /\ DayLe(x, u) => ~Open(x)
       /\ f = <<>> => \A x \in Days : DayLe(u, x) => ~Open(x)
       /\ p = <<>> => \A x \in Days : DayLe(x, u) => ~Open(x)
       /\ Open(u) => f = u /\ p = u

StaysInMonth ==
  \A u \in Days :
    LET f == Roll(iv, u, "Following")
        p == Roll(iv, u, "Preceding")
        mf == Roll(iv, u, "ModifiedFollowing")
        mp == Roll(iv, u, "ModifiedPreceding")
    IN f # <<>> /\ p # <<>> =>
         /\ SameMonth(f, u) => mf = f
         /\ SameMonth(p, u) => mp = p
         /\ ~SameMonth(f, u) => mf = p
         /\ ~SameMonth(p, u) => mp = f
         /\ SameMonth(f, u) \/ SameMonth(p, u) => SameMonth(mf, u) /\ SameMonth(mp, u)

Idempotent ==
  \A u \in Days : \A c \in {"Following", "Preceding", "ModifiedFollowing", "ModifiedPreceding"} :
    LET r == Roll(iv, u, c) IN r # <<>> => Roll(iv, r, c) = r

IsOpen(k) == ~ClosedIn(iv, Serial(first) + k)
Counting ==
  \A a, b \in 0..W - 1 :
    /\ \A f, l \in {0, 1, 2} : Count(IsOpen, a, b, f, l) = -Count(IsOpen, b, a, f, l) \/ a = b
    /\ a <= b => /\ Count(IsOpen, a, b, 2, 2) = Cardinality({k \in a..b - 1 : IsOpen(k)})
                 /\ Count(IsOpen, a, b, 1, 1) = Cardinality({k \in a..b : IsOpen(k)})
                 /\ Count(IsOpen, a, b, 0, 0) = Cardinality({k \in a + 1..b - 1 : IsOpen(k)})
                 /\ Count(IsOpen, a, b, 0, 1) = Cardinality({k \in a + 1..b : IsOpen(k)})
\* counting by formula is counting day by day
ByFormula ==
  n = W =>
  \A off \in {{6, 7}, {1}} : \A a, b \in 0..W - 1 : \A fl \in {<<2, 2>>, <<1, 1>>, <<0, 1>>} :
    LET s0 == Serial(first)
        open(k) == OpenWeekly(off, iv, s0 + k)
    IN CountWeekly(off, iv, s0 + a, s0 + b, fl[1], fl[2]) = Count(open, a, b, fl[1], fl[2])
Additive ==
  \A a, b, c \in 0..W - 1 :
    a <= b /\ b <= c => Count(IsOpen, a, b, 2, 2) + Count(IsOpen, b, c, 2, 2) = Count(IsOpen, a, c, 2, 2)
=============================================================================
