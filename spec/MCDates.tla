------------------------------ MODULE MCDates -------------------------------
(***************************************************************************)
(* Design model of date arithmetic: a cursor moved by days, months and     *)
(* years, and what moving must mean in terms of the successor machine.     *)
(***************************************************************************)
EXTENDS Civil, FiniteSets
VARIABLES cur, was, how
vars == <<cur, was, how>>

Starts == {x \in {<<y, m, d>> : y \in {1899, 1900, 1999, 2000, 2003, 2004, MinYear, MinYear + 1, MaxYear - 1, MaxYear},
                                m \in 1..12, d \in {1, 15, 28, 29, 30, 31}} : ValidYMD(x[1], x[2], x[3])}

Init == cur \in Starts /\ was = cur /\ how = <<"start", 0>>

Move(kind, n, r) == /\ how[1] = "start"
                    /\ was' = cur
                    /\ how' = <<kind, n>>
                    /\ cur' = r

Next == \/ \E n \in -40..40 : Move("days", n, AddDays(cur, n))
        \/ \E n \in -40..40 : Move("months", n, AddMonths(cur, n))
        \/ \E n \in -9..9 : Move("years", n, AddYears(cur, n))
        \/ \E n \in {-2000000, 2000000} : Move("years", n, AddYears(cur, n))

RECURSIVE SuccN(_, _)
SuccN(x, n) == IF x = <<>> \/ n = 0 THEN x
               ELSE IF n > 0 THEN SuccN(Succ(x), n - 1) ELSE SuccN(Pred(x), n + 1)

\* n days is n steps of the machine
DaysAreSteps == how[1] = "days" => cur = SuccN(was, how[2])

\* n months is n steps of the month cursor; the day of month is kept where it exists
MonthsAreMonths ==
  how[1] = "months" =>
    LET k == was[1] * 12 + was[2] - 1 + how[2]
    IN IF cur = <<>> THEN k < MinYear * 12 \/ k > MaxYear * 12 + 11
       ELSE /\ cur[1] * 12 + cur[2] - 1 = k
            /\ ValidYMD(cur[1], cur[2], cur[3])
            /\ cur[3] <= was[3]
            /\ cur[3] # was[3] => cur = LastOfMonth(cur) /\ was[3] > cur[3]

YearsAreTwelveMonths ==
  how[1] = "years" =>
    /\ (how[2] \in -9..9) => cur = AddMonths(was, 12 * how[2])
    /\ (how[2] \notin -9..9) => cur = <<>>

\* there and back loses at most the clamped days
Back == how[1] = "months" /\ cur # <<>> =>
          LET b == AddMonths(cur, -how[2])
          IN b # <<>> /\ b[1] = was[1] /\ b[2] = was[2] /\ b[3] <= was[3]
=============================================================================
