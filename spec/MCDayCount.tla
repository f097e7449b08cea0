----------------------------- MODULE MCDayCount -----------------------------
(* Design model of the day counts: three days a, b, c in any order; what the *)
(* conventions must mean for them.                                           *)
EXTENDS DayCount
VARIABLES a, b, c
vars == <<a, b, c>>
Pool == {x \in {<<y, m, d>> : y \in {2023, 2024}, m \in {1, 2, 3, 11, 12}, d \in {1, 27, 28, 29, 30, 31}} : ValidYMD(x[1], x[2], x[3])}
Init == a \in Pool /\ b = <<2023, 1, 1>> /\ c = <<2023, 1, 1>>
Next == \/ b = <<2023, 1, 1>> /\ b' \in Pool /\ UNCHANGED <<a, c>>
        \/ c = <<2023, 1, 1>> /\ c' \in Pool /\ UNCHANGED <<a, b>>

Num(f) == f[2]
Additive == /\ Num(Act360(a, b)) + Num(Act360(b, c)) = Num(Act360(a, c))
            /\ Num(Act365(a, b)) + Num(Act365(b, c)) = Num(Act365(a, c))
Sign == /\ Num(Act360(a, b)) = -Num(Act360(b, a))
        /\ (Num(Act365(a, b)) > 0) = DayLt(a, b)
Thirty == /\ (Thirty360(a, b)[1] = "err") = DayLt(b, a)
          /\ Thirty360(a, b)[1] = "ok" => Num(Thirty360(a, b)) >= 0
          /\ Thirty360(a, b)[1] = "ok" /\ Thirty360(b, c)[1] = "ok" =>
               Num(Thirty360(a, b)) + Num(Thirty360(b, c)) = Num(Thirty360(a, c))
          /\ Days30(a, <<a[1] + 1, a[2], Min2(a[3], DaysInMonth(a[1] + 1, a[2]))>>) \in {358, 359, 360}
=============================================================================
