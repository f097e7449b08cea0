------------------------------ MODULE DayCount ------------------------------
(* Year fractions between two days as exact rationals <<numerator, denominator>>. *)
EXTENDS Civil

Act360(a, b) == <<"ok", Serial(b) - Serial(a), 360>>
Act365(a, b) == <<"ok", Serial(b) - Serial(a), 365>>

Cap30(d) == IF d > 30 THEN 30 ELSE d
Days30(a, b) == 360 * (b[1] - a[1]) + 30 * (b[2] - a[2]) + (Cap30(b[3]) - Cap30(a[3]))
Thirty360(a, b) == IF DayLt(b, a) THEN <<"err", 0, 1>> ELSE <<"ok", Days30(a, b), 360>>

Fraction(conv, a, b) == CASE conv = "act360" -> Act360(a, b)
                          [] conv = "act365" -> Act365(a, b)
                          [] conv = "thirty360" -> Thirty360(a, b)
=============================================================================
