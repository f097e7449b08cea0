------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The library as one system.  A user holds days, numbers, curves, bonds    *)
(* and interpolators in numbered places; every action takes what is in some of them    *)
(* and puts its result into another, so that a day that came out of a      *)
(* rolled period becomes a maturity, a discount factor becomes a face      *)
(* value, and so on.  Outcome says what an action gives in a world, After  *)
(* the world it leaves.  All meaning is borrowed: Civil, BizDays, the      *)
(* market calendars, DayCount, Price (Curve, Bond, Interp).                *)
(*                                                                         *)
(* A world: [prec, days, nums, curves, bonds, models]; a curve place holds *)
(* <<>> or <<[c, size]>>, a bond place <<>> or <<flows>>, a model place    *)
(* <<>> or <<[m, size]>>, an interpolator fitted with numbers.             *)
(***************************************************************************)
EXTENDS Rounded, BizDays, HolidaysEurope, HolidaysAmericas, HolidaysAsia

(* --- calendars ----------------------------------------------------------- *)
Calendars == <<"weekends", "target", "nyse", "london", "japan", "fives", "december", "target+nyse", "fives+japan", "fives+weekends">>
\* closed days of a year, as days of the year; "fives" and "december" are a user's
ClosedOne(name, y) ==
  LET c == Year(y) IN
  CASE name = "weekends" -> Weekend(c)
    [] name = "target" -> ClosedEurope(c, "Target", "-") \cup Weekend(c)
    [] name = "nyse" -> ClosedAmericas(c, "UnitedStates", "NYSE") \cup Weekend(c)
    [] name = "london" -> ClosedEurope(c, "UnitedKingdom", "Exchange") \cup Weekend(c)
    [] name = "japan" -> ClosedAsia(c, "Japan", "-") \cup Weekend(c)
    [] name = "fives" -> {o \in 1..c.len : (DaysBeforeYear(y) + o) % 5 = 0}
    [] name = "december" -> {o \in 1..c.len : o >= Day(c, 12, 12)} \cup {1, 2}
Parts(name) ==
  CASE name = "target+nyse" -> {"target", "nyse"}
    [] name = "fives+japan" -> {"fives", "japan"}
    [] name = "fives+weekends" -> {"fives", "weekends"}
    [] OTHER -> {name}
ClosedYear(name, y) == UNION {ClosedOne(p, y) : p \in Parts(name)} \cap 1..DaysInYear(y)
\* the closed serial numbers among lo..hi
ClosedBetween(name, lo, hi) ==
  UNION {LET b == DaysBeforeYear(y)
             S == ClosedYear(name, y) IN {b + o : o \in S} : y \in YearOfSerial(lo)..YearOfSerial(hi)} \cap lo..hi

Reached == 45       \* no calendar here is closed for so many days on end
Around(name, s) ==
  LET S == ClosedBetween(name, s - Reached, s + Reached)
      RECURSIVE Go(_, _)
      Go(k, acc) == IF k > s + Reached THEN acc
                    ELSE Go(k + 1, IF k \in S THEN Append(acc, <<k, k>>) ELSE acc)
  IN Go(s - Reached, <<>>)
IsOpen(name, d) == LET s == Serial(d) IN ClosedBetween(name, s, s) = {}
RollOn(name, u, conv) == IF u = <<>> THEN <<>> ELSE Roll(Around(name, Serial(u)), u, conv)
CountOn(name, a, b, f, l) ==
  LET x == Serial(a)
      y == Serial(b)
      S == IF x <= y THEN ClosedBetween(name, x, y) ELSE ClosedBetween(name, y, x)
      lo == IF x <= y THEN x ELSE y
      hi == IF x <= y THEN y ELSE x
      In1(k) == IF k \in S THEN 0 ELSE 1
      n == IF lo = hi THEN (IF IncFirst(f) /\ IncLast(l) THEN In1(lo) ELSE 0)
           ELSE (hi - lo - 1) - Cardinality(S \cap (lo + 1)..(hi - 1))
                + (IF IncFirst(f) THEN In1(lo) ELSE 0) + (IF IncLast(l) THEN In1(hi) ELSE 0)
  IN IF x <= y THEN n ELSE -n
\* the last open day of a month that has one
LastOpen(name, d) == RollOn(name, LastOfMonth(d), "Preceding")

(* --- numbers -------------------------------------------------------------- *)
\* a number an action is given: <<"is", n, k>> is n / 2^k, <<"in", i>> what is in place i
Given(w, x) == IF x[1] = "is" THEN RMul(RInt(x[2]), RPow2(-x[3])) ELSE w.nums[x[2]]

(* --- objects -------------------------------------------------------------- *)
\* the maturities of a curve: months (negative: days) from its settlement day, rolled
Ahead(d, n) == IF n >= 0 THEN AddMonths(d, n) ELSE AddDays(d, -n)
Maturities(w, a) ==
  LET RECURSIVE Go(_, _)
      Go(k, acc) == IF k > Len(a.mats) THEN acc
                    ELSE Go(k + 1, Append(acc, RollOn(a.cal, Ahead(w.days[a.a], a.mats[k]), a.conv)))
  IN Go(1, <<>>)
QuotesOf(w, a) ==
  [s |-> w.days[a.a], dc |-> a.dc, kind |-> a.kind, mats |-> Maturities(w, a), ys |-> [k \in 1..Len(a.ys) |-> Given(w, a.ys[k])]]
\* the terms of a bond: first coupon m months after the issue (0: the day in place b), n coupons, the rest rolled
TermsOf(w, a) ==
  LET first == IF a.m = 0 THEN w.days[a.b] ELSE RollOn(a.cal, Ahead(w.days[a.a], a.m), a.conv)
      pen == AddMonths(first, 6 * (a.n - 1))
      mat == RollOn(a.cal, Ahead(pen, a.rest), a.conv)
  IN [issue |-> w.days[a.a], first |-> first, pen |-> pen, mat |-> mat, rate |-> Given(w, a.rate), face |-> Given(w, a.face)]

\* the points an interpolator is fitted with: numbers that may have come from anywhere
DataOf(w, a) ==
  [k \in 1..Len(a.xs) |-> [x |-> Given(w, a.xs[k]), y |-> Given(w, a.ys[k]),
                           s |-> IF a.kind = "hermite" THEN Given(w, a.ss[k]) ELSE R0]]
Modelled(kind, p) == LET m == Fitted(kind, p) IN
                     [m |-> [Short(m) EXCEPT !.built = <<>>], size |-> IF Len(p) < 2 THEN MaxOrdinate(m) ELSE Size(m)]

(* --- actions -------------------------------------------------------------- *)
Moved(d, a) ==
  CASE a.op = "addD" -> AddDays(d, a.n)
    [] a.op = "subD" -> AddDays(d, -a.n)
    [] a.op = "addM" -> AddMonths(d, a.n)
    [] a.op = "subM" -> AddMonths(d, -a.n)
    [] a.op = "addY" -> AddYears(d, a.n)
    [] a.op = "weekend" -> WeekendRoll(d)
    [] a.op = "succ" -> Succ(d)
    [] a.op = "pred" -> Pred(d)
    [] a.op = "roll" -> RollOn(a.cal, PeriodEnd(d, a.per), a.conv)
    [] a.op = "eom" -> LastOpen(a.cal, d)
DayOps == {"addD", "subD", "addM", "subM", "addY", "weekend", "succ", "pred", "roll", "eom"}

HeldCurve(w, k) == [c |-> w.curves[k][1].c, size |-> w.curves[k][1].size]
\* a discount factor and its allowance
FactorNear(w, k, a, b) ==
  LET from == Reach(HeldCurve(w, k), a)
      to == Reach(HeldCurve(w, k), b)
      v == RRound(RExp(RSub(from[1], to[1])), 300)
  IN <<v, RMul(RMul(Eps(w.prec), v), RMul("4/1", RRound(RAdd(R1, RAdd(from[2], to[2])), 100)))>>
FracEps(prec) == IF prec = "f64" THEN RPow2(-48) ELSE RPow2(-20)

(* Outcomes: <<"day", d>> (d = <<>>: none), <<"int", n>>, <<"num", value, allowance>>, <<"err", kinds>>, *)
(* <<"curve", contents>>, <<"bond", contents>>, <<"model", contents, errors of the fit>>,                *)
(* <<"out", side, argument>>.                                                                            *)
Outcome(w, a) ==
  IF a.op \in DayOps THEN <<"day", Moved(w.days[a.a], a)>>
  ELSE CASE a.op = "diff" -> <<"int", Serial(w.days[a.a]) - Serial(w.days[a.b])>>
    [] a.op = "order" -> <<"int", DayCmp(w.days[a.a], w.days[a.b])>>
    \* a day come to and the same day named afresh are one and the same
    [] a.op = "same" -> <<"int", 1>>
    [] a.op = "open" -> <<"int", IF IsOpen(a.cal, w.days[a.a]) THEN 1 ELSE 0>>
    [] a.op = "count" -> <<"int", CountOn(a.cal, w.days[a.a], w.days[a.b], a.f, a.l)>>
    [] a.op = "frac" ->
         LET t == Time(a.dc, w.days[a.a], w.days[a.b]) IN
         IF t[1] = "err" THEN <<"err", {t[2]}>> ELSE <<"num", t[2], RMul(FracEps(w.prec), RAbs(t[2]))>>
    [] a.op = "curve" ->
         LET q == QuotesOf(w, a)
             errors == QuoteErrors(q)
             c == CurveOf(q)
         IN IF errors # {} THEN <<"err", errors>>
            ELSE <<"curve", <<[c |-> [c EXCEPT !.m = Short(c.m)], size |-> ModelSize(c.m)]>>>>
    [] a.op = "bond" ->
         LET t == TermsOf(w, a) IN
         IF Ordered(t) /\ Exists(t) THEN <<"bond", <<Flows(t)>>>> ELSE <<"bond", <<>>>>
    [] a.op = "df" ->
         LET c == w.curves[a.k][1].c
             x == w.days[a.a]
             y == w.days[a.b]
             errors == FactorErrors(c, x, y)
             v == FactorNear(w, a.k, x, y)
         IN IF errors # {} THEN <<"err", errors>> ELSE <<"num", v[1], v[2]>>
    [] a.op = "price" ->
         LET on == HeldCurve(w, a.k)
             flows == w.bonds[a.j][1]
             s == w.days[a.a]
             errors == PriceErrors(on.c, flows, s)
             p == Priced(w.prec, [c |-> on.c, size |-> on.size, flows |-> flows], s)
         IN IF errors # {} THEN <<"err", errors>>
            ELSE IF Future(flows, s) = {} THEN <<"num", R0, R0>> ELSE <<"num", p[1], p[2]>>
    [] a.op = "fit" ->
         LET p == DataOf(w, a)
             errors == FitErrors(a.kind, p)
         IN <<"model", IF errors = {} THEN <<Modelled(a.kind, p)>> ELSE <<>>, errors>>
    [] a.op = "ask" ->
         LET h == w.models[a.k][1]
             x == Given(w, a.x)
         IN IF Side(h.m, x) # "in" THEN <<"out", Side(h.m, x), x>>
            ELSE <<"num", RRound(ValueOf(h.m, h.m.q, x), 300), RMul(Eps(w.prec), h.size)>>

(* The world afterwards; x is the number to keep where the outcome is one (a rounding of it). *)
After(w, a, o, x) ==
  CASE o[1] = "day" -> IF o[2] = <<>> THEN w ELSE [w EXCEPT !.days[a.to] = o[2]]
    [] o[1] = "num" -> [w EXCEPT !.nums[a.to] = x]
    [] o[1] = "curve" -> [w EXCEPT !.curves[a.to] = o[2]]
    [] o[1] = "bond" -> [w EXCEPT !.bonds[a.to] = o[2]]
    [] o[1] = "model" -> [w EXCEPT !.models[a.to] = o[2]]
    [] OTHER -> w

(* --- what may sensibly be asked -------------------------------------------- *)
InReach(d) == d # <<>> /\ d[1] \in 1960..2110
Sober(x, most) == RLe(RAbs(x), most)
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Enabled(w, a) ==
  CASE a.op \in {"roll", "eom"} -> LET d == w.days[a.a] IN
         IF a.op = "eom" THEN InReach(d) /\ LastOpen(a.cal, d) # <<>> /\ SameMonth(LastOpen(a.cal, d), d)
         ELSE InReach(d) /\ InReach(PeriodEnd(d, a.per)) /\ InReach(Moved(d, a))
    [] a.op \in DayOps -> InReach(Moved(w.days[a.a], a))
    [] a.op = "count" -> Serial(w.days[a.a]) - Serial(w.days[a.b]) \in -3000..3000
    [] a.op = "curve" ->
         LET q == QuotesOf(w, a) IN
         /\ \A k \in 1..Len(q.mats) : InReach(q.mats[k])
         /\ \A k \in 1..Len(q.ys) : Sober(q.ys[k], "1/4")
         /\ LET t == QuoteTimes(q) IN TimeErrors(t) = {} => Distinct([k \in 1..Len(t) |-> t[k][2]])
    [] a.op = "bond" ->
         LET first == IF a.m = 0 THEN w.days[a.b] ELSE Ahead(w.days[a.a], a.m) IN
         InReach(first) /\ InReach(AddMonths(first, 6 * (a.n - 1)))
           /\ LET t == TermsOf(w, a) IN InReach(t.first) /\ InReach(t.pen) /\ InReach(t.mat) /\ Ordered(t) /\ Sober(t.rate, "8/1") /\ Sober(t.face, "1000000/1")
    [] a.op = "df" -> w.curves[a.k] # <<>>
    [] a.op = "fit" ->
         LET p == DataOf(w, a) IN
         /\ Len(p) > 0
         /\ \A i \in 1..Len(p) : Sober(p[i].x, "4096/1") /\ Sober(p[i].y, "1000000/1") /\ Sober(p[i].s, "1000000/1")
         /\ \A i \in 1..Len(p) : \A j \in 1..(i - 1) : RLe("1/64", RAbs(RSub(p[i].x, p[j].x)))
    [] a.op = "ask" -> w.models[a.k] # <<>> /\ Sober(Given(w, a.x), "1000000/1")
    [] a.op = "price" -> w.curves[a.k] # <<>> /\ w.bonds[a.j] # <<>>
    [] OTHER -> TRUE
=============================================================================
