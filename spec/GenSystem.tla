----------------------------- MODULE GenSystem ------------------------------
(***************************************************************************)
(* Behaviours of System for the real library to carry out (C25).           *)
(*   "pairs"  a curve and a bond are made, then all behaviours of Length   *)
(*            actions out of a small alphabet                              *)
(*   "days"   up to Length steps from one of Long days that calendars      *)
(*            treat unlike others, out of all kinds of steps; what was     *)
(*            come to is then used everywhere a day can be                 *)
(*   "drawn"  Long behaviours of Length actions with every argument drawn  *)
(*            by a generator whose state is part of the model's            *)
(* A finished behaviour is printed as a script.  What the laws below say   *)
(* is checked in every world on the way.                                   *)
(***************************************************************************)
EXTENDS System, TLC, Json, IOUtils
CONSTANTS Mode, Long, Length
VARIABLES w,        \* the world
          script,   \* actions so far
          head,     \* how the script begins
          g         \* the generator
vars == <<w, script, head, g>>

World(h) == [prec |-> h.prec, days |-> h.days, nums |-> [k \in 1..Len(h.nums) |-> Given(<<>>, h.nums[k])],
             curves |-> <<<<>>, <<>>>>, bonds |-> <<<<>>, <<>>>>, models |-> <<<<>>, <<>>>>]

\* values longer than this are not worth keeping while generating
Kept(o) == IF o[1] = "num" THEN RRound(o[2], 60) ELSE R0
Done == CASE Mode = "pairs" -> Len(script) = Length + 3
          [] Mode = "days" -> g[1] = 1
          [] Mode = "drawn" -> Len(script) = Length
Do(a) == LET o == Outcome(w, a) IN w' = After(w, a, o, Kept(o)) /\ script' = Append(script, a)

(* --- the small alphabet ---------------------------------------------------- *)
Heads == {[prec |-> "f64", days |-> <<<<2023, 8, 31>>, <<2024, 2, 29>>, <<2026, 1, 3>>>>, nums |-> <<<<"is", 1, 4>>, <<"is", 100, 0>>>>],
          [prec |-> "f32", days |-> <<<<2019, 12, 30>>, <<2020, 6, 30>>, <<2023, 3, 31>>>>, nums |-> <<<<"is", -1, 7>>, <<"is", 3, -2>>>>]}
Small ==
  {[op |-> "addM", a |-> i, n |-> n, to |-> 3] : i \in 1..2, n \in {1, 6}}
  \cup {[op |-> "roll", a |-> i, per |-> <<"addM", n>>, conv |-> v, cal |-> c, to |-> 2] :
          i \in {1, 3}, n \in {0, 6}, v \in {"Following", "ModifiedFollowing"}, c \in {"target", "fives+japan"}}
  \cup {[op |-> "weekend", a |-> 3, to |-> 1], [op |-> "pred", a |-> 1, to |-> 1], [op |-> "eom", a |-> 2, cal |-> "nyse", to |-> 3]}
  \cup {[op |-> "frac", dc |-> dc, a |-> 1, b |-> j, to |-> 1] : dc \in {"act365", "thirty360"}, j \in 2..3}
  \cup {[op |-> "count", a |-> 1, b |-> 2, f |-> 2, l |-> 1, cal |-> "london"]}
  \cup {[op |-> "curve", a |-> 1, dc |-> dc, kind |-> k, mats |-> <<0, 7, 24, 80>>, conv |-> "Following", cal |-> "target",
         ys |-> <<<<"is", 3, 6>>, <<"in", 1>>, <<"is", 1, 5>>, <<"is", 5, 7>>>>, to |-> 1] : dc \in {"act360", "thirty360"}, k \in {"linear", "natural"}}
  \cup {[op |-> "bond", a |-> 1, b |-> 2, m |-> m, n |-> 3, rest |-> 8, conv |-> "Following", cal |-> "weekends",
         rate |-> <<"in", 1>>, face |-> <<"in", 2>>, to |-> 1] : m \in {0, 5}}
  \cup {[op |-> "df", k |-> 1, a |-> i, b |-> j, to |-> 2] : i \in 1..2, j \in 2..3}
  \cup {[op |-> "price", j |-> 1, k |-> 1, a |-> i, to |-> 2] : i \in 1..2}
  \cup {[op |-> "fit", kind |-> k, xs |-> <<<<"in", 1>>, <<"is", 3, 1>>, <<"is", 4, 0>>, <<"in", 2>>>>, ys |-> <<<<"in", 2>>, <<"is", 1, 2>>, <<"in", 1>>, <<"is", -3, 0>>>>,
          ss |-> <<<<"is", 1, 0>>, <<"in", 1>>, <<"is", -2, 1>>, <<"is", 0, 0>>>>, to |-> 1] : k \in {"linear", "natural", "hermite"}}
  \cup {[op |-> "ask", k |-> 1, x |-> <<"in", i>>, to |-> j] : i, j \in 1..2} \cup {[op |-> "ask", k |-> 1, x |-> <<"is", 7, 1>>, to |-> 1]}

Before == <<[op |-> "curve", a |-> 1, dc |-> "act365", kind |-> "natural", mats |-> <<0, 3, 9, 24, 60>>, conv |-> "Following", cal |-> "nyse",
             ys |-> <<<<"is", 3, 7>>, <<"is", 4, 7>>, <<"is", 5, 7>>, <<"is", 3, 7>>, <<"is", 2, 7>>>>, to |-> 1],
            [op |-> "bond", a |-> 1, b |-> 2, m |-> 4, n |-> 2, rest |-> 7, conv |-> "Following", cal |-> "target",
             rate |-> <<"is", 1, 4>>, face |-> <<"is", 100, 0>>, to |-> 1],
            [op |-> "fit", kind |-> "natural", xs |-> <<<<"is", -2, 0>>, <<"is", 0, 0>>, <<"is", 1, 1>>, <<"is", 9, 0>>, <<"is", 120, 0>>>>,
             ys |-> <<<<"is", 1, 0>>, <<"in", 1>>, <<"is", 3, 2>>, <<"is", 1, 3>>, <<"in", 2>>>>, to |-> 1]>>
RECURSIVE Run(_, _, _)
Run(ww, acts, k) == IF k > Len(acts) THEN ww
                    ELSE LET o == Outcome(ww, acts[k]) IN Run(After(ww, acts[k], o, Kept(o)), acts, k + 1)

(* --- days come to, and used -------------------------------------------------- *)
Special == <<<<2024, 2, 29>>, <<2020, 2, 29>>, <<2023, 1, 31>>, <<2024, 12, 31>>, <<2022, 8, 31>>, <<2025, 2, 28>>, <<2026, 5, 30>>, <<2021, 4, 3>>>>
Starts == {[prec |-> IF k % 4 = 0 THEN "f32" ELSE "f64", days |-> <<Special[k], <<2028, 8, 31>>, <<2019, 12, 30>>, Special[k]>>,
            nums |-> <<<<"is", 1, 5>>, <<"is", 100, 0>>, <<"is", 3, 7>>>>] : k \in 1..Long}
Steps ==
  {[op |-> "addD", a |-> 1, n |-> n, to |-> 1] : n \in {0, 1, 31, 366}}
  \cup {[op |-> "subD", a |-> 1, n |-> n, to |-> 1] : n \in {1, 365}}
  \cup {[op |-> "addM", a |-> 1, n |-> n, to |-> 1] : n \in {1, 12, 13, 48}}
  \cup {[op |-> "subM", a |-> 1, n |-> n, to |-> 1] : n \in {1, 6, 12}}
  \cup {[op |-> "addY", a |-> 1, n |-> n, to |-> 1] : n \in {-3, -1, 1, 4}}
  \cup {[op |-> op, a |-> 1, to |-> 1] : op \in {"weekend", "succ", "pred"}}
  \cup {[op |-> "roll", a |-> 1, per |-> p, conv |-> "ModifiedFollowing", cal |-> c, to |-> 1] :
          p \in {<<"addY", 1>>, <<"addM", 6>>, <<"addD", 30>>}, c \in {"london", "december"}}
  \cup {[op |-> "roll", a |-> 1, per |-> <<"addM", 12>>, conv |-> v, cal |-> "target", to |-> 1] : v \in {"Unadjusted", "ModifiedPreceding"}}
  \cup {[op |-> "roll", a |-> 1, per |-> p, conv |-> "Following", cal |-> "nyse", to |-> 1] : p \in {<<"month end", 0>>, <<"month end", 1>>, <<"third Wednesday", 3>>, <<"back", 30>>}}
  \cup {[op |-> "eom", a |-> 1, cal |-> "nyse", to |-> 1]}
Uses ==
  <<[op |-> "same", a |-> 1], [op |-> "diff", a |-> 1, b |-> 3], [op |-> "diff", a |-> 4, b |-> 1], [op |-> "order", a |-> 1, b |-> 4],
    [op |-> "frac", dc |-> "act360", a |-> 3, b |-> 1, to |-> 3], [op |-> "frac", dc |-> "act365", a |-> 1, b |-> 2, to |-> 3],
    [op |-> "frac", dc |-> "thirty360", a |-> 3, b |-> 1, to |-> 3], [op |-> "frac", dc |-> "thirty360", a |-> 1, b |-> 2, to |-> 3],
    [op |-> "open", a |-> 1, cal |-> "target"], [op |-> "count", a |-> 1, b |-> 4, f |-> 1, l |-> 0, cal |-> "fives+japan"]>>
Objects ==
  <<[op |-> "curve", a |-> 1, dc |-> "act365", kind |-> "natural", mats |-> <<0, 1, 12, 48, 120>>, conv |-> "Unadjusted", cal |-> "weekends",
     ys |-> <<<<"is", 3, 7>>, <<"is", 4, 7>>, <<"in", 1>>, <<"is", 3, 7>>, <<"is", 2, 7>>>>, to |-> 1],
    [op |-> "curve", a |-> 3, dc |-> "thirty360", kind |-> "linear", mats |-> <<0, 6, 50, 120>>, conv |-> "Following", cal |-> "target",
     ys |-> <<<<"is", 3, 7>>, <<"is", 4, 7>>, <<"is", 3, 7>>, <<"is", 2, 7>>>>, to |-> 2],
    [op |-> "df", k |-> 1, a |-> 1, b |-> 2, to |-> 3], [op |-> "df", k |-> 2, a |-> 1, b |-> 2, to |-> 3],
    [op |-> "bond", a |-> 1, b |-> 2, m |-> 6, n |-> 5, rest |-> 7, conv |-> "Unadjusted", cal |-> "weekends", rate |-> <<"in", 1>>, face |-> <<"in", 2>>, to |-> 1],
    [op |-> "price", j |-> 1, k |-> 1, a |-> 1, to |-> 3],
    [op |-> "bond", a |-> 3, b |-> 1, m |-> 0, n |-> 3, rest |-> 3, conv |-> "Following", cal |-> "nyse", rate |-> <<"in", 1>>, face |-> <<"in", 2>>, to |-> 2],
    [op |-> "price", j |-> 2, k |-> 2, a |-> 3, to |-> 3], [op |-> "price", j |-> 2, k |-> 2, a |-> 1, to |-> 3]>>
\* those of acts that may be asked, one after the other
RECURSIVE Asked(_, _, _, _)
Asked(ww, sofar, acts, k) ==
  IF k > Len(acts) THEN <<ww, sofar>>
  ELSE IF ~Enabled(ww, acts[k]) THEN Asked(ww, sofar, acts, k + 1)
  ELSE LET o == Outcome(ww, acts[k]) IN Asked(After(ww, acts[k], o, Kept(o)), Append(sofar, acts[k]), acts, k + 1)

(* --- long behaviours --------------------------------------------------------- *)
\* a combined congruential generator (Wichmann and Hill)
Seed(n) == LET s == atoi(IOEnv.VERIF_SEED) % 10000 IN
           <<1 + ((n * 7919 + s * 104729) % 30268), 1 + ((n * 1301 + s * 331) % 30306), 1 + ((n + s * 65537) % 30322)>>
Turn(x) == <<(171 * x[1]) % 30269, (172 * x[2]) % 30307, (170 * x[3]) % 30323>>
Draws(x, k) ==
  LET RECURSIVE Go(_, _, _)
      Go(y, n, acc) == IF n = 0 THEN <<y, acc>> ELSE LET z == Turn(y) IN Go(z, n - 1, Append(acc, (z[1] + z[2] + z[3]) % 9973))
  IN Go(x, k, <<>>)
Pick(v, s) == s[(v % Len(s)) + 1]

DayPlaces == 4
NumPlaces == 3
DCs == <<"act360", "act365", "thirty360">>
Used == <<"linear", "natural">>
Models == <<"linear", "natural", "hermite">>
Ops == <<"addD", "subD", "addM", "addM", "subM", "addY", "weekend", "succ", "pred", "roll", "roll", "roll", "eom", "diff", "order", "same",
         "open", "count", "count", "frac", "frac", "curve", "curve", "curve", "bond", "bond", "bond", "df", "df", "df", "df",
         "price", "price", "price", "price", "fit", "fit", "ask", "ask", "ask">>
Literal(v) == <<"is", Pick(v, <<3, 5, 1, -1, 2, 0, 7, 6>>), 7>>
Months == <<0, 1, 2, 3, 6, 9, 12, 13, 18, 24, 36, 60, 84, 120, 240, 360>>
\* rising positions in Months
Rising(v) == LET S == {k \in 1..16 : (v \div Pow2[k % 13] + v * k) % 3 = 0}
                 RECURSIVE Go(_, _)
                 Go(k, acc) == IF k > 16 THEN acc ELSE Go(k + 1, IF k \in S THEN Append(acc, Months[k]) ELSE acc)
             IN Go(1, <<>>)
\* now and then two of them change places
Mixed(v, s) == IF v % 11 # 0 \/ Len(s) < 2 THEN s
               ELSE LET i == (v % (Len(s) - 1)) + 1 IN [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Drawn(v) ==
  LET op == Pick(v[1], Ops)
      a == (v[2] % DayPlaces) + 1
      b == (v[3] % DayPlaces) + 1
      to == (v[4] % DayPlaces) + 1
      tonum == (v[4] % NumPlaces) + 1
      cal == Pick(v[5], Calendars)
      conv == Pick(v[6], Conventions)
      two == (v[7] % 2) + 1
      other == (v[8] % 2) + 1
      num(x) == IF x % 3 = 0 THEN <<"in", ((x \div 3) % NumPlaces) + 1>> ELSE Literal(x \div 3)
  IN CASE op \in {"addD", "subD"} -> [op |-> op, a |-> a, n |-> IF v[5] % 3 = 0 THEN v[6] % 1500 ELSE v[6] % 40, to |-> to]
       [] op \in {"addM", "subM"} -> [op |-> op, a |-> a, n |-> IF v[5] % 3 = 0 THEN v[6] % 200 ELSE v[6] % 14, to |-> to]
       [] op = "addY" -> [op |-> op, a |-> a, n |-> (v[5] % 21) - 10, to |-> to]
       [] op \in {"weekend", "succ", "pred"} -> [op |-> op, a |-> a, to |-> to]
       [] op = "roll" -> [op |-> op, a |-> a, per |-> <<Pick(v[7], <<"addD", "addM", "addM", "addY", "month end", "third Wednesday", "weeks", "back">>), v[8] % 8>>, conv |-> conv, cal |-> cal, to |-> to]
       [] op = "eom" -> [op |-> op, a |-> a, cal |-> cal, to |-> to]
       [] op \in {"diff", "order"} -> [op |-> op, a |-> a, b |-> b]
       [] op = "same" -> [op |-> op, a |-> a]
       [] op = "open" -> [op |-> op, a |-> a, cal |-> cal]
       [] op = "count" -> [op |-> op, a |-> a, b |-> b, f |-> v[6] % 3, l |-> v[7] % 3, cal |-> cal]
       [] op = "frac" -> [op |-> op, dc |-> Pick(v[5], DCs), a |-> a, b |-> b, to |-> tonum]
       [] op = "curve" -> LET m == Mixed(v[8], Rising(v[9])) IN
            [op |-> op, a |-> a, dc |-> Pick(v[10], DCs), kind |-> Pick(v[11], Used), mats |-> m, conv |-> conv, cal |-> cal,
             ys |-> [k \in 1..(IF v[12] % 17 = 0 THEN v[13] % 5 ELSE Len(m)) |-> IF k = 2 THEN num(v[13]) ELSE Literal(v[14] + (v[15] % 5) * k)], to |-> two]
       [] op = "bond" ->
            [op |-> op, a |-> a, b |-> b, m |-> Pick(v[9], <<0, 0, 1, 3, 5, 6, 6, 7, 9, 12, 15, -40, -100>>), n |-> IF v[10] % 4 = 0 THEN ((v[10] \div 4) % 30) + 1 ELSE ((v[10] \div 4) % 6) + 1,
             rest |-> Pick(v[11], <<1, 3, 5, 6, 6, 7, 10, 12, 14, -9, -3, -120>>), conv |-> conv, cal |-> cal,
             rate |-> num(v[12]), face |-> IF v[13] % 3 = 0 THEN <<"in", (v[14] % NumPlaces) + 1>> ELSE <<"is", Pick(v[13], <<1, 100, 1000, 12345>>), v[14] % 3>>, to |-> two]
       [] op = "df" -> [op |-> op, k |-> two, a |-> a, b |-> b, to |-> tonum]
       [] op = "price" -> [op |-> op, j |-> other, k |-> two, a |-> a, to |-> tonum]
       [] op = "fit" ->
            LET n == (v[9] % 6) + 1
                far == v[10] % 40
                x(k) == IF k = 1 /\ v[5] % 2 = 0 THEN <<"in", (v[6] % NumPlaces) + 1>>
                        ELSE IF k = n /\ v[5] % 5 = 0 THEN <<"in", (v[11] % NumPlaces) + 1>>
                        ELSE <<"is", 5 * k - far + ((v[12] + k) % 4) + (IF v[2] % 3 = 0 THEN k * k * k ELSE 0), v[13] % 3>>
            IN [op |-> op, kind |-> Pick(v[3], Models), xs |-> Mixed(v[8], [k \in 1..n |-> x(k)]),
                ys |-> [k \in 1..n |-> num(v[14] + k * (v[15] % 7))], ss |-> [k \in 1..n |-> num(v[15] + k * (v[14] % 5))], to |-> two]
       [] op = "ask" -> [op |-> op, k |-> two, x |-> IF v[5] % 3 = 0 THEN <<"in", (v[6] % NumPlaces) + 1>> ELSE <<"is", (v[9] % 73) - 20, v[10] % 4>>, to |-> tonum]
DrawnHead(v) ==
  [prec |-> IF v[1] % 4 = 0 THEN "f32" ELSE "f64",
   days |-> [k \in 1..DayPlaces |-> LET y == 1990 + (v[2] % 50) + (IF k = 4 THEN 8 ELSE (v[2 + k] % 3))
                                        m == (v[6 + k] % 12) + 1
                                    IN IF v[10 + k] % 7 = 0 THEN <<4 * (y \div 4), 2, 29>> ELSE <<y, m, Min2(1 + (v[10 + k] % 41), DaysInMonth(y, m))>>],
   nums |-> <<Literal(v[15]), Literal(v[16]), <<"is", 100, 0>>>>]

Init == /\ script = IF Mode = "pairs" THEN Before ELSE <<>>
        /\ CASE Mode = "pairs" -> head \in Heads /\ g = <<0, 0, 0>>
             [] Mode = "days" -> head \in Starts /\ g = <<0, 0, 0>>
             [] Mode = "drawn" -> \E n \in 1..Long : LET d == Draws(Seed(n), 24) IN g = d[1] /\ head = DrawnHead(SubSeq(d[2], 9, 24))
        /\ w = Run(World(head), script, 1)
Next ==
  /\ ~Done
  /\ head' = head
  /\ CASE Mode = "pairs" -> g' = g /\ \E a \in Small : Enabled(w, a) /\ Do(a)
       [] Mode = "days" ->
            \/ Len(script) < Length /\ g' = g /\ \E a \in Steps : Enabled(w, a) /\ Do(a)
            \/ script # <<>> /\ g' = <<1, 0, 0>>
               /\ LET x == Asked(w, script, IF Len(script) = 1 THEN Uses \o Objects ELSE Uses, 1) IN w' = x[1] /\ script' = x[2]
       [] Mode = "drawn" ->
            LET d == Draws(g, 15)
                a == Drawn(d[2])
            IN g' = d[1] /\ IF Enabled(w, a) THEN Do(a) ELSE UNCHANGED <<w, script>>

(* --- output ------------------------------------------------------------------ *)
Told == Done => PrintT("SCRIPT " \o ToJson([prec |-> head.prec, days |-> head.days, nums |-> head.nums, acts |-> script]))

(* --- laws of every world ------------------------------------------------------ *)
DayIn == \A k \in 1..Len(w.days) : LET d == w.days[k] IN ValidYMD(d[1], d[2], d[3]) /\ FromSerial(Serial(d)) = d
\* between adjoining days everything adds up, whatever the objects came from
Adds == LET a == w.days[1]
            b == w.days[2]
            c == w.days[3]
            n(x, y) == CountOn("target+nyse", x, y, 2, 2)
        IN (Serial(a) - Serial(c) \in -800..800 /\ Serial(a) - Serial(b) \in -800..800) => n(a, b) + n(b, c) = n(a, c) /\ n(a, b) = -n(b, a)
Chained(k) == LET c == w.curves[k][1].c
                  a == w.days[1]
                  b == w.days[2]
                  d == w.days[3]
              IN FactorErrors(c, a, b) = {} /\ FactorErrors(c, b, d) = {} =>
                 /\ FactorErrors(c, a, d) = {}
                 /\ RNear(RMul(FactorOn(c, a, b), FactorOn(c, b, d)), FactorOn(c, a, d), RPow2(-60), R0)
Chains == \A k \in 1..2 : w.curves[k] # <<>> => Chained(k)
\* the value of a bond on a curve changes only by what has fallen due
Carries == \A k, j \in 1..2 : w.curves[k] # <<>> /\ w.bonds[j] # <<>> =>
  LET c == w.curves[k][1].c
      f == w.bonds[j][1]
      a == w.days[1]
      b == w.days[2]
  IN DayLt(a, b) /\ PriceErrors(c, f, a) = {} /\ PriceErrors(c, f, b) = {} /\ FactorErrors(c, a, b) = {} /\ Future(f, a) = Future(f, b)
     => RNear(RMul(FactorOn(c, a, b), PriceOf(c, f, b)), PriceOf(c, f, a), RPow2(-60), RPow2(-60))
\* an interpolator gives back what it was fitted with
Passes == \A k \in 1..2 : w.models[k] # <<>> => LET m == w.models[k][1].m IN
  \A i \in 1..Len(m.p) : RLe(RAbs(RSub(ValueOf(m, m.q, m.p[i].x), m.p[i].y)), RPow2(-300))
\* a bond's flows are in order and its last repays after every coupon
Flowing == \A j \in 1..2 : w.bonds[j] # <<>> => LET f == w.bonds[j][1] IN
  \A i \in 1..(Len(f) - 1) : (i < Len(f) - 1 => DayLt(f[i].due, f[i + 1].due)) /\ DayLe(f[i].due, f[i + 1].due) /\ DayLe(f[i].due, f[i].pay)
=============================================================================
