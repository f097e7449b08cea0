------------------------------ MODULE MCCivil -------------------------------
(***************************************************************************)
(* Design model: the successor machine of Civil walks a whole 400-year     *)
(* cycle (and the years around zero and both ends of the range); a counter *)
(* and a weekday run along.  The closed formulas describe the machine.     *)
(***************************************************************************)
EXTENDS Civil, FiniteSets
VARIABLES day, count, wd, yr
vars == <<day, count, wd, yr>>

Years == (1899..2300) \cup (-6..6) \cup {MinYear, MinYear + 1, MaxYear - 1, MaxYear}

\* the first day of each year is reached from the year before it (checked by Formulas)
Init == /\ yr \in Years
        /\ day = <<yr, 1, 1>>
        /\ count = SerialYMD(yr, 1, 1)
        /\ wd = WeekdayOfSerial(count)

Next == /\ day[1] = yr
        /\ Succ(day) # <<>>
        /\ day' = Succ(day)
        /\ count' = count + 1
        /\ wd' = IF wd = 7 THEN 1 ELSE wd + 1
        /\ yr' = yr

Formulas ==
  /\ count = Serial(day)
  /\ wd = Weekday(day)
  /\ FromSerial(count) = day
  /\ ValidYMD(day[1], day[2], day[3])
  /\ OfOrdinal(day[1], Ordinal(day[1], day[2], day[3])) = day

Inverse == /\ Succ(day) # <<>> => Pred(Succ(day)) = day /\ DayLt(day, Succ(day))
           /\ Pred(day) # <<>> => Succ(Pred(day)) = day

Landmarks == /\ Serial(<<1, 1, 1>>) = 1
             /\ Serial(<<1970, 1, 1>>) = 719163
             /\ Weekday(<<2024, 2, 29>>) = 4
             /\ AddDays(MaxDay, 1) = <<>> /\ AddDays(MinDay, -1) = <<>>
             /\ Serial(<<2401, 1, 1>>) - Serial(<<2001, 1, 1>>) = 146097
=============================================================================
