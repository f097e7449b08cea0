----------------------------- MODULE THolidays ------------------------------
(***************************************************************************)
(* Conformance of the market calendars (C06-C09).  An event is a year of a *)
(* market: the days Monday to Friday on which it is closed, the Saturdays  *)
(* and Sundays on which it is open, the days on which there was no answer  *)
(* and those on which another user, asking in another order, got another.  *)
(***************************************************************************)
EXTENDS Replay, HolidaysEurope, HolidaysAmericas, HolidaysAsia, HolidaysMiddleEast

TInit(hist) == 0

SetOf(s) == {s[k] : k \in 1..Len(s)}

Closed(c, cal, market) ==
  IF cal \in European THEN ClosedEurope(c, cal, market)
  ELSE IF cal \in American THEN ClosedAmericas(c, cal, market)
  ELSE IF cal \in AsiaPacific THEN ClosedAsia(c, cal, market)
  ELSE ClosedMiddleEast(c, cal, market)

OpenWeekends(c, cal, market) ==
  CASE cal = "Israel" -> {o \in Weekend(c) : WD(c, o) = Sun}
    [] cal \in European -> OpenWeekendsEurope(c, cal, market)
    [] OTHER -> {}

TApply(hist, st, e) ==
  LET c == Year(e.y)
      openw == OpenWeekends(c, hist.cal, hist.market)
      \* a decreed working weekend is open whatever else the rules say
      closed == Closed(c, hist.cal, hist.market)
      x == [hol |-> (closed \cap 1..c.len) \ Weekend(c),
            wk |-> IF hist.cal = "Israel" THEN openw \ closed ELSE openw]
      hol == SetOf(e.hol)
      wk == SetOf(e.wk)
      asBuilt == /\ hist.cal = "France" /\ hist.market # "Exchange"
                 /\ hol = (FranceSettlementAsBuilt(c) \cap 1..c.len) \ Weekend(c)
      dates(S) == {LET z == OfOrdinal(e.y, o) IN z[2] * 100 + z[3] : o \in S}
      matches == hol = x.hol
      holOk == IF matches THEN TRUE
               ELSE asBuilt /\ (IF st = 0 THEN PrintT(<<"KNOWN", "france-movable-feasts">>) ELSE TRUE)
  IN [ok |-> e.panic = <<>> /\ e.vary = <<>> /\ holOk /\ wk = x.wk,
      st |-> IF matches THEN st ELSE 1,
      why |-> <<hist.cal, hist.market, e.y, "mmdd: closed, should be open", dates(hol \ x.hol),
                "open, should be closed", dates(x.hol \ hol),
                "weekend days open, should be closed", dates(wk \ x.wk), "closed, should be open", dates(x.wk \ wk),
                "panics", e.panic, "answers vary", e.vary>>]
=============================================================================
