#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os
T="crates/qlab-time/src/"; C="third-parties/calendar/src/"; M="crates/qlab-math/src/"
Y="crates/qlab-termstructure/src/yield_curve.rs"; B="crates/qlab-instrument/src/bond.rs"; ER="crates/qlab-error/src/lib.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))

p("C01","Dates are exactly the valid days of the proleptic Gregorian calendar",
 "A date can be built from a year, month and day exactly when that day exists in the proleptic Gregorian calendar (leap years included), and it then reports back the same year, month, day and leap-year status and prints as ISO year-month-day. Its serial number counts days from 0001-01-01 (serial 1), so the next/previous day changes the serial by exactly one, the difference of two dates is the difference of their serials, and dates order (and are equal, and hash alike) as their serials do. At the first and last representable day there is no previous/next day and the answer is 'none'.",
 ["inputs"],"every (year, month, day) triple, including invalid ones, negative years, century years and the ends of the representable range; every pair of dates",
 "The tests build two dates, one invalid date and one serial number; leap-century rules, month ends, range ends and the agreement between the observers are never exercised.",
 [T+"date.rs"],[("construction and field observers","Date::from_ymd, year, month, day, leap_year, serial_date"),("day stepping and difference","Date::succ_opt, pred_opt, Sub, Ord, Display")],
 ["return values of the Date API"])
p("C02","Adding days, months and years to a date is exact and never panics",
 "Adding or subtracting n days moves a date by exactly n days; adding or subtracting n months (or adding n years) lands in exactly the n-th month (or the same month of the n-th year) after or before, on the same day of the month or, where that day does not exist, on the last day of that month. Whenever the exact result is outside the representable range, for any amount whatsoever, the answer is 'none': the operations never panic and never wrap. A period value added to a date gives the same result as the corresponding operation on the date.",
 ["inputs","histories"],"every start date, every amount (up to the largest the argument type holds, and negative years), every sequence of such operations",
 "Eight single examples; no month-end clamping other than 29 February and 31 December, no range ends, no large amounts, no negative years.",
 [T+"date.rs",T+"period/days.rs",T+"period/months.rs",T+"period/years.rs"],[("period arithmetic","Date::checked_add_days/_sub_days/_add_months/_sub_months/_add_years"),("period dispatch","Period::checked_add impls")],
 ["return values of the Date and Period API"])
p("C03","Business-day rolling obeys its convention on every calendar",
 "Rolling a date by a period under a calendar gives: the date plus the period when unadjusted; the first business day on or after it (following) or on or before it (preceding); and for the modified conventions the following (preceding) business day unless that lies in a different month than the unadjusted date, in which case the preceding (following) one. The result is a business day whenever an adjusting convention is used, and 'none' only when a date it needs does not exist. Rolling a date off the weekend gives the following Monday for a Saturday or Sunday and the date itself otherwise.",
 ["inputs","configurations"],"every start date, period, convention and calendar, including calendars with long closures and closures spanning month, year and February ends",
 "checked_roll has no test at all; weekend_roll is tested on two dates.",
 [T+"date.rs",T+"date_rolling.rs",T+"calendar.rs"],[("roll conventions","Date::checked_roll"),("weekend roll","Date::weekend_roll"),("calendar adapter","impl Calendar for C in calendar.rs")],
 ["return values of checked_roll and weekend_roll"])
p("C04","Day-count fractions equal their convention's exact year fraction",
 "Actual/360 and Actual/365 give the signed number of days between the two dates over 360 and over 365, so they are additive over intermediate dates and change sign when the dates are swapped. 30/360 gives (360*years + 30*months + days)/360 of the difference of the two dates with each day of month capped at 30, for every ordered pair of dates, and an invalid-input error when the first date is after the second. None of them panics, and single and double precision agree up to rounding.",
 ["inputs"],"every pair of dates, in either order, including month ends, leap days and a later month number in the earlier year",
 "One pair of dates per convention, all inside one year and compared to 1e-3.",
 [T+"day_count.rs",T+"day_count/act_360.rs",T+"day_count/act_365.rs",T+"day_count/thirty_360.rs"],[("day counts","DayCount::calculate_day_count_fraction impls")],
 ["return value of calculate_day_count_fraction"])
p("C05","Western and Orthodox Easter Mondays match the ecclesiastical computus",
 "For every year from 1901 to 2199 the day-of-year reported for Western (Gregorian) Easter Monday and for Orthodox (Julian-computus) Easter Monday is the one the ecclesiastical computus gives, and it is the same for every calendar.",
 ["inputs","configurations"],"every year 1901-2199, both computations, every calendar",
 "The calendar tests only reach the entries for 2023 (and a few more years); two tables of 299 typed-in numbers are otherwise unchecked.",
 [C+"lib.rs"],[("Easter tables","Calendar::easter_monday, Calendar::orthodox_easter_monday")],["return values of easter_monday / orthodox_easter_monday"])
cal="Each market's rules are evaluated for one calendar year (2023 for almost all) by a typed-in vector; the other 298 years, the year-dependent rules, moved holidays and one-off closures are not reached."
def calp(id,title,region,names,files):
  p(id,title,
   f"For every market of these {region} calendars ({names}), a day in 1901-2199 is a business day exactly when it is not a weekend day of that market and none of the market's published holiday rules (fixed dates with their weekend substitution, n-th-weekday rules, Easter-relative days, one-off closures, each limited to the years it is stated for) names it. Asking about any such day gives an answer, never a panic, and a calendar built without choosing a market uses its documented default market.",
   ["inputs","configurations"],"every day of 1901-2199, every market",cal,[C+f+".rs" for f in files],
   [("holiday predicates","Calendar::is_business_day of each calendar module"),("market selection","match self.market")],["return value of is_business_day"])
calp("C06","European market calendars follow their published holiday rules","European",
 "Austria, Czech Republic, Denmark, Finland, France, Germany, Hungary, Iceland, Italy, Norway, Poland, Romania, Russia, Slovakia, Sweden, Switzerland, TARGET, Ukraine, United Kingdom, and weekends-only",
 "austria czechrepublic denmark finland france germany hungary iceland italy norway poland romania russia slovakia sweden switzerland target ukraine unitedkingdom weekendsonly".split())
calp("C07","American market calendars follow their published holiday rules","American",
 "Argentina, Brazil, Canada, Chile, Mexico and the United States markets","argentina brazil canada chile mexico unitedstates".split())
calp("C08","Asia-Pacific market calendars follow their published holiday rules","Asia-Pacific",
 "Australia, China, Hong Kong, India, Indonesia, Japan, New Zealand, Singapore, South Korea, Taiwan, Thailand",
 "australia china hongkong india indonesia japan newzealand singapore southkorea taiwan thailand".split())
calp("C09","Middle Eastern and African calendars follow their holiday rules","Middle Eastern and African",
 "Botswana, Israel, South Africa, Turkey","botswana israel southafrica turkey".split())
p("C10","Calendar queries are mutually consistent, also through adapters and joins",
 "On every calendar, also one a user wrote by saying which days are business days, a day is a holiday exactly when it is not a business day; the date-library adapter gives the same two answers as the calendar it wraps; and a joint calendar is open exactly when both of its members are. The last day of a month is the last calendar day of that month, the end of a month is its last business day, and the day/weekday/month/year/day-of-year decomposition is that of the Gregorian calendar. Saturdays and Sundays are the weekend.",
 ["inputs","configurations"],"every calendar and market, pairs of calendars, every day 1901-2199",
 "No test touches is_holiday, the adapter, joint calendars, last_day_of_month or end_of_month.",
 [C+"lib.rs",C+"jointcalendar.rs",T+"calendar.rs"],[("derived queries","calendar::Calendar default methods"),("join","JointCalendar::is_business_day"),("adapter","impl qlab_time Calendar for C")],
 ["return values of the Calendar traits"])
p("C11","Counting business days between dates counts exactly the included ones",
 "For from <= to the count is the number of business days strictly between the two dates, plus the first date if it is included and a business day, plus the last date if it is included and a business day; by default the first date is included and the last is not. Equal dates count that day only when both ends are included, swapping the dates negates the count, and no call panics.",
 ["inputs","configurations"],"every pair of dates (in either order, equal, adjacent), every combination of inclusion flags, every calendar",
 "One pair whose two end dates are both weekend days, so the inclusion flags cannot show.",
 [C+"lib.rs"],[("business-day count","Calendar::business_days_between")],["return value of business_days_between"])
p("C12","Interpolators accept exactly valid data and exactly the data's range",
 "Fitting rejects too few points (fewer than three for the splines) and points whose abscissae are not in ascending order, with the corresponding error, and accepts everything else with strictly ascending abscissae. A fitted interpolator returns a value for every argument from the first to the last abscissa inclusive, an out-of-lower-bound error carrying the argument below it, and an out-of-upper-bound error carrying the argument above it; an interpolator holding no points reports insufficient points. No call panics.",
 ["inputs"],"every data set (any length, order, spacing) and every argument, for linear, natural cubic, Catmull-Rom and Hermite interpolation in both precisions",
 "Three successful evaluations in total; no error path is tested.",
 [M+"interpolation.rs",M+"interpolation/linear.rs",M+"interpolation/spline/natural_cubic.rs",M+"interpolation/spline/catmull_rom.rs",M+"interpolation/spline/hermite.rs"],
 [("segment lookup","find_index_at_left_boundary"),("fit validation","try_fit / try_new")],["Result of try_fit, try_new, try_value"])
p("C13","Every interpolator passes through its data",
 "At every abscissa of its data a fitted linear, natural cubic, Catmull-Rom or Hermite interpolator returns that point's ordinate, and it is continuous there: approaching the abscissa from either side approaches the ordinate. This holds whatever the spacing and the number of points, in both precisions.",
 ["inputs"],"every valid data set and every knot",
 "No test evaluates an interpolator at a knot.",
 [M+"interpolation.rs",M+"interpolation/linear.rs",M+"interpolation/spline/natural_cubic.rs",M+"interpolation/spline/catmull_rom.rs",M+"interpolation/spline/hermite.rs"],
 [("segment formulas","try_value of each interpolator")],["value of try_value at and near knots"])
p("C14","Linear interpolation is the straight line between neighbouring points",
 "Between two neighbouring data points linear interpolation returns the value of the straight line through them, so it reproduces affine data everywhere and never leaves the range of the two ordinates.",
 ["inputs"],"every data set, every argument in range, both precisions","One documentation example.",
 [M+"interpolation/linear.rs",M+"interpolation.rs"],[("linear formula","Linear::try_value")],["value of Linear::try_value"])
p("C15","The natural cubic spline is the twice-differentiable natural spline",
 "For any three or more points the natural cubic interpolator is the unique curve through them that is a cubic on each interval, has continuous first and second derivatives at the inner points and zero second derivative at both ends. In particular it reproduces data lying on a straight line exactly.",
 ["inputs"],"every number of points, spacing and ordinates; every argument in range; both precisions",
 "One three-point data set lying on a line, compared with a one-sided inequality that any too-large value passes.",
 [M+"interpolation/spline/natural_cubic.rs",M+"linear_algebra/tridiagonal_matrix.rs"],[("second-derivative system","NaturalCubic::try_fit"),("tridiagonal solve","TridiagonalMatrix::solve, Mul")],["value of NaturalCubic::try_value"])
p("C16","Hermite and Catmull-Rom splines are the cubics with the stated slopes",
 "On each interval the Hermite interpolator is the cubic that has the given ordinates and the given slopes at both ends. The Catmull-Rom interpolator is the Hermite cubic whose slope at an inner point is the slope of the chord between that point's two neighbours and whose slope at an end point is that of the end chord, so it has a continuous first derivative and reproduces data lying on a straight line.",
 ["inputs"],"every number of points, spacing, ordinates and slopes; every argument in range; both precisions",
 "Hermite has no test; Catmull-Rom has one evaluation on equally spaced points.",
 [M+"interpolation/spline/hermite.rs",M+"interpolation/spline/catmull_rom.rs"],[("Hermite basis","Hermite::try_value"),("finite-difference slopes","CatmullRom::try_value")],["value of try_value"])
p("C17","Discount factors are the exponential of the interpolated yields",
 "For dates s <= d1 <= d2 (s the curve's settlement date) the discount factor from d1 to d2 is exp(t1*y(t1) - t2*y(t2)), with t the curve's day-count fraction from s and y the yield its interpolator gives at t; the interpolator is fitted once, to the pairs (day-count fraction of maturity, spot yield) in the given order. Hence discount factors are positive, equal one over an empty period, and multiply over adjoining periods.",
 ["inputs","configurations"],"every settlement date, set of maturities and yields, pair of dates, day-count convention and interpolator (including user-written ones)",
 "One test with an interpolator that ignores its input and always answers zero.",
 [Y],[("curve fit","YieldCurve::new"),("discounting","YieldCurve::discount_factor")],["value of discount_factor; data handed to the interpolator"])
p("C18","Curve construction and discounting reject exactly the invalid requests",
 "Building a curve fails with an invalid-input error exactly when the numbers of maturities and yields differ (or the day count rejects a maturity), and with an interpolation error exactly when the interpolator rejects the fit. Asking for a discount factor fails with an invalid-input error exactly when the second date precedes the first or either precedes the settlement date, and with an interpolation error exactly when the interpolator rejects a needed time; otherwise it succeeds. Every failure is an error value of that category with its documented message, never a panic.",
 ["inputs","fault_sequences"],"every combination of lengths, date orders and interpolator failures",
 "No failing construction or query is tested, nor any error conversion.",
 [Y,ER],[("validation","YieldCurve::new, discount_factor"),("error conversion","From<InterpolationError> for QLabError")],["Result values and error messages"])
p("C19","A bond's coupons fall on the regular schedule and pay on weekdays",
 "A bond has one regular cash flow due on each date first coupon + k coupon periods (each counted from the first coupon date, clamped to the month end, never drifting) not after the penultimate coupon date, in order, plus one final flow due at maturity, and no others. A regular flow is paid on its due date moved from a weekend to the following Monday; the final flow is paid on the maturity date. When the schedule has no regular coupon or needs an unrepresentable date, no bond is created and nothing panics.",
 ["inputs"],"every issue, first coupon, penultimate coupon and maturity date, including month ends, leap days and degenerate orders",
 "One 20-year bond is valued and the number printed, not asserted.",
 [B,T+"date.rs"],[("schedule generation","Bond::new"),("payment date","Date::weekend_roll")],["dates at which discounted_value asks the yield curve for discount factors, and which settlement dates drop a flow"])
p("C20","Coupon, stub and redemption amounts follow the accrual rules",
 "A regular coupon is rate*face/frequency. The first coupon is that times (first coupon - issue)/(one period before it) when issued less than a period before it, and that plus the same fraction of the preceding period for the extra days when issued earlier; the final flow is the face value plus the coupon prorated likewise for a short or long last period. Amounts are proportional to the face value and the coupon part to the rate, in both precisions.",
 ["inputs"],"every date combination (short, regular and long first and last periods), rate and face value",
 "One bond with a one-day-long first stub; its value is printed, not asserted.",
 [B],[("first stub","Bond::first_cash_flow"),("final stub","Bond::final_cash_flow")],["amount isolated through discounted_value on probe curves"])
p("C21","A bond's value is the discounted sum of exactly its future cash flows",
 "The value at a settlement date is the sum, over the cash flows due strictly after it, of the amount times the curve's discount factor from the settlement date to the flow's payment date; flows due on or before it contribute nothing, and after maturity the value is zero. An error from the curve for any needed flow is returned unchanged; valuing changes nothing, so repeating it gives the same answer, and the bond keeps its identifier.",
 ["inputs","histories","fault_sequences"],"every bond, curve, settlement date and sequence of valuations",
 "One valuation whose result is printed, not asserted.",
 [B,Y],[("valuation","Bond::discounted_value")],["value or error of discounted_value, bond_id"])
p("C22","Errors keep their category, data and message across layers",
 "Every interpolation error, whatever its kind, surfaces from the curve and bond layers as the interpolation-failed compute error, and invalid requests as the invalid-input compute error; an error of a day count reaches the caller unchanged, and a day count over a number type that cannot hold a needed number answers the cast error with that number. Wrapping adds nothing to the message. Each error kind displays its documented text with its data, and an error string behaves as exactly the text it was made from.",
 ["inputs","fault_sequences"],"every error kind, payload and layer at which it arises",
 "No test constructs or displays an error.",
 [ER,Y,B,T+"day_count/thirty_360.rs",T+"day_count/act_360.rs",T+"day_count/act_365.rs"],[("error types","QLabError, ComputeError, InterpolationError, ErrString")],["error variants and Display output"])
p("C23","A bond on a curve built from quotes has the price its terms imply",
 "For a curve built from quoted maturities and yields with a day count and the linear or natural cubic interpolator of the library, and a fixed-coupon bond, the value at a settlement date is the sum over the flows due strictly after it of the amount times exp(t0*y(t0) - t1*y(t1)), where t0 and t1 are the day-count fractions from the curve's settlement date to the valuation and the payment date and y interpolates the quotes: it follows from the terms and the quotes alone. Requests that need a time outside the quoted range, or a date before the curve's settlement date, end in the corresponding error and never in a number.",
 ["inputs","configurations","histories"],"every set of quotes, day count, interpolator, bond and settlement date, in both precisions",
 "The end-to-end test prints a price and asserts nothing.",
 [B,Y,M+"interpolation/linear.rs",M+"interpolation/spline/natural_cubic.rs",T+"date.rs"],[("curve construction","YieldCurve::new"),("valuation","Bond::discounted_value")],["value or error of discounted_value"])
p("C24","Answers depend on the request alone, never on the past or on other users",
 "The library answers a request (an operation, the values given to it and what the objects given to it were made from) in one way: whatever was asked before, in whatever order, whichever objects were made, used and dropped in between, and whether or not other threads use objects of their own at the same time, the same request has the same answer, value for value and error for error, as in a process that asks nothing else. This covers calendars and joins (also over user-written calendars of one type that differ in their data), dates, rolling, day counts, interpolators, yield curves and bonds.",
 ["histories","schedules"],"every sequence and interleaving of requests, with objects that come and go",
 "Every test asks each object a few questions once, in one order.",
 [T+"date.rs",T+"calendar.rs","third-parties/calendar/src/lib.rs","third-parties/calendar/src/jointcalendar.rs",M+"interpolation.rs",Y,B],[("immutable values","Date, calendars, Linear, NaturalCubic, Hermite, CatmullRom, YieldCurve, Bond")],["answers of every public operation"])
p("C25","Results go on as inputs and mean what they denote",
 "A day, number, curve or bond that an operation returned may be given to any other operation and stands for exactly the value it denotes: a day that came out of adding periods, rolling, weekend adjustment, an end-of-month query or a step to the next or previous day behaves in every later operation (counting, ordering, day counts, discounting, valuation, as a settlement, maturity, issue or coupon date) like that calendar day reached in any other way, and a year fraction, discount factor or price behaves as the number it is when it becomes a yield, a coupon rate or a face value. A program of any length over days, calendars (market, user-written and joined), day counts, curves and bonds therefore gives, step by step, the results that the meanings of its operations compose to, and refuses exactly the steps they refuse.",
 ["histories","inputs"],"every sequence of operations fed with one another's results",
 "No test passes the result of one component to another, but for one bond on one curve.",
 [T+"date.rs",T+"calendar.rs",T+"period/months.rs","third-parties/calendar/src/lib.rs",Y,B],[("composition","every public operation that takes what another returns")],["answers of every public operation, step by step"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
