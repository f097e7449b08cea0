"""What check.py runs for each property: design models and recorded histories."""
PROPS = {
    "C01": {
        "design": {"quick": [("MCCivil", "MCCivil.cfg")]},
        "traces": [("C01", "TDates")],
        "rule": "every month 0..14 of 400 consecutive years, of the ends of the range and of sampled years; "
                "impossible triples up to the extremes of the argument types; all pairs of a pool of dates and pairs across year and century turns; "
                "random walks of next/previous day, against the specification's cursor",
    },
    "C02": {
        "design": {"quick": [("MCDates", "MCDates.cfg")]},
        "traces": [("C02", "TDates")],
        "rule": "from every month end/start of 17 years, the ends of the range and random dates: a sweep of small "
                "amounts, the amounts that just reach and just leave the range, extreme amounts; and random "
                "operation sequences on a moving cursor, through dates, periods and unadjusted rolling",
    },
    "C03": {
        "design": {"quick": [("MCBiz", "MCBiz.cfg")], "thorough": [("MCBiz", "MCBizDeep.cfg")]},
        "traces": [("C03", "TRoll")],
        "rule": "every pattern of open/closed days of a window around 21 unadjusted dates (month, February, year and "
                "range ends) under all five conventions; closures up to 27 years long; periods a user wrote (month ends, third Wednesdays, weeks, backwards, never-ending); every library calendar "
                "through the adapter; weekend rolling of every day of 220 years and the ends of the range",
    },
    "C04": {
        "design": {"quick": [("MCDayCount", "MCDayCount.cfg"), ("MCBigRat", "MCBigRat.cfg")]},
        "traces": [("C04", "TDayCount")],
        "rule": "pairs of dates: all months x interesting days of a leap and a common year in both orders, the ends "
                "of the range, random pairs; three conventions, two precisions, against exact rationals "
                "(relative error 2^-48 / 2^-20)",
    },
    "C05": {
        "design": {"quick": [("MCEaster", "MCEaster.cfg")]},
        "traces": [("C05", "TEaster")],
        "rule": "exhaustive: every year 1901-2199, both computations, every calendar and market of the library",
    },
    "C06": {
        "design": {"quick": [("MCEaster", "MCEaster.cfg")]},
        "traces": [("C06", "THolidays")],
        "rule": "exhaustive: every day of 1901-2199 of every European market, and of the market chosen by default; again day by day backwards, all calendars of the group in turns, by three concurrent users",
    },
    "C07": {
        "design": {"quick": [("MCEaster", "MCEaster.cfg")]},
        "traces": [("C07", "THolidays")],
        "rule": "exhaustive: every day of 1901-2199 of every American market, and of the market chosen by default; again day by day backwards, all calendars of the group in turns, by three concurrent users",
    },
    "C08": {
        "design": {"quick": [("MCHolidays", "MCHolidays.cfg")]},
        "traces": [("C08", "THolidays")],
        "rule": "exhaustive: every day of 1901-2199 of every Asia-Pacific market, and of the market chosen by default; again day by day backwards, all calendars of the group in turns, by three concurrent users",
    },
    "C09": {
        "design": {"quick": [("MCHolidays", "MCHolidays.cfg")]},
        "traces": [("C09", "THolidays")],
        "rule": "exhaustive: every day of 1901-2199 of every Middle Eastern and African market, and of the market chosen by default; again day by day backwards, all calendars of the group in turns, by three concurrent users",
    },
    "C10": {
        "design": {"quick": [("MCCivil", "MCCivil.cfg")]},
        "traces": [("C10", "TCalendar")],
        "rule": "every day of 1901-2199 of every calendar and "
                "market through both traits; joins of every calendar with sampled others, nested and typed joins; calendars of a user open on chosen days only (written for either crate), alone and joined",
    },
    "C11": {
        "design": {"quick": [("MCBiz", "MCBiz.cfg")], "thorough": [("MCBiz", "MCBizDeep.cfg")]},
        "traces": [("C11", "TCount")],
        "rule": "every open/closed pattern of a window x every pair of days x every flag combination; counters "
                "walking through every real calendar for years, asked in both directions; yearly counters through all of 1901-2199 on every 17th (thorough: third) calendar; spans of up to 1.5 million days (thorough: the whole range of dates) on calendars closed by weekday and intervals, counted by a formula the design model proves equal to counting",
    },
    "C12": {
        "design": {"quick": [("MCInterp", "MCInterp.cfg")], "thorough": [("MCInterp", "MCInterpDeep.cfg")]},
        "traces": [("C12", "TInterp"), ("C12L", "TLong")],
        "rule": "every order of up to five abscissae, one exchange at each place of longer data, refits with more or fewer points, up to 257 points, two interpolators in turns; arguments at, one ulp beside and far from the ends, knots, inner points, infinities; repeated, NaN and infinite data for panics; lives with up to 66 000 (131 500) points given by formulas, judged on their surroundings",
    },
    "C13": {
        "design": {"quick": [("MCInterp", "MCInterp.cfg")], "thorough": [("MCInterp", "MCInterpDeep.cfg")]},
        "traces": [("C13", "TInterp"), ("C13L", "TLong")],
        "rule": "data of 1 to 40 (thorough 64) points, up to 260 (thorough 520) for fewer of them, eleven spacings (even, nearly even, even but for one, uneven, geometric, 1:64, offset, tiny and huge steps, far from zero) x fourteen shapes (also nearly straight, nearly level, straight stretches), both precisions; every knot and the floats next to it, against the ordinate; lives with up to 66 000 (131 500) points given by formulas, judged on their surroundings",
    },
    "C14": {
        "design": {"quick": [("MCInterp", "MCInterp.cfg")], "thorough": [("MCInterp", "MCInterpDeep.cfg")]},
        "traces": [("C14", "TInterp"), ("C14L", "TLong")],
        "rule": "data of up to 40 (thorough 64) points and a few of up to 260 (520), eleven spacings x fourteen shapes, both precisions, refits with unrelated and related data, two interpolators alive and asked in turns; round arguments and arguments out of order; knots and seven arguments per interval, also close to the knots, against the straight line (exact rationals, rounding allowance 2^-43 / 2^-16 of the terms' size); lives with up to 66 000 (131 500) points given by formulas, judged on their surroundings",
    },
    "C15": {
        "design": {"quick": [("MCInterp", "MCInterp.cfg")], "thorough": [("MCInterp", "MCInterpDeep.cfg")]},
        "traces": [("C15", "TInterp"), ("C15L", "TLong")],
        "rule": "data of up to 40 (thorough 64) points and a few of up to 260 (520), eleven spacings x fourteen shapes, both precisions, refits with unrelated and related data, two interpolators alive and asked in turns; round arguments and arguments out of order; knots and seven arguments per interval, also close to the knots, against the natural spline solved in exact rationals (exact rationals, rounding allowance 2^-43 / 2^-16 of the terms' size); lives with up to 66 000 (131 500) points given by formulas, judged on their surroundings",
    },
    "C16": {
        "design": {"quick": [("MCInterp", "MCInterp.cfg")], "thorough": [("MCInterp", "MCInterpDeep.cfg")]},
        "traces": [("C16", "TInterp"), ("C16L", "TLong")],
        "rule": "data of up to 40 (thorough 64) points and a few of up to 260 (520), eleven spacings x fourteen shapes, both precisions, refits with unrelated and related data, two interpolators alive and asked in turns; round arguments and arguments out of order; knots and seven arguments per interval, also close to the knots, against the cubic with the stated slopes (exact rationals, rounding allowance 2^-43 / 2^-16 of the terms' size); lives with up to 66 000 (131 500) points given by formulas, judged on their surroundings",
    },
    "C17": {
        "design": {"quick": [("MCCurve", "MCCurve.cfg")]},
        "traces": [("C17", "TCurve")],
        "rule": "curves of 0 to 9 maturities (ordered, reversed, repeated) on probe interpolators and the library's, five day counts, both precisions; pairs, adjoining legs and whole journeys of days; the data the answering interpolator holds; quotes on anniversaries, in level stretches, below -40% and above 100%; curves of 270 to 1100 maturities",
    },
    "C18": {
        "design": {"quick": [("MCCurve", "MCCurve.cfg")]},
        "traces": [("C18", "TCurve")],
        "rule": "every pair of lengths 0-4 x every way to refuse a fit; ordered pairs in both orders of days around and far from the settlement date, on interpolators with ranges and day counts that refuse days, in shuffled sequences",
    },
    "C19": {
        "design": {"quick": [("MCBond", "MCBond.cfg")], "thorough": [("MCBond", "MCBondDeep.cfg")]},
        "traces": [("C19", "TBond"), ("C19L", "TLongBond")],
        "rule": "first coupons on month ends, leap days, weekends and random days x 1-41 coupons (a few of 120 to 301) x eight kinds of first and of last period; penultimate dates on, beside and between coupon dates; degenerate orders; both ends of the representable range; settlement days around each payment; bonds of 130 to 66 000 (131 100) coupons, one question at a time",
    },
    "C20": {
        "design": {"quick": [("MCBond", "MCBond.cfg")], "thorough": [("MCBond", "MCBondDeep.cfg")]},
        "traces": [("C20", "TBond"), ("C20L", "TLongBond")],
        "rule": "eight kinds of first x eight kinds of last period x first coupon days, rates (also zero and negative) and face values, both precisions, against exact rationals (relative error 2^-44 / 2^-17); bonds of 130 to 66 000 (131 100) coupons, one question at a time",
    },
    "C21": {
        "design": {"quick": [("MCBond", "MCBond.cfg")], "thorough": [("MCBond", "MCBondDeep.cfg")]},
        "traces": [("C21", "TBond"), ("C21L", "TLongBond")],
        "rule": "lives of bonds: shuffled settlement days around every kind of payment, before issue and after maturity, on curves that settle earlier, the same day or later, with a factor of its own for every day, some failing for late days; repeated requests; bonds of 130 to 66 000 (131 100) coupons, one question at a time",
    },
    "C22": {
        "design": {"quick": [("MCErrors", "MCErrors.cfg")]},
        "traces": [("C22", "TErrors")],
        "rule": "every kind and payload of error by hand through every conversion; day counts and interpolators that fail at chosen places below curve construction, discount factors and bond valuation; day counts in a number type of limited range",
    },
    "C23": {
        "design": {"quick": [("MCPrice", "MCPrice.cfg")], "thorough": [("MCPrice", "MCPriceDeep.cfg")]},
        "traces": [("C23", "TPrice")],
        "rule": "bonds of 1 to 40 coupons with eight kinds of first and last period, each on up to three curves of 3 to 30 quotes (also on coupon days and anniversaries, level, negative, above 100%; three day counts, linear and natural, both precisions), settling before, at and after the issue and ending before or after the maturity; settlement days around coupons, outside the curve, after maturity; price against exact rationals from terms and quotes alone",
    },
    "C24": {
        "design": {"quick": [("MCPure", "MCPure.cfg")], "thorough": [("MCPure", "MCPureDeep.cfg")]},
        "traces": [("C24", "TPure")],
        "rule": "19000 requests to calendars (also user-written and joined), dates, day counts, interpolators, curves and bonds that differ from one another in one thing; each answered by a process asked nothing else, then by one user in shuffled orders and in visits to a request, its neighbours and the request again, objects dropped and made anew in between (also in the very place in memory of another), then by four users at the same time",
    },
    "C25": {
        "technique": "TLA+ specification checked with TLC; its behaviours carried out on the real code and the outcomes replayed against it",
        "generate": {"quick": [("GenSystem", "GenSystemAll.cfg"), ("GenSystem", "GenSystemDays.cfg"), ("GenSystem", "GenSystem.cfg")],
                     "thorough": [("GenSystem", "GenSystemAll.cfg"), ("GenSystem", "GenSystemDays.cfg"), ("GenSystem", "GenSystemDaysDeep.cfg"), ("GenSystem", "GenSystemDeep.cfg")]},
        "traces": [("C25", "TSystem")],
        "rule": "behaviours of the specification carried out on the library with its own results as inputs: after a curve, a bond and a spline were made, every pair of 51 actions in two worlds; from eight days calendars treat specially every step or two (thorough: three from two of the days) of 30, the day come to used wherever a day can be; and behaviours of 40 (thorough 60) drawn actions on four days, three numbers, two curves, two bonds and two interpolators: date arithmetic, rolling (by the library's and a user's periods) and counting on ten calendars (market, user-written, joined), day counts, curves from rolled days, bonds from computed days and numbers, discount factors and prices, interpolators fitted with such numbers and asked at them",
    },
}
NOT_APPLICABLE = {}
