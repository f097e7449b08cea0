use crate::util::{guard, quick, Out, Rng, J};
use crate::{arr, obj};
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::period::{days::Days, months::Months, years::Years, Period};

pub const MIN_YEAR: i32 = -262_143;
pub const MAX_YEAR: i32 = 262_142;

pub fn ymd(d: Date) -> J {
    arr![d.year(), d.month(), d.day()]
}
/// [] none, [y,m,d] some, [-1] the call panicked
pub fn opt(r: Option<Option<Date>>) -> J {
    match r {
        None => arr![-1],
        Some(None) => J::A(vec![]),
        Some(Some(d)) => guard(|| ymd(d)).unwrap_or(arr![-1]),
    }
}
pub fn mk(y: i32, m: u32, d: u32) -> Date {
    Date::from_ymd(y, m, d).expect("valid date")
}
pub fn random_date(r: &mut Rng, lo: i32, hi: i32) -> Date {
    loop {
        let y = r.range(lo.into(), hi.into()) as i32;
        let m = r.range(1, 12) as u32;
        // month ends are the interesting days
        let d = if r.below(3) == 0 { r.range(27, 31) } else { r.range(1, 31) } as u32;
        if let Some(x) = Date::from_ymd(y, m, d) {
            return x;
        }
    }
}

fn day_row(y: i32, m: u32, d: u32) -> Option<J> {
    let made = guard(|| Date::from_ymd(y, m, d));
    let x = match made {
        Some(None) => return None,
        None => return Some(obj! {"d": d, "s": 0, "g": arr![-1], "l": false, "n": arr![-1], "p": arr![-1], "t": "panic"}),
        Some(Some(x)) => x,
    };
    let s = guard(|| x.serial_date()).unwrap_or(i32::MIN + 1);
    Some(obj! {
        "d": d,
        "s": s,
        "g": guard(|| ymd(x)).unwrap_or(arr![-1]),
        "l": guard(|| x.leap_year()).unwrap_or(false),
        "n": opt(guard(|| x.succ_opt())),
        "p": opt(guard(|| x.pred_opt())),
        "t": guard(|| format!("{x}")).unwrap_or_else(|| "panic".into()),
    })
}

fn month_event(y: i32, m: u32) -> J {
    let rows: Vec<J> = (0..=35).filter_map(|d| day_row(y, m, d)).collect();
    obj! {"op": "month", "y": y, "m": m, "rows": J::A(rows)}
}

fn pair_event(a: Date, b: Date) -> J {
    // the same day, come to by another way
    let b = guard(|| b.pred_opt().and_then(Date::succ_opt)).flatten().unwrap_or(b);
    let diff = guard(|| a - b).unwrap_or(i64::from(i32::MAX));
    let diff = diff.clamp(i64::from(i32::MIN) + 1, i64::from(i32::MAX));
    let c = match a.cmp(&b) {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    };
    let pc = a.partial_cmp(&b) == Some(a.cmp(&b));
    obj! {"op": "pair", "a": ymd(a), "b": ymd(b), "diff": diff, "cmp": c,
          "ops": arr![a == b, a < b, a <= b, a > b, a >= b, pc],
          "hash": hash(a) == hash(b)}
}

pub fn hash(d: Date) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    d.hash(&mut h);
    h.finish()
}

pub fn c01(out: &mut Out) {
    let mut r = Rng::new("C01");
    // every month of a whole Gregorian cycle, the ends of the range, and sampled years
    let mut years: Vec<i32> = (1800..2200).collect();
    years.extend(-5..=5);
    years.extend(MIN_YEAR - 3..MIN_YEAR + 5);
    years.extend(MAX_YEAR - 5..=MAX_YEAR + 3);
    for c in [-262_100, -10_000, -9999, -1000, -400, -300, -101, -100, -99, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 9996, 9999, 10_000, 99_999, 100_000, 262_100] {
        years.push(c);
    }
    let extra = if quick() { 130 } else { 2000 };
    for _ in 0..extra {
        years.push(r.range(MIN_YEAR.into(), MAX_YEAR.into()) as i32);
        years.push((r.range(-2621, 2621) * 100) as i32);
        years.push((r.range(-262, 262) * 1000) as i32);
    }
    years.extend((-65..=65).map(|k| k * 4000));
    years.sort_unstable();
    years.dedup();
    for y in years {
        let ev: Vec<J> = (0..=14).map(|m| month_event(y, m)).collect();
        out.history(obj! {"from": arr![1, 1, 1]}, ev);
    }
    // every representable year, coarsely
    let mut y0 = MIN_YEAR;
    while y0 <= MAX_YEAR {
        let ys: Vec<i32> = (y0..y0 + 400).filter(|y| *y <= MAX_YEAR).collect();
        let jan: Vec<Option<Date>> = ys.iter().map(|&y| guard(|| Date::from_ymd(y, 1, 1)).flatten()).collect();
        let s: Vec<i32> = jan.iter().map(|d| d.map_or(i32::MIN + 1, |d| d.serial_date())).collect();
        let l: Vec<bool> = jan.iter().map(|d| d.is_some_and(|d| d.leap_year())).collect();
        let f: Vec<bool> = ys.iter().map(|&y| guard(|| Date::from_ymd(y, 2, 29)).flatten().is_some()).collect();
        let e: Vec<i32> = ys.iter().map(|&y| guard(|| Date::from_ymd(y, 12, 31)).flatten().map_or(i32::MIN + 1, |d| d.serial_date())).collect();
        out.history(obj! {"from": arr![1, 1, 1]}, vec![obj! {"op": "years", "y": y0, "s": s, "l": l, "f": f, "e": e}]);
        y0 += 400;
    }
    // triples that name no day at all, with parts beyond 32 bits of the model
    let ys = [i32::MIN, i32::MIN + 1, -1_000_000, MIN_YEAR - 1, MIN_YEAR, -1, 0, 1, 4, 1900, 2000, 2023, 2024, MAX_YEAR, MAX_YEAR + 1, 1_000_000, i32::MAX - 1, i32::MAX];
    let ms = [0, 1, 2, 12, 13, 14, 16, 18, 255, 256, 257, 268, 65_536 + 2, 1 << 28, u32::MAX, u32::MAX - 1];
    let ds = [0, 1, 28, 29, 30, 31, 32, 33, 61, 255, 256 + 1, 65_536 + 1, 1 << 27, u32::MAX, u32::MAX - 1];
    for y in ys {
        let mut ev = vec![];
        for m in ms {
            for d in ds {
                let big = y.unsigned_abs() > 1_000_000_000 || m > 1_000_000_000 || d > 1_000_000_000;
                let res = opt(guard(|| Date::from_ymd(y, m, d)));
                let args = format!("{y}/{m}/{d}");
                let f = |v: i64| if big { 0 } else { v };
                ev.push(obj! {"op": "make", "big": big, "args": args, "y": f(y.into()), "m": f(m.into()), "d": f(d.into()), "r": res});
            }
        }
        out.history(obj! {"from": arr![1, 1, 1]}, ev);
    }
    for _ in 0..if quick() { 8 } else { 200 } {
        let mut ev = vec![];
        for _ in 0..250 {
            let (y, m, d) = (r.range(-300_000, 300_000) as i32, r.range(0, 13) as u32, r.range(0, 32) as u32);
            ev.push(obj! {"op": "make", "big": false, "args": "", "y": y, "m": m, "d": d, "r": opt(guard(|| Date::from_ymd(y, m, d)))});
        }
        out.history(obj! {"from": arr![1, 1, 1]}, ev);
    }
    // pairs
    let mut pool: Vec<Date> = vec![mk(MIN_YEAR, 1, 1), mk(MIN_YEAR, 1, 2), mk(MAX_YEAR, 12, 31), mk(MAX_YEAR, 12, 30), mk(1, 1, 1), mk(0, 12, 31), mk(1970, 1, 1)];
    for _ in 0..40 {
        pool.push(random_date(&mut r, MIN_YEAR, MAX_YEAR));
        pool.push(random_date(&mut r, -300, 300));
        let x = random_date(&mut r, 1890, 2110);
        pool.push(x);
        pool.push(x.succ_opt().unwrap());
        pool.push(mk(x.year(), x.month(), 1));
        pool.push(mk(x.year(), 1, 1));
        pool.push(mk(x.year(), 12, 31));
    }
    let take = if quick() { 120 } else { pool.len() };
    for &a in pool.iter().take(take) {
        let ev: Vec<J> = pool.iter().take(take).map(|&b| pair_event(a, b)).collect();
        out.history(obj! {"from": ymd(a)}, ev);
    }
    // from the end of a year to the start and the end of those that follow it
    let turns: Vec<i32> = if quick() { (1595..=1605).chain(1695..=1705).chain(1795..=1805).chain(1895..=2105).chain([MIN_YEAR, -101, -100, -5, -4, -1, 0, 1, 4, 100, MAX_YEAR - 5]).collect() } else { (-500..=3000).chain([MIN_YEAR, MAX_YEAR - 5]).collect() };
    for y in turns {
        let mut ev = vec![];
        for k in [0, 1, 2, 4, 5] {
            for (m, d) in [(1, 1), (2, 28), (3, 1), (12, 31)] {
                for (m2, d2) in [(1, 1), (2, 28), (3, 1), (12, 31)] {
                    let (a, b) = (mk(y, m, d), mk(y + k, m2, d2));
                    ev.push(if (d + d2 + m) % 2 == 0 { pair_event(a, b) } else { pair_event(b, a) });
                }
            }
        }
        out.history(obj! {"from": arr![1, 1, 1]}, ev);
    }
    // walks: the cursor of the specification moves along
    let mut starts = vec![
        mk(MIN_YEAR, 1, 3),
        mk(MIN_YEAR, 12, 30),
        mk(MAX_YEAR, 12, 28),
        mk(MAX_YEAR, 1, 2),
        mk(0, 12, 30),
        mk(1, 1, 2),
        mk(-1, 2, 27),
        mk(1900, 2, 26),
        mk(2000, 2, 26),
        mk(2024, 2, 26),
        mk(2100, 2, 26),
        mk(9999, 12, 29),
    ];
    for _ in 0..if quick() { 60 } else { 600 } {
        starts.push(random_date(&mut r, MIN_YEAR, MAX_YEAR));
        starts.push(random_date(&mut r, -500, 3000));
    }
    for s in starts {
        let mut cur = s;
        let mut ev = vec![];
        let bias = r.below(3); // mostly forward, mostly backward, or both
        for _ in 0..60 {
            let fwd = match bias {
                0 => r.below(8) != 0,
                1 => r.below(8) == 0,
                _ => r.coin(),
            };
            let res = guard(|| if fwd { cur.succ_opt() } else { cur.pred_opt() });
            let before = cur;
            if let Some(Some(n)) = res {
                cur = n;
            }
            ev.push(obj! {"op": if fwd { "succ" } else { "pred" }, "r": opt(res), "diff": cur - before, "s": cur.serial_date()});
        }
        out.history(obj! {"from": ymd(s)}, ev);
    }
}

enum Amt {
    D(u64),
    M(u32),
    Y(i32),
    U(Own),
}

/// Periods a user wrote.
#[derive(Clone, Copy)]
pub enum Own {
    MonthEnd(u32),
    ThirdWednesday(u32),
    Weeks(u32),
    Back(u32),
    Never,
    Forever,
}
impl Period for Own {
    fn checked_add(self, date: Date) -> Option<Date> {
        match self {
            Self::MonthEnd(n) => {
                let x = date.checked_add_months(Months::new(n))?;
                (28..=31).rev().find_map(|d| Date::from_ymd(x.year(), x.month(), d))
            }
            Self::ThirdWednesday(n) => {
                let x = date.checked_add_months(Months::new(n))?;
                // serial 1 is a Monday
                (15..=21).filter_map(|d| Date::from_ymd(x.year(), x.month(), d)).find(|x| x.serial_date().rem_euclid(7) == 3)
            }
            Self::Weeks(n) => date.checked_add_days(Days::new(7 * u64::from(n))),
            Self::Back(n) => date.checked_sub_days(Days::new(n.into())),
            Self::Never => None,
            Self::Forever => Some(mk(MAX_YEAR, 12, 31)),
        }
    }
}

/// Where a period that starts on a day ends, asked of the date and of the period.
fn end(start: Date, per: &Amt) -> Option<Date> {
    match *per {
        Amt::D(n) => start.checked_add_days(Days::new(n)),
        Amt::M(n) => start.checked_add_months(Months::new(n)),
        Amt::Y(n) => start.checked_add_years(Years::new(n)),
        Amt::U(own) => own.checked_add(start),
    }
}

/// One operation on a date, through one of the public ways to ask for it.
fn op_event(cur: Date, amt: &Amt, sub: bool, via: u64, mv: bool) -> (J, Option<Date>) {
    let cal = calendar::weekendsonly::WeekendsOnly;
    let un = DateRolling::Unadjusted;
    let (name, via_name, n, big, r): (&str, &str, i64, String, Option<Option<Date>>) = match *amt {
        Amt::D(n) => {
            let big = if n > 1_000_000_000 { n.to_string() } else { String::new() };
            let k = n.min(1_000_000_000) as i64;
            let p = Days::new(n);
            if sub {
                ("subD", "date", k, big, guard(|| cur.checked_sub_days(p)))
            } else {
                match via {
                    0 => ("addD", "date", k, big, guard(|| cur.checked_add_days(p))),
                    1 => ("addD", "period", k, big, guard(|| p.checked_add(cur))),
                    _ => ("addD", "roll", k, big, guard(|| cur.checked_roll(p, &cal, un))),
                }
            }
        }
        Amt::M(n) => {
            let big = if n > 1_000_000_000 { n.to_string() } else { String::new() };
            let k = n.min(1_000_000_000).into();
            let p = Months::new(n);
            if sub {
                ("subM", "date", k, big, guard(|| cur.checked_sub_months(p)))
            } else {
                match via {
                    0 => ("addM", "date", k, big, guard(|| cur.checked_add_months(p))),
                    1 => ("addM", "period", k, big, guard(|| p.checked_add(cur))),
                    _ => ("addM", "roll", k, big, guard(|| cur.checked_roll(p, &cal, un))),
                }
            }
        }
        Amt::U(_) => unreachable!("no arithmetic of a date"),
        Amt::Y(n) => {
            let big = if n.unsigned_abs() > 1_000_000_000 { n.to_string() } else { String::new() };
            let k = n.clamp(-1_000_000_000, 1_000_000_000).into();
            let p = Years::new(n);
            match via {
                0 => ("addY", "date", k, big, guard(|| cur.checked_add_years(p))),
                1 => ("addY", "period", k, big, guard(|| p.checked_add(cur))),
                _ => ("addY", "roll", k, big, guard(|| cur.checked_roll(p, &cal, un))),
            }
        }
    };
    let ev = obj! {"op": name, "via": via_name, "n": n, "big": big, "mv": mv, "r": opt(r)};
    (ev, r.flatten())
}

pub fn c02(out: &mut Out) {
    let mut r = Rng::new("C02");
    let mut starts: Vec<Date> = vec![];
    // every month end and first of four consecutive years, both kinds of century year, and the ends
    for y in [1899, 1900, 1901, 1999, 2000, 2001, 2003, 2004, 2023, 2024, 2100, 0, -1, -4, -100, 4, 9999] {
        for m in 1..=12 {
            for d in [1, 15, 28, 29, 30, 31] {
                if let Some(x) = Date::from_ymd(y, m, d) {
                    starts.push(x);
                }
            }
        }
    }
    for (m, d) in [(1, 1), (1, 2), (1, 31), (2, 28), (2, 29), (3, 31), (6, 30), (11, 30), (12, 1), (12, 30), (12, 31)] {
        for y in [MIN_YEAR, MIN_YEAR + 1, MIN_YEAR + 3, MIN_YEAR + 4, MAX_YEAR - 1, MAX_YEAR - 2, MAX_YEAR] {
            if let Some(x) = Date::from_ymd(y, m, d) {
                starts.push(x);
            }
        }
    }
    for _ in 0..if quick() { 200 } else { 3000 } {
        starts.push(random_date(&mut r, MIN_YEAR, MAX_YEAR));
        starts.push(random_date(&mut r, 1600, 2400));
    }
    let big_d: [u64; 16] = [100_000_000, 191_491_528, 191_491_529, 200_000_000, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 33) + 365, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let big_m: [u32; 14] = [3_000_000, 6_291_431, 6_291_432, 10_000_000, 1 << 28, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 31) + 12, u32::MAX - 12, u32::MAX - 1, u32::MAX, 4_000_000_000];
    let big_y: [i32; 14] = [262_142, -262_143, 524_285, -524_285, 600_000, 1 << 24, 1 << 28, i32::MAX - 2024, i32::MAX - 2000, i32::MAX - 1, i32::MAX, i32::MIN, i32::MIN + 1, -1 << 28];
    for (k, s) in starts.iter().enumerate() {
        let mut ev = vec![];
        // from a fixed cursor: a sweep of small amounts
        for n in 0..=25u32 {
            ev.push(op_event(*s, &Amt::M(n), false, u64::from(n) % 3, false).0);
            ev.push(op_event(*s, &Amt::M(n), true, 0, false).0);
        }
        for n in -9..=9 {
            ev.push(op_event(*s, &Amt::Y(n), false, (n + 9) as u64 % 3, false).0);
        }
        for n in [0u64, 1, 2, 27, 28, 29, 30, 31, 58, 59, 60, 365, 366, 1461, 36_524, 36_525, 146_096, 146_097] {
            ev.push(op_event(*s, &Amt::D(n), false, n % 3, false).0);
            ev.push(op_event(*s, &Amt::D(n), true, 0, false).0);
        }
        // amounts that reach exactly to and just past the ends of the range, and extremes
        let to_max = (mk(MAX_YEAR, 12, 31) - *s) as u64;
        let to_min = (*s - mk(MIN_YEAR, 1, 1)) as u64;
        for t in [to_max, to_max + 1, to_max.saturating_sub(1), to_min, to_min + 1] {
            ev.push(op_event(*s, &Amt::D(t), false, t % 3, false).0);
            ev.push(op_event(*s, &Amt::D(t), true, 0, false).0);
        }
        let mi = i64::from(s.year()) * 12 + i64::from(s.month()) - 1;
        let mmax = (i64::from(MAX_YEAR) * 12 + 11 - mi) as u32;
        let mmin = (mi - i64::from(MIN_YEAR) * 12) as u32;
        for t in [mmax, mmax + 1, mmax.saturating_sub(1), mmin, mmin + 1, mmin.saturating_sub(1)] {
            ev.push(op_event(*s, &Amt::M(t), false, u64::from(t) % 3, false).0);
            ev.push(op_event(*s, &Amt::M(t), true, 0, false).0);
        }
        for t in [MAX_YEAR - s.year(), MAX_YEAR - s.year() + 1, MIN_YEAR - s.year(), MIN_YEAR - s.year() - 1] {
            ev.push(op_event(*s, &Amt::Y(t), false, t.unsigned_abs() as u64 % 3, false).0);
        }
        for q in 0..8 {
            // the extremes, and what becomes a small amount when bits of it are lost
            let near = r.below(5000) * *r.pick(&[1, 1, 7, 12, 365]);
            let days = if q < 5 { *r.pick(&big_d) } else { r.pick(&[1u64 << 31, 1 << 32, 3 << 32, 1 << 53, 1 << 63, 0]).wrapping_add(if r.coin() { near } else { near.wrapping_neg() }) };
            let months = if q < 5 { *r.pick(&big_m) } else {
                let m = r.pick(&[1u32 << 24, 1 << 28, 1 << 31, 3 << 30, 0]).wrapping_add(if r.coin() { near as u32 } else { (near as u32).wrapping_neg() });
                if r.coin() { m - m % 12 } else { m }
            };
            let years = if q < 5 { *r.pick(&big_y) } else { r.pick(&[1i32 << 24, 1 << 28, 1 << 30, i32::MIN, i32::MIN / 3]).wrapping_add(if r.coin() { near as i32 } else { -(near as i32) }) };
            ev.push(op_event(*s, &Amt::D(days), r.coin(), k as u64 % 3, false).0);
            ev.push(op_event(*s, &Amt::M(months), r.coin(), k as u64 % 3, false).0);
            ev.push(op_event(*s, &Amt::Y(years), false, k as u64 % 3, false).0);
        }
        out.history(obj! {"from": ymd(*s)}, ev);
        // a moving cursor
        let mut cur = *s;
        let mut ev = vec![];
        for _ in 0..25 {
            let via = r.below(3);
            let sub = r.coin();
            let wild = r.below(12) == 0;
            let far = r.coin();
            let amt = match r.below(3) {
                0 => Amt::D(if wild { *r.pick(&big_d) } else { r.below(if far { 40 } else { 4000 }) }),
                1 => Amt::M(if wild { *r.pick(&big_m) } else { r.below(if far { 14 } else { 1300 }) as u32 }),
                _ => Amt::Y(if wild { *r.pick(&big_y) } else { r.range(-12, 12) as i32 }),
            };
            let (e, n) = op_event(cur, &amt, sub, via, true);
            ev.push(e);
            if let Some(n) = n {
                cur = n;
            }
        }
        out.history(obj! {"from": ymd(*s)}, ev);
    }
}

// ------------------------------------------------------------------ C03
use crate::cals;
use qlab_time::calendar::Calendar as Lib;

/// Closed on the given intervals of serial numbers, open otherwise.
struct Closed {
    iv: Vec<(i32, i32)>,
}
impl Lib for Closed {
    fn is_business_day(&self, date: Date) -> bool {
        let s = date.serial_date();
        !self.iv.iter().any(|&(a, b)| a <= s && s <= b)
    }
}
struct Mask {
    first: i32,
    closed: u32,
    len: i32,
}
impl Lib for Mask {
    fn is_business_day(&self, date: Date) -> bool {
        let k = date.serial_date() - self.first;
        !(0..self.len).contains(&k) || self.closed >> k & 1 == 0
    }
}
/// Any library calendar behind a pointer.
struct Ref<'a>(&'a dyn Lib);
impl Lib for Ref<'_> {
    fn is_business_day(&self, date: Date) -> bool {
        self.0.is_business_day(date)
    }
    fn is_holiday(&self, date: Date) -> bool {
        self.0.is_holiday(date)
    }
}

const ROLLS: [DateRolling; 5] = [DateRolling::Unadjusted, DateRolling::Following, DateRolling::ModifiedFollowing, DateRolling::Preceding, DateRolling::ModifiedPreceding];

fn rolls(start: Date, per: &Amt, cal: &impl Lib) -> J {
    J::A(ROLLS
        .iter()
        .map(|&k| {
            opt(guard(|| match *per {
                Amt::D(n) => start.checked_roll(Days::new(n), cal, k),
                Amt::M(n) => start.checked_roll(Months::new(n), cal, k),
                Amt::Y(n) => start.checked_roll(Years::new(n), cal, k),
                Amt::U(own) => start.checked_roll(own, cal, k),
            }))
        })
        .collect())
}
fn per_j(per: &Amt) -> J {
    match *per {
        Amt::D(n) => arr!["addD", n as i64],
        Amt::M(n) => arr!["addM", n as i64],
        Amt::Y(n) => arr!["addY", n],
        Amt::U(Own::MonthEnd(n)) => arr!["month end", n as i64],
        Amt::U(Own::ThirdWednesday(n)) => arr!["third Wednesday", n as i64],
        Amt::U(Own::Weeks(n)) => arr!["weeks", n as i64],
        Amt::U(Own::Back(n)) => arr!["back", n as i64],
        Amt::U(Own::Never) => arr!["never"],
        Amt::U(Own::Forever) => arr!["forever"],
    }
}
fn iv_j(iv: &[(i32, i32)]) -> J {
    J::A(iv.iter().map(|&(a, b)| arr![a, b]).collect())
}

pub fn c03(out: &mut Out) {
    let mut r = Rng::new("C03");
    // every pattern of open and closed days in a window around an unadjusted date
    let len: i32 = if quick() { 10 } else { 12 };
    let unadjusted = [
        (mk(2023, 12, 29), Amt::D(2)), // 2023-12-31
        (mk(2022, 12, 31), Amt::Y(1)),
        (mk(2023, 11, 30), Amt::M(1)),  // 12-30
        (mk(2024, 1, 31), Amt::M(1)),   // 02-29
        (mk(2023, 1, 30), Amt::M(1)),   // 02-28
        (mk(2023, 12, 1), Amt::M(1)),   // 01-01
        (mk(2020, 2, 29), Amt::Y(1)),   // 2021-02-28
        (mk(2024, 2, 28), Amt::D(2)),   // 03-01
        (mk(2024, 5, 1), Amt::M(0)),
        (mk(2024, 4, 30), Amt::D(0)),
        (mk(2024, 3, 13), Amt::M(3)),
        (mk(MAX_YEAR, 11, 30), Amt::M(1)),
        (mk(MAX_YEAR, 12, 30), Amt::D(1)),
        (mk(MAX_YEAR, 12, 30), Amt::D(2)), // none
        (mk(MAX_YEAR - 1, 12, 29), Amt::Y(1)),
        (mk(MIN_YEAR, 1, 1), Amt::D(0)),
        (mk(MIN_YEAR, 1, 1), Amt::D(2)),
        (mk(MIN_YEAR + 1, 1, 2), Amt::Y(-1)),
        (mk(MIN_YEAR, 1, 5), Amt::Y(-1)), // none
        (mk(0, 12, 31), Amt::D(1)),
        (mk(1999, 12, 31), Amt::D(0)),
        (mk(2024, 1, 31), Amt::U(Own::MonthEnd(1))), // 02-29
        (mk(2024, 3, 10), Amt::U(Own::Back(10))),    // 02-29
        (mk(2024, 1, 3), Amt::U(Own::Back(3))),      // 2023-12-31
        (mk(2024, 1, 3), Amt::U(Own::Never)),
        (mk(2024, 1, 3), Amt::U(Own::Forever)),
    ];
    for (start, per) in &unadjusted {
        let u = end(*start, per);
        let centre = u.unwrap_or(*start).serial_date();
        for before in if quick() { vec![len / 2] } else { vec![2, len / 2, len - 2] } {
            let first = centre - before;
            let mut ev = vec![];
            for closed in 0..1u32 << len {
                let cal = Mask { first, closed, len };
                ev.push(obj! {"op": "mask", "closed": closed, "r": rolls(*start, per, &cal)});
            }
            for part in ev.chunks(64) {
                out.history(obj! {"from": ymd(*start), "per": per_j(per), "first": first, "len": len}, part.to_vec());
            }
        }
    }
    // closures of every length, also over a month, a year and more, one or two of them
    let n = if quick() { 1500 } else { 30_000 };
    let mut ev = vec![];
    for k in 0..n {
        let start = if k % 50 == 0 { mk(MAX_YEAR, 12, r.range(1, 31) as u32) } else if k % 50 == 1 { mk(MIN_YEAR, 1, r.range(1, 31) as u32) } else { random_date(&mut r, 1850, 2250) };
        let per = match r.below(3) {
            0 => Amt::D(r.below(400)),
            1 => Amt::M(r.below(30) as u32),
            _ => Amt::Y(r.range(-10, 10) as i32),
        };
        let u = end(start, &per);
        let c = u.unwrap_or(start).serial_date();
        let top: i64 = *r.pick(&[2, 5, 31, 62, 370, 740, 5000]);
        let lo = c - r.range(0, top) as i32;
        let hi = c + r.range(-1, top) as i32;
        let mut iv = vec![];
        if lo <= hi {
            iv.push((lo, hi));
            if r.coin() {
                let g = r.range(2, 20) as i32;
                iv.push((hi + g, hi + g + r.range(0, 40) as i32));
            }
            if r.coin() {
                let g = r.range(2, 20) as i32;
                iv.insert(0, (lo - g - r.range(0, 40) as i32, lo - g));
            }
        }
        let cal = Closed { iv: iv.clone() };
        ev.push(obj! {"op": "closure", "from": ymd(start), "per": per_j(&per), "iv": iv_j(&iv), "r": rolls(start, &per, &cal)});
    }
    // periods a user wrote
    for k in 0..n / 3 {
        let start = random_date(&mut r, 1850, 2250);
        let own = match k % 5 {
            0 | 1 => Own::MonthEnd(r.below(30) as u32),
            2 => Own::ThirdWednesday(r.below(30) as u32),
            3 => Own::Weeks(r.below(200) as u32),
            _ => Own::Back(r.below(800) as u32),
        };
        let per = Amt::U(own);
        let c = end(start, &per).unwrap_or(start).serial_date();
        let top: i64 = *r.pick(&[1, 2, 5, 31, 62, 370]);
        let iv = vec![(c - r.range(0, top) as i32, c + r.range(0, top) as i32)];
        let cal = Closed { iv: iv.clone() };
        ev.push(obj! {"op": "closure", "from": ymd(start), "per": per_j(&per), "iv": iv_j(&iv), "r": rolls(start, &per, &cal)});
    }
    // closures of exactly a year and around it: the same month a year away
    for y in [2023, 2024] {
        for m in 1..=12 {
            for (back, fwd) in [(3, 365), (3, 366), (3, 364), (365, 3), (366, 3), (31, 366), (366, 31), (0, 730), (730, 0)] {
                let start = mk(y, m, 14);
                let c = start.serial_date();
                let iv = vec![(c - back, c + fwd)];
                let cal = Closed { iv: iv.clone() };
                ev.push(obj! {"op": "closure", "from": ymd(start), "per": arr!["addD", 0], "iv": iv_j(&iv), "r": rolls(start, &Amt::D(0), &cal)});
            }
        }
    }
    for part in ev.chunks(50) {
        out.history(obj! {"from": arr![1, 1, 1], "per": arr!["addD", 0], "first": 0, "len": 0}, part.to_vec());
    }
    // the library's own calendars through the adapter
    for (name, c) in &cals::all() {
        let mut ev = vec![];
        for _ in 0..if quick() { 40 } else { 400 } {
            let start = random_date(&mut r, 1990, 2040);
            let per = match r.below(3) {
                0 => Amt::D(r.below(40)),
                1 => Amt::M(r.below(30) as u32),
                _ => Amt::Y(r.range(-10, 10) as i32),
            };
            let u = end(start, &per);
            let c0 = u.unwrap_or(start).serial_date();
            // the closed days around the unadjusted date, as the calendar itself reports them
            let lib = c.lib();
            let mut iv: Vec<(i32, i32)> = vec![];
            let mut d = u.unwrap_or(start).checked_sub_days(Days::new(50)).unwrap();
            for s in c0 - 50..c0 + 50 {
                if guard(|| !lib.is_business_day(d)).unwrap_or(true) {
                    match iv.last_mut() {
                        Some(l) if l.1 == s - 1 => l.1 = s,
                        _ => iv.push((s, s)),
                    }
                }
                d = d.succ_opt().unwrap();
            }
            ev.push(obj! {"op": "closure", "from": ymd(start), "per": per_j(&per), "iv": iv_j(&iv), "r": rolls(start, &per, &Ref(lib))});
        }
        out.history(obj! {"from": arr![1, 1, 1], "per": arr!["addD", 0], "first": 0, "len": 0, "cal": *name}, ev);
    }
    // rolling off the weekend
    let mut years: Vec<i32> = (1890..=2110).collect();
    years.extend([MIN_YEAR, MIN_YEAR + 1, MAX_YEAR - 1, MAX_YEAR, -1, 0, 1, -400, 9999, 10_000]);
    for _ in 0..if quick() { 50 } else { 2000 } {
        years.push(r.range(MIN_YEAR.into(), MAX_YEAR.into()) as i32);
    }
    for y in years {
        let ev: Vec<J> = (1..=12)
            .map(|m| {
                let rows: Vec<J> = (1..=31).filter_map(|d| Date::from_ymd(y, m, d)).map(|x| opt(guard(|| x.weekend_roll()))).collect();
                obj! {"op": "weekend", "y": y, "m": m, "r": J::A(rows)}
            })
            .collect();
        out.history(obj! {"from": arr![1, 1, 1], "per": arr!["addD", 0], "first": 0, "len": 0}, ev);
    }
}

// ------------------------------------------------------------------ C04
use qlab_error::{ComputeError, QLabError};
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};

pub fn err_kind(e: &QLabError) -> &'static str {
    match e {
        QLabError::ComputeError(ComputeError::InvalidInput(_)) => "InvalidInput",
        QLabError::ComputeError(ComputeError::InterpolationError) => "InterpolationError",
        QLabError::ComputeError(ComputeError::ZeroDivisionError) => "ZeroDivisionError",
        QLabError::ComputeError(ComputeError::CastNumberError(_)) => "CastNumberError",
    }
}

fn frac<D: DayCount>(a: Date, b: Date) -> J {
    use crate::util::dyadic;
    let f = |r: Option<Result<f64, QLabError>>| match r {
        None => arr!["panic", ""],
        Some(Ok(v)) => arr!["ok", dyadic(v)],
        Some(Err(e)) => arr!["err", err_kind(&e)],
    };
    let d = guard(|| D::calculate_day_count_fraction::<f64>(a, b));
    let s = guard(|| D::calculate_day_count_fraction::<f32>(a, b).map(f64::from));
    arr![f(d), f(s)]
}

pub fn c04(out: &mut Out) {
    let mut r = Rng::new("C04");
    let mut pairs: Vec<(Date, Date)> = vec![];
    // every pair of month numbers and of interesting days, in the same and in different years
    let days = [1u32, 2, 15, 27, 28, 29, 30, 31];
    let mut class: Vec<Date> = vec![];
    for y in [2023, 2024] {
        for m in 1..=12 {
            for d in days {
                class.extend(Date::from_ymd(y, m, d));
            }
        }
    }
    let mut k = 0u64;
    for &a in &class {
        for &b in &class {
            k += 1;
            if !quick() || (k.wrapping_mul(2_654_435_761) >> 7) % 2 == 0 {
                pairs.push((a, b));
            }
        }
    }
    // all month and day combinations across one year boundary
    for m1 in 1..=12 {
        for m2 in 1..=12 {
            pairs.push((mk(2023, m1, 31.min(28)), mk(2024, m2, 1)));
            pairs.push((mk(2020, m1, 1), mk(2025, m2, 28)));
        }
    }
    let ends = [mk(MIN_YEAR, 1, 1), mk(MAX_YEAR, 12, 31), mk(MIN_YEAR, 12, 31), mk(MAX_YEAR, 1, 1), mk(0, 2, 29), mk(1, 1, 1), mk(-1, 12, 31)];
    for a in ends {
        for b in ends {
            pairs.push((a, b));
        }
    }
    // to the same day of another month or year, and to its neighbours
    for q in 0..if quick() { 1500 } else { 20_000 } {
        let a = random_date(&mut r, 1950, 2060);
        let a = if q % 5 == 0 { mk(a.year() / 4 * 4, 2, 29) } else { a };
        let k = match q % 3 {
            0 => 12 * r.below(9) as u32,
            1 => 48 * r.below(5) as u32,
            _ => r.below(30) as u32,
        };
        let Some(b) = a.checked_add_months(Months::new(k)) else { continue };
        let b = match q % 4 {
            0 => b.succ_opt().unwrap_or(b),
            1 => b.pred_opt().unwrap_or(b),
            _ => b,
        };
        pairs.push(if q % 11 == 0 { (b, a) } else { (a, b) });
    }
    for _ in 0..if quick() { 2500 } else { 40_000 } {
        let a = random_date(&mut r, 1900, 2100);
        let b = random_date(&mut r, 1900, 2100);
        pairs.push((a, b));
        pairs.push((a, a.checked_add_days(Days::new(r.below(70))).unwrap()));
        if r.below(4) == 0 {
            pairs.push((a, a));
            pairs.push((random_date(&mut r, MIN_YEAR, MAX_YEAR), random_date(&mut r, MIN_YEAR, MAX_YEAR)));
        }
    }
    let ev: Vec<J> = pairs
        .iter()
        .map(|&(a, b)| obj! {"a": ymd(a), "b": ymd(b), "act360": frac::<Act360>(a, b), "act365": frac::<Act365>(a, b), "thirty360": frac::<Thirty360>(a, b)})
        .collect();
    for part in ev.chunks(100) {
        out.history(obj! {"kind": "daycount"}, part.to_vec());
    }
}
