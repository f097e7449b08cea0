//! Every calendar and market of the library, and the histories about them (C05-C11).
use crate::util::{guard, quick, Out, Rng, J};
use crate::{arr, obj};
use calendar::Calendar as Base;
use chrono::{Datelike, Days, NaiveDate, Weekday};
use qlab_time::calendar::Calendar as Lib;
use qlab_time::date::Date;

/// One calendar seen through both traits.
pub trait Cal {
    fn base(&self) -> &dyn Base;
    fn lib(&self) -> &dyn Lib;
}
impl<T: Base + 'static> Cal for T {
    fn base(&self) -> &dyn Base {
        self
    }
    fn lib(&self) -> &dyn Lib {
        self
    }
}

macro_rules! unit {
    ($v:ident, $($name:literal => $x:expr),* $(,)?) => { $($v.push(($name, Box::new($x)));)* };
}

pub type Entry = (&'static str, Box<dyn Cal>);

/// name = "<calendar>/<market>"
pub fn all() -> Vec<Entry> {
    use calendar::*;
    let mut v: Vec<Entry> = vec![];
    unit!(v,
        "Argentina/-" => argentina::Argentina,
        "Australia/default" => australia::Australia::default(),
        "Australia/Settlement" => australia::Australia { market: Some(australia::AustraliaMarket::Settlement) },
        "Australia/ASX" => australia::Australia { market: Some(australia::AustraliaMarket::ASX) },
        "Austria/default" => austria::Austria::default(),
        "Austria/Settlement" => austria::Austria { market: Some(austria::AustriaMarket::Settlement) },
        "Austria/Exchange" => austria::Austria { market: Some(austria::AustriaMarket::Exchange) },
        "Botswana/-" => botswana::Botswana,
        "Brazil/default" => brazil::Brazil::default(),
        "Brazil/Settlement" => brazil::Brazil { market: Some(brazil::BrazilMarket::Settlement) },
        "Brazil/Exchange" => brazil::Brazil { market: Some(brazil::BrazilMarket::Exchange) },
        "Canada/default" => canada::Canada::default(),
        "Canada/Settlement" => canada::Canada { market: Some(canada::CanadaMarket::Settlement) },
        "Canada/TSX" => canada::Canada { market: Some(canada::CanadaMarket::TSX) },
        "Chile/-" => chile::Chile,
        "China/-" => china::China,
        "CzechRepublic/-" => czechrepublic::CzechRepublic,
        "Denmark/-" => denmark::Denmark,
        "Finland/-" => finland::Finland,
        "France/default" => france::France::default(),
        "France/Settlement" => france::France { market: Some(france::FranceMarket::Settlement) },
        "France/Exchange" => france::France { market: Some(france::FranceMarket::Exchange) },
        "Germany/default" => germany::Germany::default(),
        "Germany/Settlement" => germany::Germany { market: Some(germany::GermanyMarket::Settlement) },
        "Germany/FrankfurtStockExchange" => germany::Germany { market: Some(germany::GermanyMarket::FrankfurtStockExchange) },
        "Germany/Xetra" => germany::Germany { market: Some(germany::GermanyMarket::Xetra) },
        "Germany/Eurex" => germany::Germany { market: Some(germany::GermanyMarket::Eurex) },
        "Germany/Euwax" => germany::Germany { market: Some(germany::GermanyMarket::Euwax) },
        "HongKong/-" => hongkong::HongKong,
        "Hungary/-" => hungary::Hungary,
        "Iceland/-" => iceland::Iceland,
        "India/-" => india::India,
        "Indonesia/-" => indonesia::Indonesia,
        "Israel/-" => israel::Israel,
        "Italy/default" => italy::Italy::default(),
        "Italy/Settlement" => italy::Italy { market: Some(italy::ItalyMarket::Settlement) },
        "Italy/Exchange" => italy::Italy { market: Some(italy::ItalyMarket::Exchange) },
        "Japan/-" => japan::Japan,
        "Mexico/-" => mexico::Mexico,
        "NewZealand/-" => newzealand::NewZealand,
        "Norway/-" => norway::Norway,
        "Poland/-" => poland::Poland,
        "Romania/-" => romania::Romania,
        "Russia/default" => russia::Russia::default(),
        "Russia/Settlement" => russia::Russia { market: Some(russia::RussiaMarket::Settlement) },
        "Russia/Exchange" => russia::Russia { market: Some(russia::RussiaMarket::Exchange) },
        "Singapore/-" => singapore::Singapore,
        "Slovakia/-" => slovakia::Slovakia,
        "SouthAfrica/-" => southafrica::SouthAfrica,
        "SouthKorea/-" => southkorea::SouthKorea,
        "Sweden/-" => sweden::Sweden,
        "Switzerland/-" => switzerland::Switzerland,
        "Taiwan/-" => taiwan::Taiwan,
        "Target/-" => target::Target,
        "Thailand/-" => thailand::Thailand,
        "Turkey/-" => turkey::Turkey,
        "Ukraine/-" => ukraine::Ukraine,
        "UnitedKingdom/default" => unitedkingdom::UnitedKingdom::default(),
        "UnitedKingdom/Settlement" => unitedkingdom::UnitedKingdom { market: Some(unitedkingdom::UnitedKingdomMarket::Settlement) },
        "UnitedKingdom/Exchange" => unitedkingdom::UnitedKingdom { market: Some(unitedkingdom::UnitedKingdomMarket::Exchange) },
        "UnitedKingdom/Metals" => unitedkingdom::UnitedKingdom { market: Some(unitedkingdom::UnitedKingdomMarket::Metals) },
        "UnitedStates/default" => unitedstates::UnitedStates::default(),
        "UnitedStates/Settlement" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::Settlement) },
        "UnitedStates/Libor" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::Libor) },
        "UnitedStates/NYSE" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::NYSE) },
        "UnitedStates/GovernmentBond" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::GovernmentBond) },
        "UnitedStates/SOFR" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::SOFR) },
        "UnitedStates/NERC" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::NERC) },
        "UnitedStates/FederalReserve" => unitedstates::UnitedStates { market: Some(unitedstates::UnitedStatesMarket::FederalReserve) },
        "WeekendsOnly/-" => weekendsonly::WeekendsOnly,
    );
    v
}

pub fn nd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}

/// [f, panicked] month masks of a year: bit d-1 of entry m says f on day d
fn masks(y: i32, f: &dyn Fn(NaiveDate) -> bool) -> Option<Vec<i64>> {
    let mut v = vec![0i64; 12];
    let mut d = nd(y, 1, 1);
    for _ in 0..366 {
        if d.year() != y {
            break;
        }
        if guard(|| f(d))? {
            v[d.month0() as usize] |= 1 << d.day0();
        }
        d = d + Days::new(1);
    }
    Some(v)
}

fn panic_masks(v: Option<Vec<i64>>) -> J {
    J::from(v.unwrap_or_else(|| vec![-1]))
}

// ------------------------------------------------------------------ C05
pub fn c05(out: &mut Out) {
    let cals = all();
    for y in 1901..=2199 {
        let w: Vec<J> = cals.iter().map(|(_, c)| J::from(guard(|| c.base().easter_monday(y)).map_or(-1, i64::from))).collect();
        let o: Vec<J> = cals.iter().map(|(_, c)| J::from(guard(|| c.base().orthodox_easter_monday(y)).map_or(-1, i64::from))).collect();
        out.history(obj! {"n": cals.len()}, vec![obj! {"y": y, "w": J::A(w), "o": J::A(o)}]);
    }
}

// ------------------------------------------------------------------ C06-C09
pub const C06: &[&str] = &["Austria", "CzechRepublic", "Denmark", "Finland", "France", "Germany", "Hungary", "Iceland", "Italy", "Norway", "Poland", "Romania", "Russia", "Slovakia", "Sweden", "Switzerland", "Target", "Ukraine", "UnitedKingdom", "WeekendsOnly"];
pub const C07: &[&str] = &["Argentina", "Brazil", "Canada", "Chile", "Mexico", "UnitedStates"];
pub const C08: &[&str] = &["Australia", "China", "HongKong", "India", "Indonesia", "Japan", "NewZealand", "Singapore", "SouthKorea", "Taiwan", "Thailand"];
pub const C09: &[&str] = &["Botswana", "Israel", "SouthAfrica", "Turkey"];

/// What the calendars of a group say day by day: [calendar][day since 1901-01-01], none for a panic.
/// Asked in another order than the calendars' own histories: all of them on a day, the days backwards.
fn backwards(group: &[&str]) -> Vec<Vec<Option<bool>>> {
    let cals: Vec<Entry> = all().into_iter().filter(|(n, _)| group.contains(&n.split_once('/').unwrap().0)).collect();
    let first = nd(1901, 1, 1);
    let days = (nd(2199, 12, 31) - first).num_days() as usize + 1;
    let mut v = vec![vec![None; days]; cals.len()];
    for k in (0..days).rev() {
        let d = first + Days::new(k as u64);
        for (i, (_, c)) in cals.iter().enumerate() {
            v[i][k] = guard(|| c.base().is_business_day(d));
        }
    }
    v
}

pub fn holidays(out: &mut Out, group: &'static [&'static str]) {
    let first = nd(1901, 1, 1);
    // three users at once, one of them read below
    let users: Vec<_> = (0..3).map(|_| std::thread::spawn(|| backwards(group))).collect();
    let others: Vec<_> = users.into_iter().map(|u| u.join().unwrap()).collect();
    let cals = all().into_iter().filter(|(n, _)| group.contains(&n.split_once('/').unwrap().0));
    for (i, (name, c)) in cals.enumerate() {
        let (cal, market) = name.split_once('/').unwrap();
        let mut ev = vec![];
        for y in 1901..=2199 {
            let mut hol = vec![];
            let mut wk = vec![];
            let mut bad = vec![];
            let mut vary = vec![];
            let mut d = nd(y, 1, 1);
            while d.year() == y {
                let weekend = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
                let open = guard(|| c.base().is_business_day(d));
                let k = (d - first).num_days() as usize;
                if others.iter().any(|o| o[i][k] != open) {
                    vary.push(d.ordinal());
                }
                match open {
                    None => bad.push(d.ordinal()),
                    Some(open) => {
                        if !open && !weekend {
                            hol.push(d.ordinal());
                        }
                        if open && weekend {
                            wk.push(d.ordinal());
                        }
                    }
                }
                d = d + Days::new(1);
            }
            ev.push(obj! {"y": y, "hol": hol, "wk": wk, "panic": bad, "vary": vary});
        }
        // one history per run of years: replayed in parallel
        for chunk in ev.chunks(20) {
            out.history(obj! {"cal": cal, "market": market}, chunk.to_vec());
        }
    }
}

// ------------------------------------------------------------------ C10
/// A calendar behind a pointer, so that any two can be joined.
#[derive(Debug)]
struct W(&'static dyn Base);
impl Base for W {
    fn naive_date_to_dkmy(&self, date: NaiveDate) -> (u32, Weekday, u32, i32, u32) {
        self.0.naive_date_to_dkmy(date)
    }
    fn last_day_of_month(&self, date: NaiveDate) -> NaiveDate {
        self.0.last_day_of_month(date)
    }
    fn end_of_month(&self, date: NaiveDate) -> NaiveDate {
        self.0.end_of_month(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.0.is_weekend(date)
    }
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.is_business_day(date)
    }
    fn is_holiday(&self, date: NaiveDate) -> bool {
        self.0.is_holiday(date)
    }
}

fn date_j(d: Option<NaiveDate>) -> J {
    d.map_or(arr![-1], |d| arr![d.year(), d.month(), d.day()])
}

/// Everything one calendar says about one year.
fn year_event(c: &dyn Base, lib: &dyn Lib, y: i32) -> J {
    let mut rows = vec![];
    for m in 1..=12u32 {
        let mut last = vec![];
        let mut eom = vec![];
        for d in [1, 2, 15, 28, 29, 30, 31] {
            if let Some(x) = NaiveDate::from_ymd_opt(y, m, d) {
                last.push(date_j(guard(|| c.last_day_of_month(x))));
                // a month without any business day has no answer
                let open = guard(|| (1..=31).any(|k| NaiveDate::from_ymd_opt(y, m, k).is_some_and(|k| c.is_business_day(k))));
                if open == Some(true) {
                    eom.push(date_j(guard(|| c.end_of_month(x))));
                }
            }
        }
        rows.push(obj! {"last": J::A(last), "eom": J::A(eom)});
    }
    let dk: Vec<J> = [(1, 1), (2, 28), (2, 29), (3, 1), (7, 4), (12, 31), (8, 17)]
        .iter()
        .filter_map(|&(m, d)| NaiveDate::from_ymd_opt(y, m, d))
        .map(|x| {
            guard(|| c.naive_date_to_dkmy(x)).map_or(arr![-1], |(d, w, m, y, o)| {
                arr![arr![x.year(), x.month(), x.day()], d, w.number_from_monday(), m, y, o]
            })
        })
        .collect();
    obj! {
        "op": "year", "y": y,
        "open": panic_masks(masks(y, &|d| c.is_business_day(d))),
        "hol": panic_masks(masks(y, &|d| c.is_holiday(d))),
        "aopen": panic_masks(masks(y, &|d| lib.is_business_day(Date::from(d)))),
        "ahol": panic_masks(masks(y, &|d| lib.is_holiday(Date::from(d)))),
        "wknd": panic_masks(masks(y, &|d| c.is_weekend(d))),
        "rows": J::A(rows), "dk": J::A(dk)
    }
}

fn joint_event<A: Base + 'static, B: Base + 'static>(a: A, b: B, y: i32) -> J {
    let ma = masks(y, &|d| a.is_business_day(d));
    let mb = masks(y, &|d| b.is_business_day(d));
    let j = calendar::jointcalendar::JointCalendar::new(a, b);
    obj! {"op": "joint", "y": y, "a": panic_masks(ma), "b": panic_masks(mb), "all": year_event(&j, &j, y)}
}

/// A user's calendar: open on the days of twelve masks (bit d - 1 = day d), the same every year.
#[derive(Debug, Clone)]
struct Months([u32; 12]);
impl Base for Months {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0[date.month0() as usize] >> date.day0() & 1 == 1
    }
}

/// The same, written for the date library only.
struct Dated(Months);
impl Lib for Dated {
    fn is_business_day(&self, date: Date) -> bool {
        self.0 .0[date.month() as usize - 1] >> (date.day() - 1) & 1 == 1
    }
}

fn own_calendars(out: &mut Out, r: &mut Rng) {
    // open on one day of the month only; closed from a day to the end; from the first to a day; any days
    let mut own: Vec<Months> = vec![Months([0; 12]), Months([u32::MAX; 12])];
    for k in 0..31 {
        own.push(Months([1 << k; 12]));
        own.push(Months([(1 << k) - 1; 12]));
        own.push(Months([!((1 << k) - 1); 12]));
    }
    for _ in 0..if quick() { 40 } else { 400 } {
        let thin = r.coin();
        let mut m = [0; 12];
        for x in &mut m {
            *x = (r.next() as u32) & if thin { r.next() as u32 & r.next() as u32 } else { u32::MAX };
        }
        own.push(Months(m));
    }
    for part in own.chunks(8) {
        let mut ev = vec![];
        for c in part {
            for y in [r.range(1901, 2199) as i32, *r.pick(&[1999, 2000, 2023, 2024, 2100])] {
                ev.push(year_event(c, c, y));
            }
            ev.push(year_event(c, &Dated(c.clone()), r.range(1901, 2199) as i32));
            let other = own[r.below(own.len() as u64) as usize].clone();
            ev.push(joint_event(c.clone(), other, r.range(1901, 2199) as i32));
            ev.push(joint_event(calendar::target::Target, c.clone(), r.range(1990, 2050) as i32));
        }
        out.history(obj! {"cal": "own"}, ev);
    }
}

pub fn c10(out: &mut Out) {
    let mut r = Rng::new("C10");
    let cals: Vec<Entry> = all();
    for (name, c) in &cals {
        let years: Vec<i32> = (1901..=2199).collect();
        for chunk in years.chunks(25) {
            out.history(obj! {"cal": *name}, chunk.iter().map(|&y| year_event(c.base(), c.lib(), y)).collect());
        }
    }
    // every calendar joined with others, both ways round
    let leaked: Vec<(&'static str, &'static dyn Base)> = all()
        .into_iter()
        .map(|(n, c)| {
            let c: &'static dyn Cal = Box::leak(c);
            (n, c.base())
        })
        .collect();
    let n = leaked.len();
    for i in 0..n {
        let mut ev = vec![];
        for k in 0..if quick() { 6 } else { 40 } {
            let j = (i + 1 + r.below(n as u64 - 1) as usize) % n;
            let y = if k % 3 == 0 { r.range(1901, 2199) } else { r.range(2000, 2044) } as i32;
            let (a, b) = if r.coin() { (i, j) } else { (j, i) };
            ev.push(joint_event(W(leaked[a].1), W(leaked[b].1), y));
        }
        out.history(obj! {"cal": leaked[i].0}, ev);
    }
    // statically typed and nested joins
    use calendar::jointcalendar::JointCalendar as Jc;
    let mut ev = vec![];
    for y in [2005, 2012, 2020, 2023, 2037] {
        ev.push(joint_event(calendar::japan::Japan, calendar::target::Target, y));
        ev.push(joint_event(calendar::israel::Israel, calendar::weekendsonly::WeekendsOnly, y));
        ev.push(joint_event(Jc::new(calendar::japan::Japan, calendar::unitedkingdom::UnitedKingdom::default()), calendar::unitedstates::UnitedStates::default(), y));
        ev.push(joint_event(calendar::israel::Israel, Jc::new(calendar::china::China, calendar::china::China), y));
        ev.push(joint_event(Jc::<calendar::russia::Russia, calendar::turkey::Turkey>::default(), Jc::new(calendar::brazil::Brazil::default(), calendar::india::India), y));
    }
    out.history(obj! {"cal": "typed joins"}, ev);
    own_calendars(out, &mut r);
}

// ------------------------------------------------------------------ C11
/// Open except on the chosen days of a window.
#[derive(Debug, Clone)]
pub struct Chosen {
    pub first: NaiveDate,
    pub closed: u64,
    pub len: i64,
}
impl Base for Chosen {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        let k = (date - self.first).num_days();
        !(0..self.len).contains(&k) || self.closed >> k & 1 == 0
    }
}

/// Closed on some days of the week (Monday is 1), and on some intervals of days besides.
#[derive(Debug)]
struct Weekly {
    off: Vec<u32>,
    iv: Vec<(i32, i32)>,
}
impl Base for Weekly {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        let s = date.num_days_from_ce();
        !self.off.contains(&date.weekday().number_from_monday()) && !self.iv.iter().any(|&(a, b)| a <= s && s <= b)
    }
}

const FLAGS: [Option<bool>; 3] = [None, Some(true), Some(false)];

fn flag(f: Option<bool>) -> i64 {
    match f {
        None => 2,
        Some(true) => 1,
        Some(false) => 0,
    }
}

fn count_j(c: &dyn Base, a: NaiveDate, b: NaiveDate, f: Option<bool>, l: Option<bool>) -> J {
    J::from(guard(|| c.business_days_between(a, b, f, l)).map_or(i64::from(i32::MIN + 1), |x| x.clamp(-2_000_000_000, 2_000_000_000)))
}

pub fn c11(out: &mut Out) {
    let mut r = Rng::new("C11");
    // every pattern of open and closed days of a window, every pair of days, every combination of flags
    let len: i64 = if quick() { 6 } else { 8 };
    let (min, max) = (NaiveDate::MIN + chrono::Duration::days(1), NaiveDate::MAX - chrono::Duration::days(len));
    for first in [nd(2023, 12, 28), nd(2024, 2, 26), min, max] {
        for closed in 0..1u64 << len {
            let c = Chosen { first, closed, len };
            let mut ev = vec![];
            // one day beyond the window on either side
            for i in -1..=len {
                let a = first + chrono::Duration::days(i);
                let res: Vec<J> = (-1..=len)
                    .map(|j| {
                        let b = first + chrono::Duration::days(j);
                        let all: Vec<J> = FLAGS.iter().flat_map(|&f| FLAGS.iter().map(move |&l| (f, l))).map(|(f, l)| count_j(&c, a, b, f, l)).collect();
                        J::A(all)
                    })
                    .collect();
                ev.push(obj! {"op": "from", "i": i, "r": J::A(res)});
            }
            out.history(obj! {"kind": "mask", "closed": closed as i64, "len": len}, ev);
        }
    }
    // the counter walks through the real calendars: days pass one month at a time, and now and then
    // someone asks for the number of business days since the cursor was set
    let cals = all();
    let per = if quick() { 2 } else { 12 };
    for (name, c) in &cals {
        for k in 0..per {
            let y0 = if k % 2 == 0 { r.range(2000, 2035) } else { r.range(1901, 2150) } as i32;
            let start = nd(y0, r.range(1, 12) as u32, r.range(1, 28) as u32);
            let mut cur = start;
            let mut ev = vec![];
            for _ in 0..if quick() { 90 } else { 300 } {
                // the days (cur, next]
                let span = if r.below(4) == 0 { r.range(1, 3) } else { r.range(4, 30) };
                let next = cur + Days::new(span as u64);
                if next.year() > 2199 {
                    break;
                }
                let mut open = vec![];
                for d in 1..=span {
                    open.push(J::from(guard(|| c.base().is_business_day(cur + Days::new(d as u64))).unwrap_or(false)));
                }
                ev.push(obj! {"op": "pass", "open": J::A(open)});
                cur = next;
                let (f, l) = (*r.pick(&FLAGS), *r.pick(&FLAGS));
                let swap = r.below(3) == 0;
                let (a, b) = if swap { (cur, start) } else { (start, cur) };
                ev.push(obj! {"op": "count", "swap": swap, "f": flag(f), "l": flag(l), "r": count_j(c.base(), a, b, f, l)});
                if r.below(5) == 0 {
                    let (f, l) = (*r.pick(&FLAGS), *r.pick(&FLAGS));
                    ev.push(obj! {"op": "same", "f": flag(f), "l": flag(l), "r": count_j(c.base(), cur, cur, f, l)});
                }
            }
            let s0 = guard(|| c.base().is_business_day(start)).unwrap_or(false);
            out.history(obj! {"kind": "walk", "cal": *name, "start": arr![start.year(), start.month(), start.day()], "open0": s0}, ev);
        }
    }
    // and through the whole of 1901-2199, a year at a time
    let every = if quick() { 17 } else { 3 };
    for (name, c) in cals.iter().step_by(every) {
        let start = nd(1901, 1, r.range(1, 31) as u32);
        let mut cur = start;
        let mut ev = vec![];
        while cur < nd(2198, 12, 1) {
            let span = r.range(300, 366);
            let open: Vec<J> = (1..=span).map(|d| J::from(guard(|| c.base().is_business_day(cur + Days::new(d as u64))).unwrap_or(false))).collect();
            ev.push(obj! {"op": "pass", "open": J::A(open)});
            cur = cur + Days::new(span as u64);
            if r.below(4) == 0 || cur.year() > 2190 {
                let (f, l) = (*r.pick(&FLAGS), *r.pick(&FLAGS));
                let swap = r.below(3) == 0;
                let (a, b) = if swap { (cur, start) } else { (start, cur) };
                ev.push(obj! {"op": "count", "swap": swap, "f": flag(f), "l": flag(l), "r": count_j(c.base(), a, b, f, l)});
            }
        }
        let s0 = guard(|| c.base().is_business_day(start)).unwrap_or(false);
        out.history(obj! {"kind": "walk", "cal": *name, "start": arr![start.year(), start.month(), start.day()], "open0": s0}, ev);
    }
    // calendars whose count is known by formula, over centuries and millennia
    let (lo, hi) = (NaiveDate::MIN.num_days_from_ce() + 1, NaiveDate::MAX.num_days_from_ce());
    let day = |s: i32| NaiveDate::from_num_days_from_ce_opt(s).unwrap();
    let steps: [i64; 14] = [1, 7, 365, 366, 1461, 3652, 3653, 36_524, 36_525, 65_536, 146_096, 146_097, 146_098, 292_194];
    for k in 0..if quick() { 12 } else { 60 } {
        let off: Vec<u32> = match k % 5 {
            0 | 1 => vec![6, 7],
            2 => vec![5, 6],
            3 => vec![],
            _ => (1..=7).filter(|_| r.below(3) == 0).collect(),
        };
        let mut iv: Vec<(i32, i32)> = vec![];
        let centre = if k % 4 == 3 { r.range(i64::from(lo), i64::from(hi)) as i32 } else { r.range(500_000, 800_000) as i32 };
        let mut at = centre - r.below(300_000) as i32;
        for _ in 0..r.below(6) {
            at += r.range(2, 100_000) as i32;
            let last = at + *r.pick(&[0, 0, 1, 6, 30, 400, 20_000]);
            iv.push((at, last));
            at = last;
        }
        let weekends = k % 5 == 0;
        if weekends {
            iv.clear();
        }
        let own = Weekly { off: off.clone(), iv: iv.clone() };
        let c: &dyn Base = if weekends { &calendar::weekendsonly::WeekendsOnly } else { &own };
        let mut ev = vec![];
        for n in 0..30 {
            let span = match n {
                0..14 => steps[n] + r.range(-1, 1),
                14..22 => r.below(20_000) as i64,
                22..28 => r.below(400_000) as i64,
                _ => r.below(if quick() { 1_500_000 } else { 8_000_000 }) as i64,
            };
            let a = (i64::from(centre) - r.below(50_000) as i64).clamp(i64::from(lo), i64::from(hi) - 1);
            let b = (a + span).clamp(i64::from(lo), i64::from(hi));
            let (a, b) = if r.below(3) == 0 { (b, a) } else { (a, b) };
            let (f, l) = (*r.pick(&FLAGS), *r.pick(&FLAGS));
            ev.push(obj! {"op": "between", "a": a, "b": b, "f": flag(f), "l": flag(l), "r": count_j(c, day(a as i32), day(b as i32), f, l)});
        }
        // the whole range of dates
        if !quick() && k < 2 {
            ev.push(obj! {"op": "between", "a": lo, "b": hi, "f": 2, "l": 2, "r": count_j(c, day(lo), day(hi), None, None)});
        }
        let off = J::A(off.iter().map(|&w| J::from(i64::from(w))).collect());
        let iv = J::A(iv.iter().map(|&(a, b)| arr![a, b]).collect());
        out.history(obj! {"kind": "weekly", "off": off, "iv": iv}, ev);
    }
}
