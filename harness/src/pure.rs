//! C24: what the library answers depends on what it is asked, not on what it was asked before, on the
//! objects that came and went, or on who else is asking.
use crate::bond::Terms;
use crate::cals::{self, nd};
use crate::curve::plus;
use crate::dates::mk;
use crate::interp::Float;
use crate::util::{dyadic, guard, quick, Out, Rng, J};
use crate::obj;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as Base;
use chrono::{Datelike, NaiveDate};
use qlab_error::QLabError;
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use qlab_time::period::{days::Days, months::Months, years::Years};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Objects made when they are first needed, and made anew after `forget`.
struct Shelf<T> {
    made: RefCell<HashMap<usize, Rc<T>>>,
    make: fn(usize) -> T,
}

impl<T> Shelf<T> {
    fn new(make: fn(usize) -> T) -> Self {
        Shelf { made: RefCell::default(), make }
    }
    fn get(&self, i: usize) -> Rc<T> {
        if let Some(x) = self.made.borrow().get(&i) {
            return x.clone();
        }
        let x = Rc::new((self.make)(i));
        self.made.borrow_mut().insert(i, x.clone());
        x
    }
    fn forget(&self, rng: &mut Rng) {
        let mut m = self.made.borrow_mut();
        if rng.coin() {
            m.clear();
        } else {
            let k: Option<usize> = m.keys().copied().min_by_key(|k| (*k as u64).wrapping_mul(rng.0 | 1));
            k.map(|k| m.remove(&k));
        }
    }
}

type R<T> = Result<T, QLabError>;

fn tell<V: Float>(r: Result<V, impl std::fmt::Debug>) -> String {
    match r {
        Ok(v) => dyadic(v.f64()),
        Err(e) => format!("{e:?}"),
    }
}

// ---------------------------------------------------------------- the world
/// Curves and bonds of one type.
struct Book<V: Float, D: DayCount, I: Interpolator<Value = V>> {
    curves: Shelf<R<YieldCurve<D, I>>>,
    bonds: Shelf<Option<Bond<V>>>,
    /// where one curve takes another's place, and one bond another's
    curve_place: RefCell<Option<R<YieldCurve<D, I>>>>,
    bond_place: RefCell<Option<Option<Bond<V>>>>,
}

const CURVES: usize = 8;
const BONDS: usize = 7;

fn settle() -> Date {
    mk(2023, 10, 10)
}

fn quotes() -> Vec<Date> {
    [(2023, 10, 10), (2024, 5, 7), (2024, 11, 7), (2026, 5, 7), (2030, 11, 7), (2045, 11, 7)].iter().map(|&(y, m, d)| mk(y, m, d)).collect()
}

/// Curves that differ in one thing from the first.
fn curve<V: Float, D: DayCount, I: Interpolator<Value = V>>(i: usize) -> R<YieldCurve<D, I>> {
    let (mut s, mut m, mut y) = (settle(), quotes(), vec![0.02, 0.0219, 0.0237, 0.025, 0.031, 0.0346]);
    match i {
        1 => y[3] = 0.045,
        2 => m[3] = mk(2027, 5, 7),
        3 => y.iter_mut().for_each(|y| *y *= 2.0),
        4 => s = mk(2023, 10, 9),
        5 => y[5] = 0.01,
        6 => {
            m.truncate(4);
            y.truncate(4);
        }
        7 => {
            m.pop();
        }
        _ => (),
    }
    let y: Vec<V> = y.into_iter().map(V::of).collect();
    YieldCurve::new(s, &m, &y)
}

/// Bonds under one name that differ in one thing from the first.
fn bond<V: Float>(i: usize) -> Option<Bond<V>> {
    let mut t = Terms { issue: mk(2023, 5, 8), first: mk(2023, 11, 7), pen: mk(2042, 5, 7), mat: mk(2042, 11, 7), rate: 0.062, face: 1000.0 };
    match i {
        1 => t.rate = 0.03,
        2 => t.face = 100.0,
        3 => t.issue = mk(2023, 7, 8),
        4 => t.mat = mk(2043, 1, 7),
        5 => t.pen = mk(2040, 5, 7),
        6 => t.pen = mk(2022, 5, 7),
        _ => (),
    }
    Bond::new("b", t.issue, t.first, t.pen, t.mat, Frequency::SA, V::of(t.rate), V::of(t.face))
}

impl<V: Float, D: DayCount, I: Interpolator<Value = V>> Book<V, D, I> {
    fn new() -> Self {
        Book { curves: Shelf::new(curve::<V, D, I>), bonds: Shelf::new(bond::<V>), curve_place: RefCell::default(), bond_place: RefCell::default() }
    }
    fn df(&self, j: usize, a: Date, b: Date) -> String {
        match &*self.curves.get(j) {
            Ok(c) => tell(c.discount_factor(a, b)),
            Err(e) => format!("no curve: {e}"),
        }
    }
    fn price(&self, i: usize, j: usize, d: Date) -> String {
        Self::told(&self.bonds.get(i), &self.curves.get(j), d)
    }
    /// The same, the curve or the bond made anew where another one was.
    fn price_anew(&self, i: usize, j: usize, d: Date, both: bool, new_bond: bool) -> String {
        if new_bond || both {
            *self.bond_place.borrow_mut() = Some(bond(i));
        }
        if !new_bond || both {
            *self.curve_place.borrow_mut() = Some(curve(j));
        }
        let (b, c) = (self.bond_place.borrow(), self.curve_place.borrow());
        match (new_bond || both, !new_bond || both) {
            (true, false) => Self::told(b.as_ref().unwrap(), &self.curves.get(j), d),
            (false, _) => Self::told(&self.bonds.get(i), c.as_ref().unwrap(), d),
            _ => Self::told(b.as_ref().unwrap(), c.as_ref().unwrap(), d),
        }
    }
    fn told(b: &Option<Bond<V>>, c: &R<YieldCurve<D, I>>, d: Date) -> String {
        match (b, c) {
            (Some(b), Ok(c)) => format!("{} {}", b.bond_id(), tell(b.discounted_value(d, c))),
            (None, _) => "no bond".into(),
            (_, Err(e)) => format!("no curve: {e}"),
        }
    }
    fn forget(&self, rng: &mut Rng) {
        if rng.coin() {
            self.curves.forget(rng);
        } else {
            self.bonds.forget(rng);
        }
    }
}

const DATA: usize = 9;

/// Data that differ in one thing from the first.
fn points<V: Float>(i: usize) -> Vec<(V, V, V)> {
    let mut x = vec![0.0, 1.0, 2.5, 3.0, 4.0, 6.0, 7.5, 8.0];
    let mut y = vec![0.5, 0.25, 1.0, -2.0, 3.0, 0.0, 1.5, 2.0];
    match i {
        1 => y[3] = 2.0,
        2 => x[3] = 3.5,
        3 => y[7] = -2.0,
        4 => x.iter_mut().for_each(|x| *x += 0.125),
        5 => y.iter_mut().for_each(|y| *y += 1.0),
        6 => x.swap(2, 3),
        7 => {
            x.truncate(5);
            y.truncate(5);
        }
        8 => {
            x.pop();
            x.push(9.0);
        }
        _ => (),
    }
    x.iter().zip(&y).enumerate().map(|(k, (&x, &y))| (V::of(x), V::of(y), V::of(0.5 * (k % 3) as f64 - (i == 3) as u8 as f64))).collect()
}

struct Fits<V: Float> {
    linear: Shelf<Result<Linear<V>, String>>,
    natural: Shelf<Result<NaturalCubic<V>, String>>,
    catmull: Shelf<Result<CatmullRom<V>, String>>,
    hermite: Shelf<Result<Hermite<V>, String>>,
    /// where one interpolator takes another's place
    place: RefCell<Option<Placed<V>>>,
}
enum Placed<V: Float> {
    Linear(Linear<V>),
    Natural(NaturalCubic<V>),
    Catmull(CatmullRom<V>),
    Hermite(Hermite<V>),
}

fn fitted<V: Float, I: Interpolator<Value = V>>(i: usize) -> Result<I, String> {
    let p: Vec<(V, V)> = points::<V>(i).into_iter().map(|p| (p.0, p.1)).collect();
    I::default().try_fit(&p).map_err(|e| format!("{e:?}"))
}

fn sloped<V: Float>(i: usize) -> Result<Hermite<V>, String> {
    Hermite::try_new(&points::<V>(i)).map_err(|e| format!("{e:?}"))
}

impl<V: Float> Fits<V> {
    fn new() -> Self {
        Fits { linear: Shelf::new(fitted), natural: Shelf::new(fitted), catmull: Shelf::new(fitted), hermite: Shelf::new(sloped), place: RefCell::default() }
    }
    fn at(&self, kind: usize, i: usize, x: f64) -> String {
        fn ask<I>(i: &Result<I, String>, f: impl Fn(&I) -> String) -> String {
            i.as_ref().map_or_else(|e| format!("no fit: {e}"), f)
        }
        let x = V::of(x);
        match kind {
            0 => ask(&self.linear.get(i), |i| tell(i.try_value(x))),
            1 => ask(&self.natural.get(i), |i| tell(i.try_value(x))),
            2 => ask(&self.catmull.get(i), |i| tell(i.try_value(x))),
            _ => ask(&self.hermite.get(i), |i| tell(i.try_value(x))),
        }
    }
    fn anew(&self, kind: usize, i: usize, x: f64) -> String {
        let made = match kind {
            0 => fitted(i).map(Placed::Linear),
            1 => fitted(i).map(Placed::Natural),
            2 => fitted(i).map(Placed::Catmull),
            _ => sloped(i).map(Placed::Hermite),
        };
        match made {
            Err(e) => format!("no fit: {e}"),
            Ok(m) => {
                *self.place.borrow_mut() = Some(m);
                let x = V::of(x);
                match self.place.borrow().as_ref().unwrap() {
                    Placed::Linear(i) => tell(i.try_value(x)),
                    Placed::Natural(i) => tell(i.try_value(x)),
                    Placed::Catmull(i) => tell(i.try_value(x)),
                    Placed::Hermite(i) => tell(i.try_value(x)),
                }
            }
        }
    }
    fn forget(&self, rng: &mut Rng) {
        match rng.below(4) {
            0 => self.linear.forget(rng),
            1 => self.natural.forget(rng),
            2 => self.catmull.forget(rng),
            _ => self.hermite.forget(rng),
        }
    }
}

/// A user's calendar: open unless the day's number leaves the remainder, or closed on one weekday.
#[derive(Debug, Clone)]
struct Own(u32, u32);
impl Base for Own {
    fn is_business_day(&self, d: NaiveDate) -> bool {
        d.num_days_from_ce() as u32 % self.0 != self.1
    }
}
const OWN: [Own; 4] = [Own(3, 0), Own(3, 1), Own(7, 2), Own(2, 1)];

/// Everything one client holds.
pub struct World {
    cals: Vec<cals::Entry>,
    b0: Book<f64, Act365, Linear<f64>>,
    b1: Book<f64, Act360, Linear<f64>>,
    b2: Book<f64, Thirty360, NaturalCubic<f64>>,
    b3: Book<f64, Act365, NaturalCubic<f64>>,
    b4: Book<f32, Act365, Linear<f32>>,
    b5: Book<f32, Act360, NaturalCubic<f32>>,
    b6: Book<f64, Act365, CatmullRom<f64>>,
    f64: Fits<f64>,
    f32: Fits<f32>,
}

impl World {
    fn new() -> Self {
        World {
            cals: cals::all(),
            b0: Book::new(),
            b1: Book::new(),
            b2: Book::new(),
            b3: Book::new(),
            b4: Book::new(),
            b5: Book::new(),
            b6: Book::new(),
            f64: Fits::new(),
            f32: Fits::new(),
        }
    }
    fn df(&self, k: usize, j: usize, a: Date, b: Date) -> String {
        match k {
            0 => self.b0.df(j, a, b),
            1 => self.b1.df(j, a, b),
            2 => self.b2.df(j, a, b),
            3 => self.b3.df(j, a, b),
            4 => self.b4.df(j, a, b),
            5 => self.b5.df(j, a, b),
            _ => self.b6.df(j, a, b),
        }
    }
    fn price(&self, k: usize, i: usize, j: usize, d: Date) -> String {
        match k {
            0 => self.b0.price(i, j, d),
            1 => self.b1.price(i, j, d),
            2 => self.b2.price(i, j, d),
            3 => self.b3.price(i, j, d),
            4 => self.b4.price(i, j, d),
            5 => self.b5.price(i, j, d),
            _ => self.b6.price(i, j, d),
        }
    }
    fn price_anew(&self, k: usize, i: usize, j: usize, d: Date, both: bool, new_bond: bool) -> String {
        match k {
            0 => self.b0.price_anew(i, j, d, both, new_bond),
            1 => self.b1.price_anew(i, j, d, both, new_bond),
            2 => self.b2.price_anew(i, j, d, both, new_bond),
            3 => self.b3.price_anew(i, j, d, both, new_bond),
            4 => self.b4.price_anew(i, j, d, both, new_bond),
            5 => self.b5.price_anew(i, j, d, both, new_bond),
            _ => self.b6.price_anew(i, j, d, both, new_bond),
        }
    }
    fn forget(&self, rng: &mut Rng) {
        match rng.below(9) {
            0 => self.b0.forget(rng),
            1 => self.b1.forget(rng),
            2 => self.b2.forget(rng),
            3 => self.b3.forget(rng),
            4 => self.b4.forget(rng),
            5 => self.b5.forget(rng),
            6 => self.b6.forget(rng),
            7 => self.f64.forget(rng),
            _ => self.f32.forget(rng),
        }
    }
    /// One more question to an object; nobody looks at the answer.
    fn chat(&self, t: Thing, rng: &mut Rng) {
        let mut below = |n: u64| rng.below(n);
        let some = |from: Date, k: u64| plus(from, k as i64).unwrap();
        let _ = guard(|| match t {
            Thing::Nothing => String::new(),
            Thing::Cal(c) => {
                let d = some(mk(1901, 1, 1), below(109_000));
                let d = nd(d.year(), d.month(), d.day());
                let c = self.cal(c);
                format!("{} {} {}", c.is_business_day(d), c.is_holiday(d), c.is_weekend(d))
            }
            Thing::Curve(k, j) => {
                let (a, b) = (some(settle(), below(3500)), some(settle(), below(8000)));
                self.df(k, j, a, b)
            }
            Thing::Bond(k, i, j) => {
                let d = some(settle(), below(7000));
                self.price(k, i, j, d)
            }
            Thing::Fit(single, kind, i) => {
                let x = below(1 << 22) as f64 / (1 << 19) as f64 + 0.125;
                if single { self.f32.at(kind, i, x) } else { self.f64.at(kind, i, x) }
            }
        });
    }
    fn cal(&self, c: usize) -> &dyn Base {
        if c < OWN.len() {
            &OWN[c]
        } else {
            self.cals[c - OWN.len()].1.base()
        }
    }
}

// ---------------------------------------------------------------- the requests
type Ask = Box<dyn Fn(&World) -> String>;

/// What a request asks.
#[derive(Clone, Copy, PartialEq)]
enum Thing {
    Nothing,
    Cal(usize),
    /// of a book
    Curve(usize, usize),
    /// of a book, and a curve of it
    Bond(usize, usize, usize),
    /// single or double, kind, data
    Fit(bool, usize, usize),
}

pub struct Requests {
    names: Vec<String>,
    asks: Vec<Ask>,
    things: Vec<Thing>,
    /// what is asked by the requests to come
    thing: Thing,
    /// where each family starts
    families: Vec<usize>,
    count: usize,
    /// the only one needed
    only: Option<usize>,
}

impl Requests {
    fn family(&mut self) {
        self.families.push(self.asks.len());
        self.thing = Thing::Nothing;
    }
    fn add(&mut self, name: impl FnOnce() -> String, f: impl Fn(&World) -> String + 'static) {
        if self.only.is_none_or(|only| self.count == only) {
            self.names.push(name());
            self.asks.push(Box::new(f));
            self.things.push(self.thing);
        }
        self.count += 1;
    }
    fn answer(&self, i: usize, w: &World) -> String {
        guard(|| (self.asks[i])(w)).unwrap_or_else(|| "panic".into())
    }
}

fn date(d: Option<Date>) -> String {
    d.map_or("none".into(), |d| d.to_string())
}

/// Any calendar by reference.
#[derive(Debug)]
struct By<'a>(&'a dyn Base);
impl qlab_time::calendar::Calendar for By<'_> {
    fn is_business_day(&self, d: Date) -> bool {
        NaiveDate::from_ymd_opt(d.year(), d.month(), d.day()).is_some_and(|d| self.0.is_business_day(d))
    }
}

fn requests(only: Option<usize>) -> Requests {
    let mut q = Requests { names: vec![], asks: vec![], things: vec![], thing: Thing::Nothing, families: vec![], count: 0, only };
    // calendars: the same days everywhere, and the days that matter most for each rule's neighbours
    let days = [
        nd(2023, 1, 2), nd(2023, 4, 10), nd(2024, 4, 1), nd(2024, 3, 29), nd(2023, 5, 1), nd(2022, 5, 2), nd(2024, 12, 26),
        nd(1999, 12, 24), nd(2000, 12, 25), nd(2100, 1, 1), nd(2022, 1, 3), nd(2024, 2, 29), nd(2023, 11, 23), nd(2019, 11, 22),
        nd(1923, 4, 2), nd(2123, 4, 12),
    ];
    let n = OWN.len() + cals::all().len();
    for c in 0..n {
        q.family();
        q.thing = Thing::Cal(c);
        for d in days {
            q.add(|| format!("cal {c} open {d}"), move |w| w.cal(c).is_business_day(d).to_string());
            q.add(|| format!("cal {c} holiday {d}"), move |w| w.cal(c).is_holiday(d).to_string());
            if d.day() < 5 {
                q.add(|| format!("cal {c} weekend {d}"), move |w| w.cal(c).is_weekend(d).to_string());
                q.add(|| format!("cal {c} month end {d}"), move |w| format!("{} {}", w.cal(c).last_day_of_month(d), w.cal(c).end_of_month(d)));
            }
            if c >= OWN.len() {
                q.add(|| format!("cal {c} adapter {d}"), move |w| {
                    let l = w.cals[c - OWN.len()].1.lib();
                    format!("{} {}", l.is_business_day(Date::from(d)), l.is_holiday(Date::from(d)))
                });
            }
        }
    }
    // the same day on all calendars
    for d in &days[..8] {
        q.family();
        for c in 0..n {
            let d = *d;
            q.add(|| format!("open {d} cal {c}"), move |w| w.cal(c).is_business_day(d).to_string());
        }
    }
    // Easter, year after year
    q.family();
    for y in 1901..=2199 {
        q.add(|| format!("easter {y}"), move |w| w.cal(OWN.len()).easter_monday(y).to_string());
        q.add(|| format!("orthodox easter {y}"), move |w| w.cal(OWN.len()).orthodox_easter_monday(y).to_string());
    }
    // counting
    for c in (0..n).filter(|c| *c < OWN.len() || c % 6 == 0) {
        q.family();
        q.thing = Thing::Cal(c);
        for (a, b) in [(days[0], days[4]), (days[0], days[1]), (days[1], days[4]), (days[4], days[0]), (days[0], days[0]), (days[10], days[11]), (days[5], days[6])] {
            for (f, l) in [(None, None), (Some(false), None), (None, Some(true)), (Some(false), Some(true)), (Some(true), Some(false))] {
                q.add(|| format!("count {c} {a} {b} {f:?} {l:?}"), move |w| w.cal(c).business_days_between(a, b, f, l).to_string());
            }
        }
    }
    // joins, also of calendars of one type
    q.family();
    for i in 0..4 {
        for j in 0..4 {
            for d in days {
                q.add(|| format!("own {i} and own {j} {d}"), move |_| JointCalendar::new(OWN[i].clone(), OWN[j].clone()).is_business_day(d).to_string());
            }
        }
        for d in days {
            q.add(|| format!("target and own {i} {d}"), move |_| JointCalendar::new(calendar::target::Target, OWN[i].clone()).is_business_day(d).to_string());
            q.add(|| format!("own {i} and japan {d}"), move |_| JointCalendar::new(OWN[i].clone(), calendar::japan::Japan).is_business_day(d).to_string());
        }
    }
    // dates and periods
    let dates: Vec<Date> = [
        (2024, 1, 31), (2024, 1, 30), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (2024, 1, 1), (2023, 3, 31), (2100, 2, 28), (1999, 8, 31),
        (2023, 7, 1), (2023, 7, 2), (2023, 9, 30), (-4, 2, 29), (0, 1, 1),
    ]
    .iter()
    .map(|&(y, m, d)| mk(y, m, d))
    .collect();
    q.family();
    for &d in &dates {
        q.add(|| format!("{d:?}"), move |_| format!("{d} {} {} {} {}", d.serial_date(), d.year(), d.month(), d.day()));
        q.add(|| format!("leap {d:?}"), move |_| d.leap_year().to_string());
        q.add(|| format!("next {d:?}"), move |_| date(d.succ_opt()));
        q.add(|| format!("previous {d:?}"), move |_| date(d.pred_opt()));
        q.add(|| format!("weekend roll {d:?}"), move |_| date(d.weekend_roll()));
        for k in [0, 1, 2, 6, 12, 13, 100] {
            q.add(|| format!("{d:?} + {k} months"), move |_| date(d.checked_add_months(Months::new(k))));
            q.add(|| format!("{d:?} - {k} months"), move |_| date(d.checked_sub_months(Months::new(k))));
            q.add(|| format!("{d:?} + {k} days"), move |_| date(d.checked_add_days(Days::new(k.into()))));
            q.add(|| format!("{d:?} - {k} days"), move |_| date(d.checked_sub_days(Days::new(k.into()))));
            q.add(|| format!("{d:?} + {k} years"), move |_| date(d.checked_add_years(Years::new(k as i32))));
        }
        for &e in &dates {
            q.add(|| format!("{d:?} - {e:?}"), move |_| (d - e).to_string());
        }
    }
    q.family();
    for y in [1900, 1999, 2000, 2023, 2024, 2100] {
        for m in [0, 1, 2, 4, 12, 13] {
            for k in [0, 1, 28, 29, 30, 31, 32] {
                q.add(|| format!("date {y} {m} {k}"), move |_| date(Date::from_ymd(y, m, k)));
            }
        }
    }
    // rolling
    use DateRolling::{Following, ModifiedFollowing, ModifiedPreceding, Preceding, Unadjusted};
    for c in (0..n).filter(|c| *c < OWN.len() || c % 9 == 0) {
        q.family();
        for &d in &dates[..12] {
            for (r, how) in [("un", Unadjusted), ("f", Following), ("mf", ModifiedFollowing), ("p", Preceding), ("mp", ModifiedPreceding)] {
                for k in [0, 1] {
                    q.add(|| format!("{d:?} + {k} days {r} {c}"), move |w| date(d.checked_roll(Days::new(k), &By(w.cal(c)), how)));
                    q.add(|| format!("{d:?} + {k} months {r} {c}"), move |w| date(d.checked_roll(Months::new(k as u32), &By(w.cal(c)), how)));
                }
            }
        }
    }
    // day counts
    for &a in &dates[..12] {
        q.family();
        for &b in &dates {
            macro_rules! frac {
                ($($d:ty, $n:literal);*) => { $(
                    q.add(|| format!("{} f64 {a:?} {b:?}", $n), move |_| tell(<$d>::calculate_day_count_fraction::<f64>(a, b)));
                    q.add(|| format!("{} f32 {a:?} {b:?}", $n), move |_| tell(<$d>::calculate_day_count_fraction::<f32>(a, b)));
                )* };
            }
            frac!(Act360, "act360"; Act365, "act365"; Thirty360, "30/360");
        }
    }
    // interpolators
    for kind in 0..4 {
        q.family();
        for x in [0.0, 0.5, 1.0, 2.75, 3.0, 3.25, 3.5, 5.0, 7.875, 8.0, 8.5, -1.0, 1.9] {
            for i in 0..DATA {
                q.thing = Thing::Fit(false, kind, i);
                q.add(|| format!("fit {kind} {i} f64 at {x}"), move |w| w.f64.at(kind, i, x));
                q.thing = Thing::Fit(true, kind, i);
                q.add(|| format!("fit {kind} {i} f32 at {x}"), move |w| w.f32.at(kind, i, x));
            }
        }
    }
    // curves
    let s = settle();
    let ask: Vec<Date> = [0, 1, 28, 210, 211, 1200, 4000].iter().map(|&k| plus(s, k).unwrap()).collect();
    for k in 0..7 {
        q.family();
        for &a in &ask {
            for &b in &ask {
                for j in 0..CURVES {
                    q.thing = Thing::Curve(k, j);
                    q.add(|| format!("book {k} curve {j} {a:?} {b:?}"), move |w| w.df(k, j, a, b));
                }
            }
        }
    }
    // bonds
    for k in 0..7 {
        q.family();
        for d in [s, plus(s, 28).unwrap(), plus(s, 29).unwrap(), mk(2030, 11, 7), mk(2042, 5, 6), mk(2042, 11, 7), plus(s, -1).unwrap()] {
            for j in 0..CURVES {
                for i in 0..BONDS {
                    q.thing = Thing::Bond(k, i, j);
                    q.add(|| format!("book {k} bond {i} curve {j} {d:?}"), move |w| w.price(k, i, j, d));
                }
            }
        }
    }
    // the same with what takes the place, in memory, of another of its kind
    for k in 0..7 {
        for (name, both, new_bond) in [("curve", false, false), ("bond", false, true), ("both", true, true)] {
            q.family();
            for d in [s, plus(s, 28).unwrap(), mk(2030, 11, 7)] {
                for fixed in 0..2 {
                    for varied in 0..5 {
                        let (i, j) = if new_bond { (varied, fixed) } else { (fixed, varied) };
                        q.add(|| format!("book {k} bond {i} curve {j} {d:?} new {name}"), move |w| w.price_anew(k, i, j, d, both, new_bond));
                    }
                }
            }
        }
    }
    for kind in 0..4 {
        q.family();
        for x in [0.5, 2.75, 3.0, 8.5] {
            for i in 0..DATA {
                q.add(|| format!("new fit {kind} {i} f64 at {x}"), move |w| w.f64.anew(kind, i, x));
                q.add(|| format!("new fit {kind} {i} f32 at {x}"), move |w| w.f32.anew(kind, i, x));
            }
        }
    }
    q
}

/// The answer of a process that is asked nothing else.
pub fn alone(which: &str) {
    let q = requests(which.parse().ok());
    print!("{}", q.answer(0, &World::new()));
}

fn all_alone(q: &Requests) -> Vec<String> {
    let exe = std::env::current_exe().expect("own path");
    let n = q.asks.len();
    let users = 8;
    let parts: Vec<Vec<String>> = std::thread::scope(|s| {
        let t: Vec<_> = (0..users)
            .map(|u| {
                let exe = &exe;
                s.spawn(move || {
                    (u..n)
                        .step_by(users)
                        .map(|i| {
                            for _ in 0..50 {
                                if let Ok(o) = std::process::Command::new(exe).args(["C24", "alone", &i.to_string()]).output() {
                                    return if o.status.success() { String::from_utf8_lossy(&o.stdout).into() } else { "died".into() };
                                }
                                std::thread::sleep(std::time::Duration::from_millis(100));
                            }
                            panic!("no process can be started");
                        })
                        .collect()
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().expect("a thread that starts processes")).collect()
    });
    (0..n).map(|i| parts[i % users][i / users].clone()).collect()
}

/// One client's day: (request, answer) in the order asked.
fn client(q: &Requests, rng: &mut Rng, tours: usize, visits: usize) -> Vec<(usize, String)> {
    let w = World::new();
    let n = q.asks.len();
    let mut log = vec![];
    for _ in 0..tours {
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, rng.below(i as u64 + 1) as usize);
        }
        for i in order {
            log.push((i, q.answer(i, &w)));
            if rng.below(40) == 0 {
                w.forget(rng);
            }
        }
    }
    // a request, requests much like it, and the request again
    for v in 0..visits {
        let f = v % q.families.len();
        let (lo, hi) = (q.families[f], q.families.get(f + 1).copied().unwrap_or(n));
        let home = lo + rng.below((hi - lo) as u64) as usize;
        log.push((home, q.answer(home, &w)));
        for _ in 0..1 + rng.below(4) {
            let near = match rng.below(4) {
                // the same place in another family: the same question to another kind of object
                3 => {
                    let g = (f + [1, q.families.len() - 1][rng.below(2) as usize]) % q.families.len();
                    let end = q.families.get(g + 1).copied().unwrap_or(n);
                    (q.families[g] + (home - lo)).min(end - 1)
                }
                0 => (home + 1 + rng.below(6) as usize).min(hi - 1),
                1 => (home.saturating_sub(1 + rng.below(6) as usize)).max(lo),
                _ => lo + rng.below((hi - lo) as u64) as usize,
            };
            log.push((near, q.answer(near, &w)));
            if rng.below(6) == 0 {
                w.forget(rng);
            }
        }
        log.push((home, q.answer(home, &w)));
    }
    worn(q, rng, &w, tours, &mut log);
    log
}

/// Objects asked very many questions, and then what they were asked before; and the same question very often.
fn worn(q: &Requests, rng: &mut Rng, w: &World, tours: usize, log: &mut Vec<(usize, String)>) {
    let asked: Vec<usize> = (0..q.asks.len()).filter(|&i| q.things[i] != Thing::Nothing).collect();
    let (objects, chats) = (100 * tours.max(1), 3000);
    for o in 0..objects {
        // every kind of object, and every book and interpolator
        let class = |t: Thing| match t {
            Thing::Nothing => 0,
            Thing::Cal(_) => 1,
            Thing::Curve(k, _) => 2 + k,
            Thing::Bond(k, ..) => 9 + k,
            Thing::Fit(single, kind, _) => 16 + kind * 2 + single as usize,
        };
        let want = 1 + o % 23;
        let mut pick;
        loop {
            pick = asked[rng.below(asked.len() as u64) as usize];
            if class(q.things[pick]) == want {
                break;
            }
        }
        let t = q.things[pick];
        let same: Vec<usize> = asked.iter().copied().filter(|&i| q.things[i] == t).collect();
        let few: Vec<usize> = (0..12).map(|_| same[rng.below(same.len() as u64) as usize]).collect();
        few.iter().for_each(|&i| log.push((i, q.answer(i, w))));
        for _ in 0..chats {
            w.chat(t, rng);
        }
        few.iter().for_each(|&i| log.push((i, q.answer(i, w))));
    }
    // what is new is noted, and the last answer
    for _ in 0..16 * tours.max(1) {
        let i = rng.below(q.asks.len() as u64) as usize;
        let first = q.answer(i, w);
        log.push((i, first.clone()));
        let mut noted = 0;
        for k in 0..70_000 {
            let a = q.answer(i, w);
            if k == 69_999 || noted < 3 && a != first {
                noted += 1;
                log.push((i, a));
            }
        }
    }
}

pub fn c24(out: &mut Out) {
    let q = requests(None);
    let alone = all_alone(&q);
    let (tours, visits) = if quick() { (1, 4000) } else { (6, 60_000) };
    let mut logs = vec![("one user", client(&q, &mut Rng::new("C24"), tours, visits))];
    // users at the same time, none of whom shares anything with another
    let crowd: Vec<_> = std::thread::scope(|s| {
        let q = &Shared;
        let t: Vec<_> = (0..4).map(|u| s.spawn(move || q.client(u, tours - tours / 2 - 1, visits / 2))).collect();
        t.into_iter().map(|t| t.join().expect("a user's thread")).collect()
    });
    for (u, log) in crowd.into_iter().enumerate() {
        logs.push((["first of many", "second of many", "third of many", "fourth of many"][u], log));
    }
    let mut ev: Vec<Vec<J>> = alone.iter().map(|a| vec![obj! {"by": "alone", "turn": 0, "ans": a.as_str()}]).collect();
    for (by, log) in &logs {
        for (turn, (i, a)) in log.iter().enumerate() {
            ev[*i].push(obj! {"by": *by, "turn": turn, "ans": a.as_str()});
        }
    }
    // a few requests together in one history
    for i in (0..ev.len()).step_by(8) {
        let hi = (i + 8).min(ev.len());
        let all: Vec<J> = (i..hi)
            .flat_map(|k| {
                ev[k].drain(..).map(move |e| {
                    let J::O(mut o) = e else { unreachable!() };
                    o.push(("q", J::from(k - i + 1)));
                    J::O(o)
                }).collect::<Vec<_>>()
            })
            .collect();
        let names: Vec<J> = q.names[i..hi].iter().map(|n| J::from(n.as_str())).collect();
        out.history(obj! {"asks": J::A(names)}, all);
    }
}

/// Every thread has requests and objects of its own.
struct Shared;
impl Shared {
    fn client(&self, u: u64, tours: usize, visits: usize) -> Vec<(usize, String)> {
        client(&requests(None), &mut Rng::new(&format!("C24 user {u}")), tours, visits)
    }
}
