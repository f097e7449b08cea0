//! C25: behaviours of the specification carried out on the real library, its results going on as inputs.
use crate::curve::{plus, Dc, It};
use crate::dates::{err_kind, hash, mk, opt, Own};
use crate::interp::{ierr, Any, Float};
use crate::util::{dyadic, guard, Out, J};
use crate::arr;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar as Base;
use chrono::{Datelike, NaiveDate};
use qlab_error::QLabResult;
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use qlab_time::period::{days::Days, months::Months, years::Years, Period};

// ------------------------------------------------------------------ reading scripts
/// Just enough JSON for what TLC prints.
struct Reader<'a>(&'a [u8], usize);
impl Reader<'_> {
    fn skip(&mut self) {
        while self.1 < self.0.len() && (self.0[self.1] as char).is_whitespace() {
            self.1 += 1;
        }
    }
    fn take(&mut self, c: u8) -> bool {
        self.skip();
        let hit = self.0.get(self.1) == Some(&c);
        self.1 += usize::from(hit);
        hit
    }
    fn text(&mut self) -> String {
        assert!(self.take(b'"'));
        let a = self.1;
        while self.0[self.1] != b'"' {
            self.1 += 1;
        }
        self.1 += 1;
        String::from_utf8(self.0[a..self.1 - 1].to_vec()).unwrap()
    }
    fn value(&mut self) -> J {
        self.skip();
        match self.0[self.1] {
            b'"' => J::S(self.text()),
            b'[' => {
                self.1 += 1;
                let mut v = vec![];
                while !self.take(b']') {
                    v.push(self.value());
                    self.take(b',');
                }
                J::A(v)
            }
            b'{' => {
                self.1 += 1;
                let mut v: Vec<(&'static str, J)> = vec![];
                while !self.take(b'}') {
                    let k = self.text();
                    assert!(self.take(b':'));
                    v.push((k.leak(), self.value()));
                    self.take(b',');
                }
                J::O(v)
            }
            _ => {
                let a = self.1;
                while self.1 < self.0.len() && (self.0[self.1] == b'-' || self.0[self.1].is_ascii_digit()) {
                    self.1 += 1;
                }
                J::I(std::str::from_utf8(&self.0[a..self.1]).unwrap().parse().expect("a number"))
            }
        }
    }
}
fn at<'a>(j: &'a J, k: &str) -> &'a J {
    match j {
        J::O(v) => &v.iter().find(|(n, _)| *n == k).unwrap_or_else(|| panic!("no {k}")).1,
        _ => panic!("not an object"),
    }
}
fn list(j: &J) -> &[J] {
    match j {
        J::A(v) => v,
        _ => panic!("not a list"),
    }
}
fn int(j: &J) -> i64 {
    match j {
        J::I(i) => *i,
        _ => panic!("not a number"),
    }
}
fn word(j: &J) -> &str {
    match j {
        J::S(s) => s,
        _ => panic!("not a word"),
    }
}

// ------------------------------------------------------------------ calendars
#[derive(Debug, Clone)]
struct Fives;
impl Base for Fives {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        date.num_days_from_ce() % 5 != 0
    }
}
#[derive(Debug, Clone)]
struct December;
impl Base for December {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        !(date.month() == 12 && date.day() >= 12 || date.month() == 1 && date.day() <= 2)
    }
}

trait Job {
    type Out;
    fn run<C: Base>(self, c: &C) -> Self::Out;
}
fn with<T: Job>(name: &str, job: T) -> T::Out {
    use calendar::{japan::Japan, target::Target, unitedkingdom::*, unitedstates::*, weekendsonly::WeekendsOnly};
    let nyse = UnitedStates { market: Some(UnitedStatesMarket::NYSE) };
    match name {
        "weekends" => job.run(&WeekendsOnly),
        "target" => job.run(&Target),
        "nyse" => job.run(&nyse),
        "london" => job.run(&UnitedKingdom { market: Some(UnitedKingdomMarket::Exchange) }),
        "japan" => job.run(&Japan),
        "fives" => job.run(&Fives),
        "december" => job.run(&December),
        "target+nyse" => job.run(&JointCalendar::new(Target, nyse)),
        "fives+japan" => job.run(&JointCalendar::new(Fives, Japan)),
        "fives+weekends" => job.run(&JointCalendar::new(Fives, WeekendsOnly)),
        _ => panic!("unknown calendar {name}"),
    }
}
fn civil(d: Date) -> NaiveDate {
    NaiveDate::from_ymd_opt(d.year(), d.month(), d.day()).unwrap()
}
fn dated(d: NaiveDate) -> Date {
    mk(d.year(), d.month(), d.day())
}

enum Per {
    D(i64),
    M(i64),
    Y(i64),
    U(Own),
}
fn rolling(name: &str) -> DateRolling {
    match name {
        "Unadjusted" => DateRolling::Unadjusted,
        "Following" => DateRolling::Following,
        "ModifiedFollowing" => DateRolling::ModifiedFollowing,
        "Preceding" => DateRolling::Preceding,
        "ModifiedPreceding" => DateRolling::ModifiedPreceding,
        _ => panic!("unknown convention"),
    }
}
struct Roll<'a>(Date, &'a Per, DateRolling);
impl Job for Roll<'_> {
    type Out = Option<Date>;
    fn run<C: Base>(self, c: &C) -> Option<Date> {
        match *self.1 {
            Per::D(n) => self.0.checked_roll(Days::new(n as u64), c, self.2),
            Per::M(n) => self.0.checked_roll(Months::new(n as u32), c, self.2),
            Per::Y(n) => self.0.checked_roll(Years::new(n as i32), c, self.2),
            Per::U(own) => self.0.checked_roll(own, c, self.2),
        }
    }
}
struct EndOfMonth(Date);
impl Job for EndOfMonth {
    type Out = Date;
    fn run<C: Base>(self, c: &C) -> Date {
        dated(c.end_of_month(civil(self.0)))
    }
}
struct Open(Date);
impl Job for Open {
    type Out = bool;
    fn run<C: Base>(self, c: &C) -> bool {
        qlab_time::calendar::Calendar::is_business_day(c, self.0)
    }
}
struct Count(Date, Date, Option<bool>, Option<bool>);
impl Job for Count {
    type Out = i64;
    fn run<C: Base>(self, c: &C) -> i64 {
        c.business_days_between(civil(self.0), civil(self.1), self.2, self.3).into()
    }
}

// ------------------------------------------------------------------ objects
trait Curve<V: Float> {
    fn df(&self, a: Date, b: Date) -> QLabResult<V>;
    fn price(&self, b: &Bond<V>, d: Date) -> QLabResult<V>;
}
impl<V: Float, D: Dc, I: It<Value = V>> Curve<V> for YieldCurve<D, I> {
    fn df(&self, a: Date, b: Date) -> QLabResult<V> {
        self.discount_factor(a, b)
    }
    fn price(&self, b: &Bond<V>, d: Date) -> QLabResult<V> {
        b.discounted_value(d, self)
    }
}
fn quoted<V: Float + 'static, D: Dc + 'static, I: It<Value = V> + 'static>(s: Date, mats: &[Date], ys: &[V]) -> QLabResult<Box<dyn Curve<V>>> {
    Ok(Box::new(YieldCurve::<D, I>::new(s, mats, ys)?))
}
fn curve<V: Float + 'static>(dc: &str, kind: &str, s: Date, mats: &[Date], ys: &[V]) -> QLabResult<Box<dyn Curve<V>>> {
    match (dc, kind) {
        ("act360", "linear") => quoted::<V, Act360, Linear<V>>(s, mats, ys),
        ("act365", "linear") => quoted::<V, Act365, Linear<V>>(s, mats, ys),
        ("thirty360", "linear") => quoted::<V, Thirty360, Linear<V>>(s, mats, ys),
        ("act360", "natural") => quoted::<V, Act360, NaturalCubic<V>>(s, mats, ys),
        ("act365", "natural") => quoted::<V, Act365, NaturalCubic<V>>(s, mats, ys),
        ("thirty360", "natural") => quoted::<V, Thirty360, NaturalCubic<V>>(s, mats, ys),
        _ => panic!("unknown curve"),
    }
}

struct World<V: Float> {
    days: Vec<Date>,
    nums: Vec<V>,
    curves: [Option<Box<dyn Curve<V>>>; 2],
    bonds: [Option<Bond<V>>; 2],
    models: [Any<V>; 2],
}
/// What an action gave; Lost: the rest of the script makes no sense any more (the answer was wrong).
enum Gave<V> {
    Day(Option<Option<Date>>),
    Int(Option<i64>),
    Num(Option<QLabResult<V>>),
    Value(Option<Result<V, J>>),
    Obj(J),
    Lost,
}

impl<V: Float + 'static> World<V> {
    fn given(&self, x: &J) -> V {
        let x = list(x);
        match word(&x[0]) {
            "is" => V::of(int(&x[1]) as f64 * (-int(&x[2]) as f64).exp2()),
            _ => self.nums[int(&x[1]) as usize - 1],
        }
    }
    fn day(&self, a: &J, k: &str) -> Date {
        self.days[int(at(a, k)) as usize - 1]
    }
    fn ahead(d: Date, n: i64) -> Option<Date> {
        if n >= 0 {
            d.checked_add_months(Months::new(n as u32))
        } else {
            plus(d, -n)
        }
    }
    /// the day n months (or -n days) ahead, rolled
    fn rolled(a: &J, d: Date, n: i64) -> Option<Date> {
        with(word(at(a, "cal")), Roll(d, &if n >= 0 { Per::M(n) } else { Per::D(-n) }, rolling(word(at(a, "conv")))))
    }
    fn act(&mut self, a: &J) -> Gave<V> {
        let n = |k| int(at(a, k));
        let to = || int(at(a, "to")) as usize - 1;
        match word(at(a, "op")) {
            "addD" => {
                let (d, p) = (self.day(a, "a"), Days::new(n("n") as u64));
                Gave::Day(guard(|| if n("n") % 2 == 0 { d.checked_add_days(p) } else { p.checked_add(d) }))
            }
            "subD" => Gave::Day(guard(|| self.day(a, "a").checked_sub_days(Days::new(n("n") as u64)))),
            "addM" => {
                let (d, p) = (self.day(a, "a"), Months::new(n("n") as u32));
                Gave::Day(guard(|| if n("n") % 2 == 0 { d.checked_add_months(p) } else { p.checked_add(d) }))
            }
            "subM" => Gave::Day(guard(|| self.day(a, "a").checked_sub_months(Months::new(n("n") as u32)))),
            "addY" => {
                let (d, p) = (self.day(a, "a"), Years::new(n("n") as i32));
                Gave::Day(guard(|| if n("n") % 2 == 0 { d.checked_add_years(p) } else { p.checked_add(d) }))
            }
            "weekend" => Gave::Day(guard(|| self.day(a, "a").weekend_roll())),
            "succ" => Gave::Day(guard(|| self.day(a, "a").succ_opt())),
            "pred" => Gave::Day(guard(|| self.day(a, "a").pred_opt())),
            "roll" => {
                let p = list(at(a, "per"));
                let p = match word(&p[0]) {
                    "addD" => Per::D(int(&p[1])),
                    "addM" => Per::M(int(&p[1])),
                    "addY" => Per::Y(int(&p[1])),
                    "month end" => Per::U(Own::MonthEnd(int(&p[1]) as u32)),
                    "third Wednesday" => Per::U(Own::ThirdWednesday(int(&p[1]) as u32)),
                    "weeks" => Per::U(Own::Weeks(int(&p[1]) as u32)),
                    "back" => Per::U(Own::Back(int(&p[1]) as u32)),
                    p => panic!("unknown period {p}"),
                };
                Gave::Day(guard(|| with(word(at(a, "cal")), Roll(self.day(a, "a"), &p, rolling(word(at(a, "conv")))))))
            }
            "eom" => Gave::Day(guard(|| Some(with(word(at(a, "cal")), EndOfMonth(self.day(a, "a")))))),
            "diff" => Gave::Int(guard(|| self.day(a, "a") - self.day(a, "b"))),
            "order" => Gave::Int(guard(|| self.day(a, "a").cmp(&self.day(a, "b")) as i64)),
            "same" => Gave::Int(guard(|| {
                let (d, fresh) = (self.day(a, "a"), dated(civil(self.day(a, "a"))));
                (d == fresh && fresh == d && hash(d) == hash(fresh) && d.cmp(&fresh).is_eq() && d - fresh == 0 && fresh - d == 0).into()
            })),
            "open" => Gave::Int(guard(|| with(word(at(a, "cal")), Open(self.day(a, "a"))).into())),
            "count" => {
                let flag = |k| [Some(false), Some(true), None][n(k) as usize];
                Gave::Int(guard(|| with(word(at(a, "cal")), Count(self.day(a, "a"), self.day(a, "b"), flag("f"), flag("l")))))
            }
            "frac" => {
                let (x, y) = (self.day(a, "a"), self.day(a, "b"));
                Gave::Num(guard(|| match word(at(a, "dc")) {
                    "act360" => Act360::calculate_day_count_fraction::<V>(x, y),
                    "act365" => Act365::calculate_day_count_fraction::<V>(x, y),
                    _ => Thirty360::calculate_day_count_fraction::<V>(x, y),
                }))
            }
            "curve" => {
                let s = self.day(a, "a");
                let mats: Option<Vec<Date>> = guard(|| list(at(a, "mats")).iter().map(|m| Self::rolled(a, s, int(m))).collect()).flatten();
                let Some(mats) = mats else { return Gave::Lost };
                let ys: Vec<V> = list(at(a, "ys")).iter().map(|y| self.given(y)).collect();
                let made = guard(|| curve(word(at(a, "dc")), word(at(a, "kind")), s, &mats, &ys));
                Gave::Obj(match made {
                    None => arr!["panic"],
                    Some(Ok(c)) => {
                        self.curves[to()] = Some(c);
                        arr!["ok"]
                    }
                    Some(Err(e)) => arr!["err", err_kind(&e)],
                })
            }
            "bond" => {
                let issue = self.day(a, "a");
                let first = if n("m") == 0 { Some(self.day(a, "b")) } else { guard(|| Self::rolled(a, issue, n("m"))).flatten() };
                let Some(first) = first else { return Gave::Lost };
                let Some(pen) = guard(|| Self::ahead(first, 6 * (n("n") - 1))).flatten() else { return Gave::Lost };
                let Some(mat) = guard(|| Self::rolled(a, pen, n("rest"))).flatten() else { return Gave::Lost };
                let (rate, face) = (self.given(at(a, "rate")), self.given(at(a, "face")));
                let made = guard(|| Bond::new("b", issue, first, pen, mat, Frequency::SA, rate, face));
                Gave::Obj(match made {
                    None => arr!["panic"],
                    Some(b) => {
                        let r = arr![if b.is_some() { "some" } else { "none" }];
                        self.bonds[to()] = b;
                        r
                    }
                })
            }
            "df" => match &self.curves[n("k") as usize - 1] {
                None => Gave::Lost,
                Some(c) => Gave::Num(guard(|| c.df(self.day(a, "a"), self.day(a, "b")))),
            },
            "price" => match (&self.curves[n("k") as usize - 1], &self.bonds[n("j") as usize - 1]) {
                (Some(c), Some(b)) => Gave::Num(guard(|| c.price(b, self.day(a, "a")))),
                _ => Gave::Lost,
            },
            "fit" => {
                let all = |k| list(at(a, k)).iter().map(|x| self.given(x)).collect::<Vec<V>>();
                let (xs, ys) = (all("xs"), all("ys"));
                let pts: Vec<(V, V)> = xs.iter().copied().zip(ys.iter().copied()).collect();
                let kind = word(at(a, "kind"));
                let ss = if kind == "hermite" { all("ss") } else { vec![] };
                let old = std::mem::replace(&mut self.models[to()], Any::None);
                let made = guard(|| match (kind, old) {
                    // what is already there takes the new data
                    ("linear", Any::Linear(i)) => i.try_fit(&pts).map(Any::Linear),
                    ("linear", _) => Linear::default().try_fit(&pts).map(Any::Linear),
                    ("natural", Any::Natural(i)) => i.try_fit(&pts).map(Any::Natural),
                    ("natural", _) => NaturalCubic::default().try_fit(&pts).map(Any::Natural),
                    ("hermite", _) => {
                        let pts: Vec<(V, V, V)> = pts.iter().zip(&ss).map(|(p, s)| (p.0, p.1, *s)).collect();
                        Hermite::try_new(&pts).map(Any::Hermite)
                    }
                    _ => panic!("unknown interpolator {kind}"),
                });
                Gave::Obj(match made {
                    None => arr!["panic"],
                    Some(Ok(i)) => {
                        self.models[to()] = i;
                        arr!["ok"]
                    }
                    Some(Err(e)) => ierr(e),
                })
            }
            "ask" => {
                let x = self.given(at(a, "x"));
                match &self.models[n("k") as usize - 1] {
                    Any::Linear(i) => Gave::Value(guard(|| i.try_value(x).map_err(ierr))),
                    Any::Natural(i) => Gave::Value(guard(|| i.try_value(x).map_err(ierr))),
                    Any::Hermite(i) => Gave::Value(guard(|| i.try_value(x).map_err(ierr))),
                    _ => Gave::Lost,
                }
            }
            op => panic!("unknown action {op}"),
        }
    }
}

fn carry_out<V: Float + 'static>(out: &mut Out, script: &J) {
    let days = list(at(script, "days")).iter().map(|d| mk(int(&list(d)[0]) as i32, int(&list(d)[1]) as u32, int(&list(d)[2]) as u32)).collect();
    let mut w = World::<V> { days, nums: vec![], curves: [None, None], bonds: [None, None], models: [Any::None, Any::None] };
    w.nums = list(at(script, "nums")).iter().map(|x| w.given(x)).collect();
    let mut ev = vec![];
    for a in list(at(script, "acts")) {
        let gave = w.act(a);
        let r = match &gave {
            Gave::Day(d) => opt(*d),
            Gave::Int(i) => i.map_or(i64::from(i32::MIN + 1), |i| i.clamp(-2_000_000_000, 2_000_000_000)).into(),
            Gave::Num(None) => arr!["panic"],
            Gave::Num(Some(Ok(v))) => arr!["ok", dyadic(v.f64())],
            Gave::Num(Some(Err(e))) => arr!["err", err_kind(e)],
            Gave::Value(None) => arr!["panic"],
            Gave::Value(Some(Ok(v))) => arr!["ok", dyadic(v.f64())],
            Gave::Value(Some(Err(e))) => e.clone(),
            Gave::Obj(j) => j.clone(),
            Gave::Lost => arr!["lost"],
        };
        let J::O(mut e) = a.clone() else { panic!("not an action") };
        e.push(("r", r));
        ev.push(J::O(e));
        match gave {
            Gave::Day(Some(Some(d))) => w.days[int(at(a, "to")) as usize - 1] = d,
            Gave::Num(Some(Ok(v))) | Gave::Value(Some(Ok(v))) => w.nums[int(at(a, "to")) as usize - 1] = v,
            Gave::Lost => break,
            _ => {}
        }
    }
    let J::O(h) = script else { panic!("not a script") };
    out.history(J::O(h.iter().filter(|(k, _)| *k != "acts").cloned().collect()), ev);
}

pub fn c25(out: &mut Out) {
    let path = std::env::var("SCRIPTS").expect("SCRIPTS");
    let text = std::fs::read_to_string(path).expect("scripts");
    for line in text.lines() {
        let script = Reader(line.as_bytes(), 0).value();
        match word(at(&script, "prec")) {
            "f64" => carry_out::<f64>(out, &script),
            _ => carry_out::<f32>(out, &script),
        }
    }
}
