//! C19-C21: bonds, observed through probe curves.
use crate::curve::{plus, res};
use crate::dates::{mk, random_date, ymd, MAX_YEAR, MIN_YEAR};
use crate::interp::Float;
use crate::spy::{self, Cfg, Mode, Spy};
use crate::util::{dyadic, guard, quick, Out, Rng, J};
use crate::{arr, obj};
use qlab_instrument::bond::Bond;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::act_365::Act365;
use qlab_time::frequency::Frequency;
use qlab_time::period::months::Months;

type Probe<V> = YieldCurve<Act365, Spy<V>>;

#[derive(Clone, Copy, Debug)]
pub struct Terms {
    pub issue: Date,
    pub first: Date,
    pub pen: Date,
    pub mat: Date,
    pub rate: f64,
    pub face: f64,
}

pub fn build<V: Float>(id: &str, t: &Terms) -> Option<Option<Bond<V>>> {
    guard(|| Bond::new(id, t.issue, t.first, t.pen, t.mat, Frequency::SA, V::of(t.rate), V::of(t.face)))
}

fn probe<V: Float>(settle: Date, cfg: Cfg) -> Option<Probe<V>> {
    spy::set(Cfg { base: settle.serial_date().into(), ..cfg });
    guard(|| Probe::<V>::new(settle, &[], &[]).ok()).flatten()
}

fn value<V: Float>(b: &Bond<V>, settle: Date, c: &Probe<V>) -> Option<Result<V, qlab_error::QLabError>> {
    guard(|| b.discounted_value(settle, c))
}

/// The days (serial numbers, ascending) a valuation asks the curve about.
fn asked_days(base: Date) -> Vec<i64> {
    let base = i64::from(base.serial_date());
    let mut v: Vec<i64> = spy::ASKED.with(|a| a.borrow().iter().map(|t| base + (t * 365.0).round() as i64).collect());
    v.sort_unstable();
    v.dedup();
    v
}

/// The payment days seen from a settlement date and the amount paid on each.
fn isolate<V: Float>(b: &Bond<V>, settle: Date) -> Option<Vec<(i64, f64)>> {
    let c = probe::<V>(settle, Cfg { mode: Mode::Poly(0.0, 0.0, 0.0), ..Cfg::default() })?;
    value(b, settle, &c)?.ok()?;
    let mut v = vec![];
    for d in asked_days(settle) {
        spy::set(Cfg { mode: Mode::Select(d), base: settle.serial_date().into(), ..Cfg::default() });
        let x = value(b, settle, &c)?.ok()?.f64();
        if x != 0.0 {
            v.push((d, x));
        }
    }
    Some(v)
}

fn day_of(serial: i64, base: Date) -> J {
    plus(base, serial - i64::from(base.serial_date())).map_or(arr![0, 0, 0], ymd)
}

pub fn terms_event<V: Float>(t: &Terms, made: &Option<Option<Bond<V>>>) -> J {
    let r = match made {
        None => "panic",
        Some(None) => "none",
        Some(Some(_)) => "some",
    };
    obj! {
        "op": "new", "issue": ymd(t.issue), "first": ymd(t.first), "pen": ymd(t.pen), "mat": ymd(t.mat),
        "rate": dyadic(V::of(t.rate).f64()), "face": dyadic(V::of(t.face).f64()), "res": r,
    }
}

fn months(d: Date, k: i64) -> Option<Date> {
    if k >= 0 {
        d.checked_add_months(Months::new(k as u32))
    } else {
        d.checked_sub_months(Months::new(k.unsigned_abs() as u32))
    }
}

/// A schedule from its first coupon date; every combination of short, regular and long end periods.
pub fn schedule(rng: &mut Rng, first: Date, coupons: i64, head: u64, tail: u64) -> Option<Terms> {
    let pen = months(first, 6 * (coupons - 1))?;
    let prior = months(first, -6)?;
    let issue = match head {
        0 => prior,
        1 => plus(first, -rng.range(1, 180))?,
        2 => plus(prior, -rng.range(1, 183))?,
        3 => plus(first, -1)?,
        4 => plus(prior, -1)?,
        5 => plus(prior, 1)?,
        6 => months(first, -12)?,
        _ => plus(months(first, -12)?, -rng.range(1, 500))?,
    };
    let regular = months(pen, 6)?;
    let mat = match tail {
        0 => regular,
        1 => plus(pen, rng.range(3, 180))?,
        2 => plus(regular, rng.range(1, 183))?,
        3 => plus(pen, 4)?,
        4 => plus(regular, -1)?,
        5 => plus(regular, 1)?,
        6 => months(pen, 12)?,
        _ => plus(months(pen, 12)?, rng.range(1, 500))?,
    };
    Some(Terms { issue, first, pen, mat, rate: 0.05, face: 100.0 })
}

/// First coupon dates: month ends, leap days, weekends, ordinary days.
fn firsts(rng: &mut Rng) -> Vec<Date> {
    let mut v = vec![];
    for (y, m) in [(2023, 8), (2024, 2), (2020, 2), (1999, 8), (2100, 8), (2023, 3), (2023, 5), (2023, 12), (2022, 6)] {
        for d in [1, 15, 27, 28, 29, 30, 31] {
            v.extend(Date::from_ymd(y, m, d));
        }
    }
    for _ in 0..(if quick() { 40 } else { 400 }) {
        v.push(random_date(rng, 1930, 2120));
    }
    v
}

pub fn c19(out: &mut Out) {
    fn scan<V: Float>(out: &mut Out, t: &Terms) {
        let made = build::<V>("b", t);
        let mut ev = vec![terms_event::<V>(t, &made)];
        if let Some(Some(b)) = &made {
            if t.issue < t.first && t.pen <= t.mat {
                let Some(paid) = isolate(b, t.issue) else {
                    ev.push(obj! {"op": "scan", "settle": ymd(t.issue), "paid": arr!["panic"]});
                    out.history(obj! {"prec": V::NAME}, ev);
                    return;
                };
                ev.push(obj! {
                    "op": "scan", "settle": ymd(t.issue),
                    "paid": arr!["ok", J::A(paid.iter().map(|p| day_of(p.0, t.issue)).collect())],
                });
                // around every payment: from which settlement date on is the flow gone
                let n = paid.len();
                for (i, p) in paid.iter().enumerate() {
                    if n > 12 && i > 3 && i + 4 < n && i % 7 != 0 {
                        continue;
                    }
                    for back in (0..4).rev() {
                        let Some(s) = plus(t.issue, p.0 - back - i64::from(t.issue.serial_date())) else { continue };
                        if s < t.issue {
                            continue;
                        }
                        let e = match isolate(b, s) {
                            None => obj! {"op": "drop", "settle": ymd(s), "n": -1, "next": arr![]},
                            Some(v) => obj! {
                                "op": "drop", "settle": ymd(s), "n": v.len(),
                                "next": v.first().map_or(arr![], |f| day_of(f.0, s)),
                            },
                        };
                        ev.push(e);
                    }
                }
            }
        }
        out.history(obj! {"prec": V::NAME}, ev);
    }
    let rng = &mut Rng::new("C19");
    for (k, f) in firsts(rng).into_iter().enumerate() {
        for n in [1, 2, 3, 4, 9, 41] {
            if n == 41 && k % (if quick() { 12 } else { 3 }) != 0 {
                continue;
            }
            let (h, l) = (rng.below(8), rng.below(8));
            let n = if n == 41 && k % 24 == 0 { *rng.pick(&[120, 200, 301]) } else { n };
            if let Some(t) = schedule(rng, f, n, h, l) {
                if k % 4 == 3 {
                    scan::<f32>(out, &t);
                } else {
                    scan::<f64>(out, &t);
                }
                // a penultimate date that is not itself a coupon date, before or after the day of the month
                let off = rng.range(-170, 170);
                if let Some(pen) = plus(t.pen, off) {
                    if pen >= f {
                        if let Some(mat) = plus(pen, rng.range(0, 400)) {
                            scan::<f64>(out, &Terms { pen, mat, ..t });
                        }
                    }
                }
                for d in [-1, 1] {
                    if let Some(pen) = plus(t.pen, d) {
                        scan::<f64>(out, &Terms { pen, mat: plus(pen, 200).unwrap(), ..t });
                    }
                }
                // maturity on, just after the penultimate date
                for d in [0, 1, 2] {
                    scan::<f64>(out, &Terms { mat: plus(t.pen, d).unwrap(), ..t });
                }
            }
        }
        // no regular coupon, and orders that make no sense
        let far = plus(f, 700).unwrap();
        for (a, b, c, d) in [(0, 10, 9, 20), (0, 200, -5, 300), (10, 10, 200, 400), (50, 10, 200, 400), (0, 200, 400, 300), (0, 0, 0, 0), (400, 300, 200, 100)] {
            let at = |k: i64| plus(f, k).unwrap_or(far);
            let t = Terms { issue: at(a), first: at(b), pen: at(c), mat: at(d), rate: 0.03, face: 1.0 };
            let made = build::<f64>("x", &t);
            out.history(obj! {"prec": "f64"}, vec![terms_event::<f64>(&t, &made)]);
        }
    }
    // the ends of the representable range
    let lo = mk(MIN_YEAR, 1, 1);
    let hi = mk(MAX_YEAR, 12, 31);
    for q in 0..(if quick() { 400 } else { 4000 }) {
        let step = |rng: &mut Rng| *rng.pick(&[0i64, 1, 2, 3, 30, 100, 170, 181, 182, 183, 184, 185, 200, 364, 365, 366, 367, 400]);
        let t = if q % 2 == 0 {
            let mat = plus(hi, -step(rng)).unwrap();
            let pen = plus(mat, -step(rng)).unwrap();
            let first = plus(pen, -step(rng) * rng.range(0, 2)).unwrap();
            Terms { issue: plus(first, -step(rng) - 1).unwrap(), first, pen, mat, rate: 0.04, face: 10.0 }
        } else {
            let issue = plus(lo, step(rng)).unwrap();
            let first = plus(issue, step(rng) + 1).unwrap();
            let pen = plus(first, step(rng) * 2).unwrap();
            Terms { issue, first, pen, mat: plus(pen, step(rng)).unwrap(), rate: 0.04, face: 10.0 }
        };
        scan::<f64>(out, &t);
    }
}

pub fn c20(out: &mut Out) {
    fn amounts<V: Float>(out: &mut Out, t: &Terms) {
        let made = build::<V>("b", t);
        let mut ev = vec![terms_event::<V>(t, &made)];
        if let Some(Some(b)) = &made {
            let a = isolate(b, t.issue);
            ev.push(obj! {
                "op": "amounts",
                "a": a.map_or(arr!["panic"], |v| arr!["ok", J::A(v.iter().map(|p| dyadic(p.1).into()).collect())]),
            });
        }
        out.history(obj! {"prec": V::NAME}, ev);
    }
    let rng = &mut Rng::new("C20");
    for f in firsts(rng) {
        for head in 0..8 {
            for tail in 0..8 {
                if quick() && (head + tail + u64::from(f.day())) % 2 == 0 && head > 2 && tail > 2 {
                    continue;
                }
                let n = rng.range(1, 6);
                if let Some(mut t) = schedule(rng, f, n, head, tail) {
                    t.rate = *rng.pick(&[0.05, 0.0625, 0.001, 0.12, -0.01, 0.0, 1.0 / 3.0, 1.5, 5.0]);
                    t.face = *rng.pick(&[100.0, 1000.0, 1.0, 0.37, 1e6, 1e10, -100.0]);
                    if rng.below(4) == 0 {
                        amounts::<f32>(out, &t);
                    } else {
                        amounts::<f64>(out, &t);
                    }
                    if (head + tail) % 3 == 0 {
                        // a penultimate date off the schedule: the last period is counted from it
                        if let Some(pen) = plus(t.pen, rng.range(5, 170)) {
                            let mat = plus(pen, rng.range(4, 500)).unwrap();
                            amounts::<f64>(out, &Terms { pen, mat, ..t });
                        }
                    }
                    if tail == 0 {
                        amounts::<f64>(out, &Terms { mat: t.pen, ..t });
                    }
                }
            }
        }
    }
    // many coupons
    for (k, n) in [(0, 60), (1, 100), (2, 25)] {
        if let Some(t) = schedule(rng, mk(2019, 8, 31 - k), n, 1, 2) {
            amounts::<f64>(out, &t);
        }
    }
}

pub fn c21(out: &mut Out) {
    fn life<V: Float>(out: &mut Out, rng: &mut Rng, id: &str, t: &Terms) {
        let made = build::<V>(id, t);
        let mut ev = vec![terms_event::<V>(t, &made)];
        let Some(Some(b)) = &made else {
            out.history(obj! {"prec": V::NAME}, ev);
            return;
        };
        let paid: Vec<i64> = isolate(b, t.issue).unwrap_or_default().iter().map(|p| p.0).collect();
        let base = i64::from(t.issue.serial_date());
        let mut settles: Vec<Date> = vec![t.issue, t.mat, plus(t.mat, 1).unwrap(), plus(t.mat, -1).unwrap(), plus(t.mat, 900).unwrap()];
        // between the last coupons and the maturity
        settles.extend((-4..=4).filter_map(|d| plus(t.pen, d)));
        for _ in 0..7 {
            if let Some(&p) = paid.get(rng.below(paid.len().max(1) as u64) as usize) {
                for d in [-3, -2, -1, 0, 1] {
                    settles.push(plus(t.issue, p - base + d).unwrap());
                }
            }
            settles.push(plus(t.issue, rng.range(0, t.mat - t.issue)).unwrap());
        }
        for i in (1..settles.len()).rev() {
            let j = rng.below(i as u64 + 1) as usize;
            settles.swap(i, j);
        }
        let span = (t.mat - t.issue) as f64 / 365.0;
        let mut past: Vec<(Date, Date, i64, f64, f64, &'static str)> = vec![];
        for s in settles {
            let q = if past.len() > 4 && rng.below(4) == 0 {
                *rng.pick(&past)
            } else {
                // the curve may settle before, on or after the bond
                let cs = match rng.below(4) {
                    0 => plus(s, -rng.range(1, 200)).unwrap(),
                    1 => plus(s, rng.range(1, 300)).unwrap(),
                    _ => s,
                };
                let hi = if rng.below(4) == 0 { span * rng.unit() + 0.000_37 } else { f64::INFINITY };
                let val = *rng.pick(&["lower", "upper", "order", "few"]);
                // a curve that starts late, often after the bond's settlement date
                let lo = if rng.below(5) == 0 { span * rng.unit() * 0.7 + 0.000_41 } else { f64::NEG_INFINITY };
                (s, cs, rng.range(1, 900), lo, hi, val)
            };
            let (s, cs, k, lo, hi, val) = q;
            past.push(q);
            let (lo, hi) = (V::of(lo).f64(), V::of(hi).f64());
            let Some(c) = probe::<V>(cs, Cfg { mode: Mode::Hash(k), lo, hi, val, ..Cfg::default() }) else { continue };
            spy::ASKED.with(|a| a.borrow_mut().clear());
            let r = value(b, s, &c);
            let days = asked_days(cs);
            let dfs: Vec<J> = days
                .iter()
                .filter_map(|&d| plus(cs, d - i64::from(cs.serial_date())))
                .filter_map(|d| match guard(|| c.discount_factor(s, d)) {
                    Some(Ok(v)) => Some(arr![ymd(d), dyadic(v.f64())]),
                    _ => None,
                })
                .collect();
            ev.push(obj! {
                "op": "value", "settle": ymd(s), "cs": ymd(cs), "k": k, "lo": dyadic(lo), "hi": dyadic(hi), "val": val, "dfs": J::A(dfs), "res": res(r),
            });
            if rng.below(5) == 0 {
                ev.push(obj! {"op": "id", "want": id, "got": guard(|| b.bond_id().to_string()).unwrap_or("panic".into())});
            }
        }
        out.history(obj! {"prec": V::NAME}, ev);
    }
    let rng = &mut Rng::new("C21");
    let ids = ["20 yr bond", "", "JGB 10Y #371", "国債", "id with  two  spaces ", "a long name, a long name, a long name, a long name, a long name, a long name, a long name, a long name"];
    for k in 0..(if quick() { 160 } else { 1600 }) {
        // regular periods on a day of the month every month has
        let y = rng.range(1960, 2060) as i32;
        let first = mk(y, rng.range(1, 12) as u32, rng.range(1, 28) as u32);
        let n = if k % 80 == 7 { 290 } else if k % 10 == 0 { 40 } else { rng.range(1, 12) };
        let Some(mut t) = schedule(rng, first, n, 0, 0) else { continue };
        if k % 4 == 2 {
            // a last period that ends within days of the last coupon, which may be paid on the same day or later
            t.mat = plus(t.pen, rng.range(0, 4)).unwrap();
        }
        t.rate = *rng.pick(&[0.05, 0.0625, 0.12, -0.01, 0.3, 0.0, 2.0]);
        t.face = *rng.pick(&[100.0, 1000.0, 1.0, 1e6, 0.0, 1e10, -50.0]);
        if k % 4 == 3 {
            life::<f32>(out, rng, ids[k % ids.len()], &t);
        } else {
            life::<f64>(out, rng, ids[k % ids.len()], &t);
        }
    }
}

/// Bonds of very many coupons: beyond every count that fits eight or sixteen bits (TLongBond.tla).
pub fn long(out: &mut Out, prop: &str) {
    fn life<V: Float>(out: &mut Out, rng: &mut Rng, prop: &str, n: i64, t: &Terms) {
        let made = build::<V>("long", t);
        let mut ev = vec![terms_event::<V>(t, &made)];
        if let Some(Some(b)) = &made {
            let mut places: Vec<i64> = vec![0, 1, 2, n / 3, n - 2, n - 1, n];
            for edge in [128, 256, 512, 1024, 4096, 32_768, 65_536] {
                places.extend([edge - 2, edge - 1, edge, edge + 1]);
            }
            places.push(rng.range(1, n - 1));
            places.retain(|k| (0..=n).contains(k));
            places.sort_unstable();
            places.dedup();
            let few = if quick() && n > 2000 { 12 } else { 200 };
            while places.len() > few {
                let k = rng.below(places.len() as u64) as usize;
                places.remove(k);
            }
            for k in places {
                // the k-th coupon (from nought); the maturity after the last
                let Some(due) = (if k < n { months(t.first, 6 * k) } else { Some(t.mat) }) else { continue };
                let Some(pay) = (if k < n { due.weekend_roll() } else { Some(due) }) else { continue };
                if prop == "C21L" {
                    for d in [-1, 0, 1] {
                        let Some(s) = plus(due, d) else { continue };
                        if s < t.issue {
                            continue;
                        }
                        let sum = probe::<V>(s, Cfg::default()).and_then(|c| value(b, s, &c));
                        ev.push(obj! {"op": "all", "settle": ymd(s), "sum": res(sum)});
                    }
                    continue;
                }
                let settle = match rng.below(3) {
                    0 => t.issue,
                    1 => plus(pay, -rng.range(3, 170)).unwrap().max(t.issue),
                    _ => months(t.first, 6 * rng.range(0, k.max(1) - 1)).unwrap_or(t.issue),
                };
                for d in if prop == "C19L" { vec![-2, -1, 0, 1, 2, 90] } else { vec![0] } {
                    let Some(day) = plus(pay, d) else { continue };
                    if day <= settle {
                        continue;
                    }
                    let cfg = Cfg { mode: Mode::Select(day.serial_date().into()), ..Cfg::default() };
                    let x = probe::<V>(settle, cfg).and_then(|c| value(b, settle, &c)).and_then(Result::ok).map(Float::f64);
                    ev.push(if prop == "C19L" {
                        obj! {"op": "any", "settle": ymd(settle), "day": ymd(day), "any": x.is_some_and(|x| x != 0.0)}
                    } else {
                        obj! {"op": "on", "settle": ymd(settle), "day": ymd(day), "amt": x.map_or("panic".to_string(), dyadic)}
                    });
                }
            }
        }
        out.history(obj! {"prec": V::NAME}, ev);
    }
    let rng = &mut Rng::new(prop);
    for n in if quick() { vec![130, 258, 270, 700, 1030, 4100, 66_000] } else { vec![130, 258, 270, 700, 1030, 4100, 33_000, 66_000, 131_100] } {
        for day in [31, 30, 29, 12] {
            if n > 2000 && quick() && day < 31 {
                continue;
            }
            let first = mk(rng.range(1950, 2030) as i32, 8, day);
            let head = rng.below(8);
            let Some(mut t) = schedule(rng, first, n, head, 0) else { continue };
            t.rate = *rng.pick(&[0.05, 0.0625, 0.12, -0.01, 2.0]);
            t.face = *rng.pick(&[100.0, 1000.0, 1.0, 1e6]);
            life::<f64>(out, rng, prop, n, &t);
            if n < 300 {
                life::<f32>(out, rng, prop, n, &t);
            }
        }
    }
}
