//! C17, C18: yield curves.
use crate::dates::{err_kind, mk, random_date, ymd};
use crate::interp::Float;
use crate::spy::{self, Cfg, Mode, Picky, Spy, Square};
use crate::util::{dyadic, guard, quick, Out, Rng, J};
use crate::{arr, obj};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::days::Days;

pub trait Dc: DayCount {
    const NAME: &'static str;
}
macro_rules! dc {
    ($($t:ty, $n:literal);*) => { $(impl Dc for $t { const NAME: &'static str = $n; })* };
}
dc!(Act360, "act360"; Act365, "act365"; Thirty360, "thirty360"; Square, "square"; Picky, "picky");

pub trait It: Interpolator {
    const KIND: &'static str;
}
impl<V: Float> It for Spy<V> {
    const KIND: &'static str = "poly";
}
impl<V: Float> It for Linear<V> {
    const KIND: &'static str = "linear";
}
impl<V: Float> It for NaturalCubic<V> {
    const KIND: &'static str = "natural";
}
impl<V: Float> It for CatmullRom<V> {
    const KIND: &'static str = "catmull";
}

pub fn plus(d: Date, n: i64) -> Option<Date> {
    if n >= 0 {
        d.checked_add_days(Days::new(n as u64))
    } else {
        d.checked_sub_days(Days::new(n.unsigned_abs()))
    }
}

pub fn res<V: Float>(r: Option<Result<V, qlab_error::QLabError>>) -> J {
    match r {
        None => arr!["panic"],
        Some(Ok(v)) => arr!["ok", dyadic(v.f64())],
        Some(Err(e)) => arr!["err", err_kind(&e), e.to_string()],
    }
}

fn bound(x: f64) -> String {
    dyadic(x)
}

/// The life of one curve: its construction and questions about pairs of days.
fn life<V: Float, D: Dc, I: It<Value = V>>(
    out: &mut Out,
    cfg: &Cfg,
    s: Date,
    mats: &[Date],
    ys: &[f64],
    asks: &[(Date, Date)],
    judge: &str,
) {
    spy::set(Cfg { base: s.serial_date().into(), ..cfg.clone() });
    let yv: Vec<V> = ys.iter().map(|&y| V::of(y)).collect();
    let made = guard(|| YieldCurve::<D, I>::new(s, mats, &yv));
    let c = match &cfg.mode {
        Mode::Poly(a, b, c) => arr![dyadic(V::of(*a).f64()), dyadic(V::of(*b).f64()), dyadic(V::of(*c).f64())],
        _ => arr![],
    };
    let head = obj! {
        "prec": V::NAME, "dc": D::NAME, "kind": I::KIND, "c": c, "lo": bound(cfg.lo), "hi": bound(cfg.hi),
        "fit": cfg.fit, "judge": judge,
    };
    // what the day count and the interpolator answer when asked directly
    let direct = |d: Date| guard(|| D::calculate_day_count_fraction::<V>(s, d));
    let time_j = |r: &Option<Result<V, qlab_error::QLabError>>| match r {
        Some(Ok(t)) => arr!["ok", dyadic(t.f64())],
        Some(Err(e)) => arr!["err", err_kind(e)],
        None => arr!["err", "panic"],
    };
    let times: Vec<_> = mats.iter().map(|&d| direct(d)).collect();
    let tj: Vec<J> = times.iter().map(|t| time_j(t)).collect();
    let points: Vec<(V, V)> =
        times.iter().zip(&yv).filter_map(|(t, &y)| t.as_ref().and_then(|t| t.as_ref().ok()).map(|&t| (t, y))).collect();
    let alone = guard(|| I::default().try_fit(&points).ok()).flatten();
    let yield_j = |t: &Option<Result<V, qlab_error::QLabError>>| match (&alone, t) {
        (Some(i), Some(Ok(t))) => match guard(|| i.try_value(*t)) {
            Some(Ok(y)) => arr!["ok", dyadic(y.f64())],
            _ => arr!["err"],
        },
        _ => arr!["err"],
    };
    let mut ev = vec![];
    let mj: Vec<J> = mats.iter().map(|&d| ymd(d)).collect();
    let yj: Vec<J> = yv.iter().map(|y| dyadic(y.f64()).into()).collect();
    let outcome = match &made {
        None => arr!["panic"],
        Some(Ok(_)) => arr!["ok"],
        Some(Err(e)) => arr!["err", err_kind(e), e.to_string()],
    };
    ev.push(obj! {"op": "new", "s": ymd(s), "mats": mj, "ys": yj, "res": outcome, "times": tj, "fits": alone.is_some()});
    // another curve of the kind, asked the same just before
    let other: Vec<V> = ys.iter().rev().map(|&y| V::of(y + 0.01)).collect();
    let other = if I::KIND == "poly" { None } else { guard(|| YieldCurve::<D, I>::new(s, mats, &other).ok()).flatten() };
    if let Some(Ok(curve)) = &made {
        for (k, &(a, b)) in asks.iter().enumerate() {
            if let Some(other) = &other {
                let _ = guard(|| other.discount_factor(a, b).is_ok());
            }
            let r = guard(|| curve.discount_factor(a, b));
            let mut held = J::A(vec![]);
            if k == 0 && I::KIND == "poly" {
                if let Some(h) = spy::HELD.with(|h| h.borrow().clone()) {
                    held = arr![J::A(h.iter().map(|p| arr![dyadic(p.0), dyadic(p.1)]).collect())];
                }
            }
            let t = [direct(a), direct(b)];
            ev.push(obj! {
                "op": "df", "a": ymd(a), "b": ymd(b), "res": res(r), "held": held,
                "t": arr![time_j(&t[0]), time_j(&t[1])], "y": arr![yield_j(&t[0]), yield_j(&t[1])],
            });
        }
    }
    out.history(head, ev);
}

fn settles(rng: &mut Rng) -> Vec<Date> {
    let mut v = vec![mk(2024, 1, 31), mk(2023, 2, 28), mk(2020, 2, 29), mk(1999, 12, 31), mk(2023, 10, 10), mk(2019, 8, 30)];
    for _ in 0..(if quick() { 6 } else { 40 }) {
        v.push(random_date(rng, 1950, 2080));
    }
    v
}

fn schedule(rng: &mut Rng, s: Date, n: usize, first: i64) -> Vec<Date> {
    let mut d = first;
    let mut v = vec![];
    for i in 0..n {
        v.push(plus(s, d).unwrap());
        // at least two days apart, so that no two maturities share a 30/360 fraction
        d += if i % 3 == 2 { rng.range(300, 900) } else { rng.range(3, 120) };
    }
    v
}

fn yields(rng: &mut Rng, n: usize, neg: bool) -> Vec<f64> {
    let mut y = 0.01 + 0.03 * rng.unit();
    (0..n)
        .map(|_| {
            y += 0.006 * (rng.unit() - 0.45);
            if neg {
                y - 0.04
            } else {
                y
            }
        })
        .collect()
}

/// Level stretches, levels no market has seen, and levels that hardly differ.
fn odd_yields(rng: &mut Rng, n: usize, style: usize) -> Vec<f64> {
    let a = 0.03 * rng.unit();
    let mut y = a;
    (0..n)
        .map(|i| match style % 7 {
            0 => {
                if i % 4 == 1 {
                    y = 0.05 * rng.unit();
                }
                y
            }
            1 => -0.45 + 0.4 * rng.unit(),
            2 => 0.3 + rng.unit(),
            3 => a,
            4 => 0.0,
            5 => a + 1e-6 * rng.unit(),
            _ => a + 0.002 * i as f64 + if i % 5 == 4 { 1e-7 } else { 0.0 },
        })
        .collect()
}

/// The days a whole number of periods ahead.
fn anniversaries(s: Date, n: usize, from: u32, months: u32) -> Vec<Date> {
    use qlab_time::period::months::Months;
    (0..n as u32).map(|i| s.checked_add_months(Months::new((from + i) * months)).unwrap()).collect()
}

fn asks(rng: &mut Rng, s: Date, mats: &[Date], inside: bool) -> Vec<(Date, Date)> {
    let first = if inside { mats[0] } else { s };
    let last = mats[mats.len() - 1];
    let span = last - first;
    let mut days: Vec<Date> = mats.to_vec();
    for _ in 0..5 {
        days.push(plus(first, rng.range(0, span)).unwrap());
    }
    days.sort_unstable();
    let mut v = vec![];
    for (i, &a) in days.iter().enumerate() {
        v.push((s, a));
        if i % 3 == 0 {
            v.push((a, a));
        }
        for _ in 0..2 {
            let b = days[i + rng.below((days.len() - i) as u64) as usize];
            v.push((a, b));
        }
        if i % 4 == 1 {
            // an adjoining pair and the whole
            let b = days[i + (days.len() - i) / 3];
            let c = days[days.len() - 1];
            v.extend([(a, b), (b, c), (a, c)]);
        }
    }
    v
}

pub fn c17(out: &mut Out) {
    fn spies<V: Float, D: Dc>(out: &mut Out, rng: &mut Rng) {
        for (k, s) in settles(rng).into_iter().enumerate() {
            let n = [1, 2, 4, 9, 0][k % 5];
            let mut mats = schedule(rng, s, n.max(1), [0, 1, 30, 365][k % 4]);
            if k % 3 == 1 {
                mats.reverse();
            }
            if k % 3 == 2 && n > 2 {
                // the interpolator sees the given order, also with a maturity given twice
                mats.swap(0, n / 2);
                mats[1] = mats[0];
            }
            // decades, where the yields keep the factors within the number types' reach
            let far = plus(s, if D::NAME != "square" && k % 4 < 2 { [4000, 25_000][k / 4 % 2] } else { 4000 }).unwrap();
            let q = asks(rng, s, &[s, plus(s, 1).unwrap(), plus(s, 365).unwrap(), far], false);
            let mode = match k % 4 {
                0 => Mode::Poly(0.0375, 0.0, 0.0),
                1 => Mode::Poly(0.01, 0.004, 0.0),
                2 => Mode::Poly(-0.02, 0.01, -0.0003),
                _ => Mode::Poly(rng.unit() * 0.1, rng.unit() * 0.01, rng.unit() * 0.001),
            };
            mats.truncate(n);
            let ys = yields(rng, n, k % 2 == 1);
            life::<V, D, Spy<V>>(out, &Cfg { mode, ..Cfg::default() }, s, &mats, &ys, &q, "value");
            // levels no market has seen
            let q = asks(rng, s, &[s, plus(s, 1).unwrap(), plus(s, 365).unwrap(), plus(s, 3650).unwrap()], false);
            let ys = odd_yields(rng, n, k);
            let mode = [Mode::Poly(-0.35, 0.0, 0.0), Mode::Poly(1.25, -0.01, 0.0), Mode::Poly(0.0, 0.0, 0.0)][k % 3].clone();
            life::<V, D, Spy<V>>(out, &Cfg { mode, ..Cfg::default() }, s, &mats, &ys, &q[..q.len().min(12)], "value");
        }
    }
    fn real<V: Float, D: Dc, I: It<Value = V>>(out: &mut Out, rng: &mut Rng) {
        for (k, s) in settles(rng).into_iter().enumerate() {
            let n = if k == 7 { 40 } else { 3 + k % 7 };
            let m = schedule(rng, s, n, [0, 1, 30, 91][k % 4]);
            let ys = yields(rng, n, k % 3 == 1);
            let q = asks(rng, s, &m, true);
            life::<V, D, I>(out, &Cfg::default(), s, &m, &ys, &q, "value");
            let n = 3 + (k + 4) % 8;
            let m = anniversaries(s, n, (k % 2) as u32, [12, 6, 1, 3][k % 4]);
            let ys = odd_yields(rng, n, k);
            let mut q = asks(rng, s, &m, true);
            if quick() {
                q.truncate(24);
            }
            life::<V, D, I>(out, &Cfg::default(), s, &m, &ys, &q, "value");
        }
    }
    // more maturities than eight bits count
    fn long<V: Float, D: Dc, I: It<Value = V>>(out: &mut Out, rng: &mut Rng, n: i64, apart: i64) {
        let s = mk(rng.range(2000, 2030) as i32, 8, 31);
        let mats: Vec<Date> = (1..=n).map(|k| plus(s, k * apart + k % 3).unwrap()).collect();
        let ys: Vec<f64> = (0..n).map(|k| (k * k % 53) as f64 / 1024.0).collect();
        let mut q = asks(rng, s, &[s, mats[0], mats[5], mats[254], mats[255], mats[256], mats[n as usize - 2]], true);
        q.truncate(60);
        life::<V, D, I>(out, &Cfg { mode: Mode::Poly(0.01, 0.004, 0.0), ..Cfg::default() }, s, &mats, &ys, &q, "value");
    }
    fn all<V: Float>(out: &mut Out) {
        let rng = &mut Rng::new(&format!("C17{}", V::NAME));
        long::<V, Act365, Spy<V>>(out, rng, 300, 37);
        long::<V, Thirty360, Linear<V>>(out, rng, 270, 37);
        long::<V, Act360, NaturalCubic<V>>(out, rng, 270, 30);
        if V::NAME == "f64" {
            long::<V, Act365, Spy<V>>(out, rng, 1100, 7);
            long::<V, Act365, Linear<V>>(out, rng, 1100, 7);
        }
        spies::<V, Act360>(out, rng);
        spies::<V, Act365>(out, rng);
        spies::<V, Thirty360>(out, rng);
        spies::<V, Square>(out, rng);
        real::<V, Act360, Linear<V>>(out, rng);
        real::<V, Act365, Linear<V>>(out, rng);
        real::<V, Thirty360, Linear<V>>(out, rng);
        real::<V, Act365, NaturalCubic<V>>(out, rng);
        real::<V, Thirty360, NaturalCubic<V>>(out, rng);
        real::<V, Square, Linear<V>>(out, rng);
        real::<V, Act365, CatmullRom<V>>(out, rng);
    }
    all::<f64>(out);
    all::<f32>(out);
}

pub fn c18(out: &mut Out) {
    fn spies<V: Float, D: Dc>(out: &mut Out, rng: &mut Rng) {
        // every pair of small lengths, every way the fit may fail
        let s = mk(2023, 5, 12);
        for lm in 0..5usize {
            for ly in 0..5usize {
                for fit in ["", "order", "few"] {
                    let mut m = schedule(rng, s, lm, 5);
                    if lm > 1 && (lm + ly) % 2 == 1 {
                        m[lm - 1] = mk(2030, 6, 13);
                    }
                    if lm > 2 && ly % 3 == 1 {
                        m[1] = plus(s, -40).unwrap();
                    }
                    let ys = yields(rng, ly, false);
                    let q = [(s, plus(s, 9).unwrap())];
                    let cfg = Cfg { mode: Mode::Poly(0.02, 0.0, 0.0), fit, ..Cfg::default() };
                    life::<V, D, Spy<V>>(out, &cfg, s, &m, &ys, &q, "outcome");
                }
            }
        }
        // lengths that differ by a power of two, or by one when they are long
        for (lm, ly) in [(256, 0), (0, 256), (257, 1), (44, 300), (40, 41), (41, 40), (130, 130)] {
            let m: Vec<Date> = (0..lm).map(|k| plus(s, 1 + k as i64).unwrap()).collect();
            let m: Vec<Date> = m.into_iter().map(|d| if d.day() == 13 { plus(d, 1).unwrap() } else { d }).collect();
            let cfg = Cfg { mode: Mode::Poly(0.02, 0.0, 0.0), ..Cfg::default() };
            life::<V, D, Spy<V>>(out, &cfg, s, &m, &yields(rng, ly, false), &[(s, plus(s, 9).unwrap())], "outcome");
        }
        for s in settles(rng) {
            for fit in ["", "lower", "upper"] {
                let mut m = schedule(rng, s, 3, 0);
                m.reverse();
                let q = all_pairs(rng, s, if quick() { 9 } else { 14 });
                // bounds that no day count can hit exactly
                let lo = *rng.pick(&[f64::NEG_INFINITY, -0.500_017, 0.010_003_1]);
                let hi = *rng.pick(&[f64::INFINITY, 1.234_567_1, 0.300_012_3]);
                let val = *rng.pick(&["lower", "upper", "order", "few"]);
                let cfg = Cfg { mode: Mode::Poly(0.02, 0.001, 0.0), lo, hi, fit, val, base: 0 };
                life::<V, D, Spy<V>>(out, &cfg, s, &m, &[0.01, 0.02, 0.03], &q, "outcome");
            }
        }
    }
    fn real<V: Float, D: Dc, I: It<Value = V>>(out: &mut Out, rng: &mut Rng) {
        for (k, s) in settles(rng).into_iter().enumerate() {
            for n in 0..6usize {
                let mut m = schedule(rng, s, n, [0, 1, 30, 91][k % 4]);
                if n > 1 && k % 3 == 2 {
                    let i = rng.below(n as u64 - 1) as usize;
                    m.swap(i, i + 1);
                }
                let ys = yields(rng, if k % 5 == 4 { n + 1 } else { n }, k % 3 == 1);
                let mut q = all_pairs(rng, s, 7);
                if let (Some(&a), Some(&b)) = (m.first(), m.last()) {
                    for (x, y) in [(a, b), (s, a), (s, b), (a, a), (b, b), (b, a)] {
                        for (i, j) in [(0, 0), (-1, 0), (0, 1), (1, -1)] {
                            if let (Some(x), Some(y)) = (plus(x, i), plus(y, j)) {
                                q.push((x, y));
                            }
                        }
                    }
                }
                life::<V, D, I>(out, &Cfg::default(), s, &m, &ys, &q, "outcome");
                // a settlement that comes after maturities, all of them, or on the last
                if let (Some(&a), Some(&b)) = (m.first(), m.last()) {
                    let late = [plus(b, 3), plus(b, 0), plus(b, -1), plus(a, 1)][(k + n) % 4].unwrap();
                    let mut q = all_pairs(rng, late, 3);
                    q.extend([(late, b), (b, late), (late, late), (a, b)]);
                    life::<V, D, I>(out, &Cfg::default(), late, &m, &ys, &q, "outcome");
                }
            }
        }
    }
    fn all<V: Float>(out: &mut Out) {
        let rng = &mut Rng::new(&format!("C18{}", V::NAME));
        spies::<V, Act360>(out, rng);
        spies::<V, Act365>(out, rng);
        spies::<V, Thirty360>(out, rng);
        spies::<V, Picky>(out, rng);
        real::<V, Act365, Linear<V>>(out, rng);
        real::<V, Thirty360, Linear<V>>(out, rng);
        real::<V, Act360, NaturalCubic<V>>(out, rng);
        real::<V, Picky, Linear<V>>(out, rng);
        real::<V, Act365, CatmullRom<V>>(out, rng);
    }
    all::<f64>(out);
    all::<f32>(out);
}

/// Pairs in both orders of days around the settlement date, near and far.
fn all_pairs(rng: &mut Rng, s: Date, n: usize) -> Vec<(Date, Date)> {
    let mut days: Vec<Date> = [-1, 0, 1].iter().filter_map(|&k| plus(s, k)).collect();
    while days.len() < n {
        let k = match days.len() % 4 {
            0 => rng.range(-400, -1),
            1 => rng.range(1, 60),
            2 => rng.range(60, 500),
            _ => rng.range(400, 9000),
        };
        days.extend(plus(s, k));
    }
    // a 13th, which some day counts refuse
    if let Some(d) = Date::from_ymd(s.year() + 1, 1 + (rng.below(12) as u32), 13) {
        days.push(d);
    }
    let mut v = vec![];
    for &a in &days {
        for &b in &days {
            v.push((a, b));
        }
    }
    // shuffled: a failing question must not spoil later ones
    for i in (1..v.len()).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    v
}
