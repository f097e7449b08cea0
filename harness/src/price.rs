//! C23: from quotes to price, on the library's own curves.
use crate::bond::{build, schedule, terms_event, Terms};
use crate::curve::{plus, res, Dc, It};
use crate::dates::{err_kind, mk, ymd};
use crate::interp::Float;
use crate::util::{dyadic, guard, quick, Out, Rng, J};
use crate::{arr, obj};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360};
use qlab_time::period::months::Months;

/// One bond on a few curves, valued on many days of its life.
fn market<V: Float, D: Dc, I: It<Value = V>>(out: &mut Out, rng: &mut Rng, t: &Terms, quotes: &[(Date, Vec<Date>, Vec<f64>)]) {
    let made = build::<V>("b", t);
    let mut ev = vec![terms_event::<V>(t, &made)];
    let mut curves = vec![];
    let price = |k: usize, d: Date, c: &YieldCurve<D, I>| match &made {
        Some(Some(b)) => vec![obj! {"op": "price", "k": k + 1, "settle": ymd(d), "res": res(guard(|| b.discounted_value(d, c)))}],
        _ => vec![],
    };
    for (k, (s, mats, ys)) in quotes.iter().enumerate() {
        let yv: Vec<V> = ys.iter().map(|&y| V::of(y)).collect();
        let c = guard(|| YieldCurve::<D, I>::new(*s, mats, &yv));
        let r = match &c {
            None => arr!["panic"],
            Some(Ok(_)) => arr!["ok"],
            Some(Err(e)) => arr!["err", err_kind(e)],
        };
        let mj: Vec<J> = mats.iter().map(|&d| ymd(d)).collect();
        let yj: Vec<J> = yv.iter().map(|y| dyadic(y.f64()).into()).collect();
        ev.push(obj! {"op": "quote", "s": ymd(*s), "mats": mj, "ys": yj, "res": r});
        let Some(Ok(c)) = c else { continue };
        let mut days: Vec<Date> = vec![*s, plus(*s, 1).unwrap(), plus(t.mat, -1).unwrap(), t.mat, plus(t.mat, 3).unwrap()];
        days.push(plus(*s, -rng.range(1, 60)).unwrap());
        days.push(mats[rng.below(mats.len() as u64) as usize]);
        for _ in 0..4 {
            days.push(plus(*s, rng.range(0, (t.mat - *s).max(1))).unwrap());
            // near a coupon
            let k = rng.below(12) as u32 * 6;
            if let Some(d) = t.first.checked_add_months(qlab_time::period::months::Months::new(k)) {
                if d <= t.mat {
                    days.push(plus(d, rng.range(-3, 2)).unwrap());
                }
            }
        }
        // every day around a coupon due on a weekend
        let due: Vec<Date> = (0..24u32)
            .filter_map(|i| t.first.checked_add_months(Months::new(6 * i)))
            .filter(|d| *d <= t.pen && *d > *s && [0, 6].contains(&d.serial_date().rem_euclid(7)))
            .collect();
        if !due.is_empty() {
            let d = *rng.pick(&due);
            days.extend((-1..=2).filter_map(|k| plus(d, k)));
        }
        for &d in &days {
            ev.extend(price(k, d, &c));
        }
        curves.push((k, days, c));
    }
    // all the curves in turns
    if curves.len() > 1 {
        for _ in 0..6 {
            let (k, days, c) = rng.pick(&curves);
            let d = *rng.pick(&curves[0].1);
            ev.extend(price(*k, if rng.coin() { d } else { *rng.pick(days) }, c));
        }
    }
    out.history(obj! {"prec": V::NAME, "dc": D::NAME, "kind": I::KIND}, ev);
}

fn quotes(rng: &mut Rng, t: &Terms) -> Vec<(Date, Vec<Date>, Vec<f64>)> {
    let mut v = vec![];
    let life = t.mat - t.issue;
    for k in 0..3 {
        // the day the curve settles: about the issue, or later in the bond's life
        let s = match k {
            0 => plus(t.issue, -rng.range(0, 40)).unwrap(),
            1 => t.issue,
            _ => plus(t.issue, rng.range(1, life - 1)).unwrap(),
        };
        let n = rng.range(3, 11) as usize;
        // from the first day (or soon after) to past the maturity, or not quite
        let end = (t.mat - s) + if rng.below(5) == 0 { -rng.range(1, 300) } else { rng.range(0, 900) };
        let start = *rng.pick(&[0, 0, 0, 1, 30]);
        if end - start < 4 * n as i64 {
            continue;
        }
        // short at the near end, long at the far end; four days apart at least
        let mut mats = vec![];
        for i in 0..n {
            let f = i as f64 / (n - 1) as f64;
            let f = if rng.below(4) == 0 { f } else { f * f };
            let d = start + ((end - start) as f64 * f) as i64;
            let least = mats.last().map_or(d, |&p: &i64| p + 4);
            mats.push(d.max(least));
        }
        // on the coupon days, or whole years from the settlement
        let round = rng.below(4);
        if round < 2 {
            let (from, months) = if round == 0 { (t.first, 6) } else { (s, 12) };
            let days: Vec<i64> = (0..30u32)
                .map(|i| from.checked_add_months(Months::new(i * months)).unwrap() - s)
                .filter(|d| *d >= 0)
                .take(n.max(4))
                .collect();
            if days.len() > 3 {
                mats = days;
            }
        }
        let a = 0.03 * rng.unit();
        let shape = rng.below(8);
        let ys = mats
            .iter()
            .enumerate()
            .map(|(i, _)| match shape {
                0 => 0.04,
                1 => 0.01 + 0.004 * i as f64,
                2 => 0.05 - 0.006 * i as f64,
                3 => a + 0.01 * (i / 3) as f64,
                4 => -0.2 + 0.15 * rng.unit(),
                5 => a + 1e-6 * rng.unit(),
                6 if life < 6000 => 0.4 + rng.unit(),
                _ => 0.02 + 0.02 * (rng.unit() - 0.4),
            })
            .collect();
        v.push((s, mats.iter().map(|&d| plus(s, d).unwrap()).collect(), ys));
    }
    v
}

pub fn c23(out: &mut Out) {
    let rng = &mut Rng::new("C23");
    // the README's example
    let t = Terms { issue: mk(2023, 5, 8), first: mk(2023, 11, 7), pen: mk(2042, 5, 7), mat: mk(2042, 11, 7), rate: 0.062, face: 1000.0 };
    let mats: Vec<Date> = [(2023, 11, 7), (2024, 5, 7), (2024, 11, 7), (2026, 5, 7), (2030, 11, 7), (2042, 11, 7)].iter().map(|&(y, m, d)| mk(y, m, d)).collect();
    let q = vec![(mk(2023, 10, 10), mats, vec![0.02, 0.0219, 0.0237, 0.025, 0.031, 0.0346])];
    market::<f64, Act365, NaturalCubic<f64>>(out, rng, &t, &q);
    market::<f64, Act365, Linear<f64>>(out, rng, &t, &q);
    for k in 0..(if quick() { 110 } else { 1200 }) {
        let first = mk(rng.range(1960, 2060) as i32, rng.range(1, 12) as u32, rng.range(1, 28) as u32);
        let first = match k % 5 {
            0 => plus(first, 3).unwrap(),
            // late in a month
            1 | 3 => (0..).find_map(|back| Date::from_ymd(first.year(), first.month(), 31 - (k % 3) - back)).unwrap(),
            _ => first,
        };
        let n = if k % 55 == 9 { 140 } else if k % 11 == 0 { 40 } else { rng.range(1, 12) };
        let (h, l) = (rng.below(8), rng.below(8));
        let Some(mut t) = schedule(rng, first, n, h, l) else { continue };
        t.rate = *rng.pick(&[0.05, 0.0625, 0.12, -0.01, 0.3, 0.0]);
        t.face = *rng.pick(&[100.0, 1000.0, 1.0, 1e6]);
        if k % 7 == 3 {
            // the last coupon on a weekend, the maturity within days of it
            let off = (6 - t.first.serial_date() % 7).rem_euclid(7) + (k % 2) as i32;
            let first = plus(t.first, off.into()).unwrap();
            t = Terms { first, pen: first, mat: plus(first, rng.range(0, 3)).unwrap(), ..t };
            t.rate = 0.3;
        }
        let q = quotes(rng, &t);
        match k % 8 {
            0 => market::<f64, Act360, Linear<f64>>(out, rng, &t, &q),
            1 => market::<f64, Act365, Linear<f64>>(out, rng, &t, &q),
            2 => market::<f64, Thirty360, Linear<f64>>(out, rng, &t, &q),
            3 => market::<f64, Act360, NaturalCubic<f64>>(out, rng, &t, &q),
            4 => market::<f64, Act365, NaturalCubic<f64>>(out, rng, &t, &q),
            5 => market::<f64, Thirty360, NaturalCubic<f64>>(out, rng, &t, &q),
            6 => market::<f32, Act365, Linear<f32>>(out, rng, &t, &q),
            _ => market::<f32, Act360, NaturalCubic<f32>>(out, rng, &t, &q),
        }
    }
}
