//! C22: errors by hand, errors injected below curves and bonds, errors of number types.
use crate::curve::plus;
use crate::dates::{mk, random_date, ymd};
use crate::interp::Float;
use crate::tight::{Tight, LIMIT};
use crate::util::{guard, quick, Out, Rng, J};
use crate::{arr, obj};
use qlab_error::{ComputeError, ErrString, InterpolationError, QLabError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::frequency::Frequency;
use std::borrow::Cow;
use std::cell::RefCell;
use std::error::Error;
use std::fmt::Display;

fn texts() -> Vec<&'static str> {
    let mut v = TEXTS.to_vec();
    // long ones, of letters of one to four bytes
    for (unit, n) in [("a", 63), ("b ", 40), ("\u{e9}", 80), ("\u{56fd}x", 300), ("\u{1f4b6}", 33), ("line\n", 60), ("0123456789", 1000), (" ", 70)] {
        v.push(Box::leak(unit.repeat(n).into_boxed_str()));
    }
    v.extend(["a ", " a", "\t", "a\n", "\u{0}", "\u{feff}x", "e\u{301}", "A", "ERROR", "error: "]);
    v
}
const TEXTS: [&str; 12] = [
    "", " ", "x", "0", "maturities", "two words", "{0}", "{}", "%s {1}", "d1: 2023-01-02 must be smaller", "satz \u{fc}ber \u{56fd}\u{50b5}", "line\nbreak \"quoted\" \\",
];

fn compute(kind: &str, data: &str) -> ComputeError {
    match kind {
        "ZeroDivisionError" => ComputeError::ZeroDivisionError,
        "CastNumberError" => ComputeError::CastNumberError(data.to_string().into()),
        "InvalidInput" => ComputeError::InvalidInput(data.to_string().into()),
        _ => ComputeError::InterpolationError,
    }
}
fn parts(e: &ComputeError) -> (&'static str, String) {
    match e {
        ComputeError::ZeroDivisionError => ("ZeroDivisionError", String::new()),
        ComputeError::CastNumberError(s) => ("CastNumberError", s.as_ref().to_string()),
        ComputeError::InvalidInput(s) => ("InvalidInput", s.as_ref().to_string()),
        ComputeError::InterpolationError => ("InterpolationError", String::new()),
    }
}
/// The texts of the errors below this one, as error reporters print them.
fn below(e: &dyn Error) -> J {
    let mut v = vec![];
    let mut s = e.source();
    while let Some(x) = s {
        v.push(J::from(x.to_string()));
        s = x.source();
    }
    J::A(v)
}
fn see_compute(e: &ComputeError) -> J {
    let (k, d) = parts(e);
    obj! {"kind": k, "data": d, "text": e.to_string(), "below": below(e)}
}
fn see(e: &QLabError) -> J {
    let QLabError::ComputeError(c) = e;
    let (k, d) = parts(c);
    obj! {"kind": k, "data": d, "text": e.to_string(), "below": below(e)}
}
fn see_interp<V: Display + std::fmt::Debug + 'static>(e: &InterpolationError<V>) -> J {
    let (k, d) = match e {
        InterpolationError::PointOrderError => ("order", String::new()),
        InterpolationError::OutOfLowerBound(v) => ("lower", v.to_string()),
        InterpolationError::OutOfUpperBound(v) => ("upper", v.to_string()),
        InterpolationError::InsufficientPointsError(n) => ("few", n.to_string()),
    };
    obj! {"kind": k, "data": d, "text": e.to_string(), "below": below(e)}
}
fn interp<V>(kind: &str, v: V, n: usize) -> InterpolationError<V> {
    match kind {
        "order" => InterpolationError::PointOrderError,
        "lower" => InterpolationError::OutOfLowerBound(v),
        "upper" => InterpolationError::OutOfUpperBound(v),
        _ => InterpolationError::InsufficientPointsError(n),
    }
}
fn nothing(kind: &str) -> bool {
    matches!(kind, "ZeroDivisionError" | "InterpolationError" | "order")
}

fn by_hand(out: &mut Out) {
    let head = || obj! {"what": "hand"};
    for t in texts() {
        let made: Vec<ErrString> = vec![
            ErrString::from(t),
            ErrString::from(t.to_string()),
            ErrString::from(Cow::Borrowed(t)),
            ErrString::from(Cow::<'static, str>::Owned(t.to_string())),
        ];
        let ev = made
            .iter()
            .map(|s| {
                let r: &str = s.as_ref();
                let d: &str = s;
                obj! {"op": "string", "text": t, "bytes": t.len(), "ref": r, "deref": d, "show": s.to_string(), "len": s.len()}
            })
            .collect();
        out.history(head(), ev);
    }
    // compute errors, and on through every conversion there is
    for k in ["ZeroDivisionError", "CastNumberError", "InvalidInput", "InterpolationError"] {
        for t in texts() {
            let data = if nothing(k) { "" } else { t };
            for how in ["from", "question", "variant", "result"] {
                let mut ev = vec![obj! {"op": "make", "kind": k, "data": data, "got": see_compute(&compute(k, data))}];
                let q: QLabError = match how {
                    "from" => QLabError::from(compute(k, data)),
                    "variant" => QLabError::ComputeError(compute(k, data)),
                    "question" => {
                        let f = || -> QLabResult<()> {
                            Err(compute(k, data))?;
                            Ok(())
                        };
                        f().unwrap_err()
                    }
                    _ => {
                        let r: Result<(), ComputeError> = Err(compute(k, data));
                        r.map_err(QLabError::from).unwrap_err()
                    }
                };
                ev.push(obj! {"op": "rise", "how": how, "got": see(&q)});
                // and through a caller that only forwards it
                let g = |e: QLabError| -> QLabResult<()> {
                    Err(e)?;
                    Ok(())
                };
                let q2 = g(q).unwrap_err();
                ev.push(obj! {"op": "rise", "how": "forwarded", "got": see(&q2)});
                out.history(head(), ev);
            }
        }
    }
    // interpolation errors of several number types
    fn kinds<V: Display + std::fmt::Debug + PartialEq + Clone + 'static>(out: &mut Out, values: &[V]) {
        for k in ["order", "lower", "upper", "few"] {
            for (i, v) in values.iter().enumerate() {
                let n = [0, 1, 2, 3, 17, 1000][i % 6];
                let e = interp(k, v.clone(), n);
                let data = match k {
                    "order" => String::new(),
                    "few" => n.to_string(),
                    _ => v.to_string(),
                };
                let mut ev = vec![obj! {"op": "make", "kind": k, "data": data.clone(), "got": see_interp(&e)}];
                for k2 in ["order", "lower", "upper", "few"] {
                    for (j, w) in values.iter().enumerate() {
                        let n2 = [0, 1, 2, 3, 17, 1000][j % 6];
                        let d2 = match k2 {
                            "order" => String::new(),
                            "few" => n2.to_string(),
                            _ => w.to_string(),
                        };
                        let f = interp(k2, w.clone(), n2);
                        ev.push(obj! {"op": "same", "other": obj! {"kind": k2, "data": d2}, "same": e == f});
                    }
                }
                let q = QLabError::from(e);
                ev.push(obj! {"op": "rise", "how": "from", "got": see(&q)});
                let h = || -> QLabResult<()> {
                    Err(interp(k, v.clone(), n))?;
                    Ok(())
                };
                out.history(obj! {"what": "hand"}, ev);
                let ev = vec![
                    obj! {"op": "make", "kind": k, "data": data, "got": see_interp(&interp(k, v.clone(), n))},
                    obj! {"op": "rise", "how": "question", "got": see(&h().unwrap_err())},
                ];
                out.history(obj! {"what": "hand"}, ev);
            }
        }
    }
    kinds::<f64>(out, &[0.0, 1.5, -2.25, 1e21, 1e-7, 0.1, 123_456.789, f64::INFINITY]);
    kinds::<f32>(out, &[0.5, -3.75, 16_777_216.0]);
    kinds::<i32>(out, &[0, -7, 42]);
    kinds::<String>(out, &["".into(), "t=1".into(), "{0}".into()]);
}

// --- a day count and an interpolator that fail where they are told to --------------------------
#[derive(Clone, Default)]
struct Plan {
    bad: Vec<Date>,
    raise: (String, String),
    fit: (String, usize),
    val: (String, usize),
    hi: f64,
}
thread_local! { static PLAN: RefCell<Plan> = RefCell::new(Plan::default()); }

#[derive(Clone, Copy)]
struct Raising;
impl DayCount for Raising {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let p = PLAN.with(|p| p.borrow().clone());
        if p.bad.contains(&a) || p.bad.contains(&b) {
            return Err(compute(&p.raise.0, &p.raise.1).into());
        }
        Act365::calculate_day_count_fraction(a, b)
    }
}
#[derive(Default)]
struct Weak<V>(Option<V>);
impl<V: Float> Interpolator for Weak<V> {
    type Value = V;
    fn try_fit(self, _: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        let p = PLAN.with(|p| p.borrow().clone());
        if p.fit.0.is_empty() {
            Ok(self)
        } else {
            Err(interp(&p.fit.0, V::one(), p.fit.1))
        }
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        let p = PLAN.with(|p| p.borrow().clone());
        if t.f64() > p.hi {
            return Err(interp(&p.val.0, t, p.val.1));
        }
        Ok(V::of(0.02))
    }
}

fn outcome<T>(r: &Option<Result<T, QLabError>>) -> J {
    match r {
        None => arr!["panic"],
        Some(Ok(_)) => arr!["ok"],
        Some(Err(e)) => arr!["err", see(e)],
    }
}

fn injected<V: Float>(out: &mut Out, rng: &mut Rng, rounds: usize) {
    let compute_kinds = ["ZeroDivisionError", "CastNumberError", "InvalidInput", "InterpolationError"];
    let interp_kinds = ["order", "lower", "upper", "few"];
    for round in 0..rounds {
        // settlement on a Wednesday or so, coupons on days every month has
        let s = random_date(rng, 1970, 2060);
        let first = mk(s.year() + 1, 1 + rng.below(12) as u32, 1 + rng.below(28) as u32);
        let n = rng.range(1, 5);
        let pen = first.checked_add_months(qlab_time::period::months::Months::new(6 * (n as u32 - 1))).unwrap();
        let mat = plus(pen, rng.range(20, 300)).unwrap();
        let issue = plus(s, -rng.range(0, 90)).unwrap();
        let span = mat - s;
        let last = plus(s, rng.range(1, span + 400)).unwrap();
        let rk = compute_kinds[round % 4];
        let rd = if nothing(rk) { "" } else { TEXTS[rng.below(11) as usize] };
        let vk = interp_kinds[(round / 4) % 4];
        let fk = if rng.below(4) == 0 { interp_kinds[rng.below(4) as usize] } else { "" };
        let mut days: Vec<Date> = (0..4).map(|_| plus(s, rng.range(1, span + 500)).unwrap()).collect();
        days.extend([first, pen, mat, last, plus(last, 1).unwrap()]);
        let mut bad = vec![];
        while rng.below(2) == 0 {
            let d = *rng.pick(&days);
            let d = if rng.coin() { d.weekend_roll().unwrap() } else { d };
            if d > s {
                bad.push(d);
            }
        }
        let plan = Plan {
            bad: bad.clone(),
            raise: (rk.into(), rd.into()),
            fit: (fk.into(), rng.below(5) as usize),
            val: (vk.into(), rng.below(5) as usize),
            hi: ((last - s) as f64 + 0.5) / 365.0,
        };
        // interpolation errors lose their data on the way up, so none is recorded here
        let head = obj! {
            "what": "injected", "prec": V::NAME, "s": ymd(s), "bad": bad.iter().map(|&d| ymd(d)).collect::<Vec<J>>(),
            "raise": obj! {"kind": rk, "data": rd}, "fit": obj! {"kind": fk, "data": ""}, "val": obj! {"kind": vk, "data": ""},
            "last": ymd(last),
        };
        let mut ev = vec![];
        let clean = Plan { fit: (String::new(), 0), bad: vec![], ..plan.clone() };
        PLAN.with(|p| *p.borrow_mut() = plan.clone());
        for k in 0..5usize {
            let m: Vec<Date> = (0..k).map(|_| *rng.pick(&days)).collect();
            let len = if rng.below(3) == 0 { rng.below(6) as usize } else { k };
            let ys = vec![V::of(0.02); len];
            let r = guard(|| YieldCurve::<Raising, Weak<V>>::new(s, &m, &ys));
            ev.push(obj! {"op": "new", "mats": m.iter().map(|&d| ymd(d)).collect::<Vec<J>>(), "n": len, "res": outcome(&r)});
        }
        // a curve made in better times
        PLAN.with(|p| *p.borrow_mut() = clean);
        let curve = guard(|| YieldCurve::<Raising, Weak<V>>::new(s, &[], &[]).ok()).flatten();
        let bond = guard(|| Bond::<V>::new("b", issue, first, pen, mat, Frequency::SA, V::of(0.05), V::of(1.0))).flatten();
        PLAN.with(|p| *p.borrow_mut() = plan);
        if let Some(c) = curve {
            days.push(s);
            days.push(plus(s, -1).unwrap());
            for _ in 0..12 {
                let (a, b) = (*rng.pick(&days), *rng.pick(&days));
                let (a, b) = if rng.below(4) == 0 { (b, a) } else { (a.min(b), a.max(b)) };
                let a = if rng.below(3) == 0 { s } else { a };
                let r = guard(|| c.discount_factor(a, b));
                ev.push(obj! {"op": "df", "a": ymd(a), "b": ymd(b), "res": outcome(&r)});
                if let Some(bond) = &bond {
                    let at = match rng.below(4) {
                        0 => *rng.pick(&days),
                        1 => plus(s, rng.range(-30, span + 40)).unwrap(),
                        _ => s,
                    };
                    let r = guard(|| bond.discounted_value(at, &c));
                    ev.push(obj! {
                        "op": "bond", "issue": ymd(issue), "first": ymd(first), "pen": ymd(pen), "mat": ymd(mat),
                        "settle": ymd(at), "res": outcome(&r),
                    });
                }
            }
        }
        out.history(head, ev);
    }
}

fn casts(out: &mut Out, rng: &mut Rng) {
    fn ask<D: DayCount>(out: &mut Out, rng: &mut Rng, conv: &'static str) {
        for limit in [2_000_000, 100_000, 1000, 400, 365, 364, 360, 359, 100, 0] {
            let mut ev = vec![];
            for _ in 0..(if quick() { 12 } else { 100 }) {
                let a = random_date(rng, 1900, 2100);
                let k = match rng.below(5) {
                    0 => limit,
                    1 => limit + 1,
                    2 => -limit - 1,
                    3 => rng.range(-500, 1500),
                    _ => rng.range(-30_000, 60_000),
                };
                let Some(b) = plus(a, k) else { continue };
                LIMIT.with(|l| l.set(limit));
                let r = guard(|| D::calculate_day_count_fraction::<Tight>(a, b));
                LIMIT.with(|l| l.set(i64::MAX));
                ev.push(obj! {"op": "cast", "conv": conv, "a": ymd(a), "b": ymd(b), "limit": limit, "res": outcome(&r)});
            }
            out.history(obj! {"what": "cast"}, ev);
        }
    }
    ask::<Act360>(out, rng, "act360");
    ask::<Act365>(out, rng, "act365");
    ask::<Thirty360>(out, rng, "thirty360");
}

pub fn c22(out: &mut Out) {
    let rng = &mut Rng::new("C22");
    by_hand(out);
    let n = if quick() { 300 } else { 4000 };
    injected::<f64>(out, rng, n);
    injected::<f32>(out, rng, n / 3);
    casts(out, rng);
}
