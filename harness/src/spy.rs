//! Interpolators and day counts as a user of the library might write them.
use crate::interp::Float;
use qlab_error::{ComputeError, InterpolationError, QLabResult};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_time::date::Date;
use qlab_time::day_count::act_365::Act365;
use qlab_time::day_count::DayCount;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Mode {
    /// a + b t + c t^2
    Poly(f64, f64, f64),
    /// the yield that gives the discount factor weight(day, k) from the curve's settlement date
    Hash(i64),
    /// discount factor 1 for the one day, 0 for all others
    Select(i64),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub mode: Mode,
    pub lo: f64,
    pub hi: f64,
    /// "", or the error try_fit answers with
    pub fit: &'static str,
    /// the error try_value answers with outside lo..=hi
    pub val: &'static str,
    /// serial number of the curve's settlement date (Hash, Select)
    pub base: i64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { mode: Mode::Poly(0.0, 0.0, 0.0), lo: f64::NEG_INFINITY, hi: f64::INFINITY, fit: "", val: "lower", base: 0 }
    }
}

thread_local! {
    pub static CFG: RefCell<Cfg> = RefCell::new(Cfg::default());
    /// the data of the interpolator that was last asked for a value
    pub static HELD: RefCell<Option<Vec<(f64, f64)>>> = const { RefCell::new(None) };
    /// the times asked for
    pub static ASKED: RefCell<Vec<f64>> = const { RefCell::new(Vec::new()) };
}

pub fn set(c: Cfg) {
    CFG.with(|x| *x.borrow_mut() = c);
    HELD.with(|x| *x.borrow_mut() = None);
    ASKED.with(|x| x.borrow_mut().clear());
}

pub fn weight(serial: i64, k: i64) -> f64 {
    1.0 + ((serial.rem_euclid(1009) * k) % 1009) as f64 / 1009.0
}

pub fn failure<V: Float>(kind: &str, t: V) -> InterpolationError<V> {
    match kind {
        "lower" => InterpolationError::OutOfLowerBound(t),
        "upper" => InterpolationError::OutOfUpperBound(t),
        "order" => InterpolationError::PointOrderError,
        _ => InterpolationError::InsufficientPointsError(7),
    }
}

/// Adds what it is fitted with to what it already holds.
#[derive(Default)]
pub struct Spy<V> {
    data: Vec<(V, V)>,
}

impl<V: Float> Interpolator for Spy<V> {
    type Value = V;
    fn try_fit(mut self, p: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        let c = CFG.with(|c| c.borrow().clone());
        if !c.fit.is_empty() {
            return Err(failure(c.fit, V::one()));
        }
        self.data.extend_from_slice(p);
        Ok(self)
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        let c = CFG.with(|c| c.borrow().clone());
        HELD.with(|h| *h.borrow_mut() = Some(self.data.iter().map(|&(a, b)| (a.f64(), b.f64())).collect()));
        let x = t.f64();
        ASKED.with(|a| a.borrow_mut().push(x));
        if !(c.lo <= x && x <= c.hi) {
            return Err(failure(c.val, t));
        }
        let day = c.base + (x * 365.0).round() as i64;
        let y = match c.mode {
            Mode::Poly(a, b, d) => a + x * (b + x * d),
            Mode::Hash(k) => {
                if day == c.base {
                    0.25
                } else {
                    -weight(day, k).ln() / x
                }
            }
            Mode::Select(s) => {
                if day == s {
                    0.0
                } else {
                    1e6
                }
            }
        };
        Ok(V::of(y))
    }
}

/// (days / 1000)^2, signed
#[derive(Clone, Copy)]
pub struct Square;
impl DayCount for Square {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let n = b - a;
        Ok(V::from_i64(n * n.abs()).unwrap() / V::from_i64(1_000_000).unwrap())
    }
}

/// Actual/365 that refuses the 13th of a month
#[derive(Clone, Copy)]
pub struct Picky;
impl DayCount for Picky {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        if a.day() == 13 || b.day() == 13 {
            return Err(ComputeError::InvalidInput("thirteenth".into()).into());
        }
        Act365::calculate_day_count_fraction(a, b)
    }
}

