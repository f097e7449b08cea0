//! A number type as a user of the library might write it: it cannot hold every integer.
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cell::Cell;
use std::fmt;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, Sub, SubAssign};

thread_local! {
    /// Integers beyond it cannot be converted.
    pub static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn fits(n: i64) -> bool {
    n.unsigned_abs() <= LIMIT.with(Cell::get).unsigned_abs()
}

#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
pub struct Tight(pub f64);

impl fmt::Display for Tight {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
macro_rules! op {
    ($($t:ident $f:ident $ta:ident $fa:ident;)*) => { $(
        impl $t for Tight { type Output = Tight; fn $f(self, o: Tight) -> Tight { Tight(self.0.$f(o.0)) } }
        impl $ta for Tight { fn $fa(&mut self, o: Tight) { self.0.$fa(o.0); } }
    )* };
}
op! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; }
impl Rem for Tight {
    type Output = Tight;
    fn rem(self, o: Tight) -> Tight {
        Tight(self.0 % o.0)
    }
}
impl Neg for Tight {
    type Output = Tight;
    fn neg(self) -> Tight {
        Tight(-self.0)
    }
}
impl Zero for Tight {
    fn zero() -> Self {
        Tight(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Tight {
    fn one() -> Self {
        Tight(1.0)
    }
}
impl Num for Tight {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Tight)
    }
}
impl ToPrimitive for Tight {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl FromPrimitive for Tight {
    fn from_i64(n: i64) -> Option<Self> {
        fits(n).then_some(Tight(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        i64::try_from(n).ok().and_then(Self::from_i64)
    }
    fn from_f64(n: f64) -> Option<Self> {
        (n.abs() <= LIMIT.with(Cell::get) as f64).then_some(Tight(n))
    }
    fn from_f32(n: f32) -> Option<Self> {
        Self::from_f64(n.into())
    }
}
impl NumCast for Tight {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().and_then(Self::from_f64)
    }
}
macro_rules! real {
    (nullary $($n:ident)*; unary $($u:ident)*; binary $($b:ident)*; test $($t:ident)*) => {
        impl Real for Tight {
            $(fn $n() -> Self { Tight(<f64 as Real>::$n()) })*
            $(fn $u(self) -> Self { Tight(<f64 as Real>::$u(self.0)) })*
            $(fn $b(self, o: Self) -> Self { Tight(<f64 as Real>::$b(self.0, o.0)) })*
            $(fn $t(self) -> bool { <f64 as Real>::$t(self.0) })*
            fn mul_add(self, a: Self, b: Self) -> Self { Tight(self.0.mul_add(a.0, b.0)) }
            fn powi(self, n: i32) -> Self { Tight(self.0.powi(n)) }
            fn sin_cos(self) -> (Self, Self) { (Tight(self.0.sin()), Tight(self.0.cos())) }
        }
    };
}
real! {
    nullary min_value min_positive_value epsilon max_value;
    unary floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt
          sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
    binary powf log max min abs_sub hypot atan2;
    test is_sign_positive is_sign_negative
}
impl Value for Tight {}
