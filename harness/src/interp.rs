//! C12-C16: the interpolators, as histories of fits and evaluations.
use crate::util::{dyadic, guard, quick, Out, Rng, J};
use crate::{arr, obj};
use qlab_error::InterpolationError;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;

pub trait Float: Value {
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn f64(self) -> f64;
    fn up(self) -> Self;
    fn down(self) -> Self;
}
impl Float for f64 {
    const NAME: &'static str = "f64";
    fn of(v: f64) -> Self {
        v
    }
    fn f64(self) -> f64 {
        self
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
}
impl Float for f32 {
    const NAME: &'static str = "f32";
    fn of(v: f64) -> Self {
        v as f32
    }
    fn f64(self) -> f64 {
        f64::from(self)
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
}

pub fn ierr<V: Float>(e: InterpolationError<V>) -> J {
    match e {
        InterpolationError::PointOrderError => arr!["err", "order"],
        InterpolationError::OutOfLowerBound(x) => arr!["err", "lower", dyadic(x.f64())],
        InterpolationError::OutOfUpperBound(x) => arr!["err", "upper", dyadic(x.f64())],
        InterpolationError::InsufficientPointsError(n) => arr!["err", "few", n],
        #[allow(unreachable_patterns)]
        _ => arr!["err", "other"],
    }
}

/// Any of the four interpolators.
pub enum Any<V: Float> {
    None,
    Linear(Linear<V>),
    Natural(NaturalCubic<V>),
    Catmull(CatmullRom<V>),
    Hermite(Hermite<V>),
}

type Pt<V> = (V, V, V);

struct Sut<V: Float> {
    kind: &'static str,
    it: Any<V>,
    ev: Vec<J>,
}

impl<V: Float> Sut<V> {
    fn new(kind: &'static str) -> Self {
        let mut s = Sut { kind, it: Any::None, ev: Vec::new() };
        s.reset();
        s
    }
    fn reset(&mut self) {
        self.it = match self.kind {
            "linear" => Any::Linear(Linear::default()),
            "natural" => Any::Natural(NaturalCubic::default()),
            "catmull" => Any::Catmull(CatmullRom::default()),
            _ => Any::None,
        };
    }
    /// A fit on top of whatever the interpolator holds; a failed one leaves a new, empty interpolator.
    fn fit(&mut self, op: &'static str, pts: &[Pt<V>]) -> bool {
        let p2: Vec<(V, V)> = pts.iter().map(|p| (p.0, p.1)).collect();
        let it = std::mem::replace(&mut self.it, Any::None);
        let r = guard(|| match it {
            Any::Linear(l) => l.try_fit(&p2).map(Any::Linear),
            Any::Natural(l) => l.try_fit(&p2).map(Any::Natural),
            Any::Catmull(l) => l.try_fit(&p2).map(Any::Catmull),
            _ => Hermite::try_new(pts).map(Any::Hermite),
        });
        let ok = matches!(r, Some(Ok(_)));
        let res = match r {
            None => arr!["panic"],
            Some(Err(e)) => ierr(e),
            Some(Ok(i)) => {
                self.it = i;
                arr!["ok"]
            }
        };
        if !ok {
            self.reset();
        }
        let pj: Vec<J> = pts
            .iter()
            .map(|p| arr![dyadic(p.0.f64()), dyadic(p.1.f64()), dyadic(p.2.f64())])
            .collect();
        self.ev.push(obj! {"op": op, "pts": pj, "res": res});
        ok
    }
    fn eval(&self, x: V) -> J {
        let r = guard(|| match &self.it {
            Any::Linear(l) => Some(l.try_value(x)),
            Any::Natural(l) => Some(l.try_value(x)),
            Any::Catmull(l) => Some(l.try_value(x)),
            Any::Hermite(l) => Some(l.try_value(x)),
            Any::None => None,
        });
        match r {
            None => arr!["panic"],
            Some(None) => arr!["void"],
            Some(Some(Ok(v))) => arr!["ok", dyadic(v.f64())],
            Some(Some(Err(e))) => ierr(e),
        }
    }
    fn ask(&mut self, op: &'static str, x: V) {
        let r = self.eval(x);
        if r != arr!["void"] {
            self.ev.push(obj! {"op": op, "x": dyadic(x.f64()), "res": r});
        }
    }
    fn done(self, out: &mut Out, shape: bool) {
        out.history(obj! {"kind": self.kind, "prec": V::NAME, "shape": shape}, self.ev);
    }
}

const SPACINGS: u64 = 11;
const SHAPES: u64 = 14;

/// Strictly ascending abscissae.
fn abscissae<V: Float>(rng: &mut Rng, n: usize, style: u64) -> Vec<V> {
    let mut v: Vec<V> = Vec::with_capacity(n);
    let far = if V::NAME == "f64" { *rng.pick(&[1e9, -1e9, 45_000.0, 2.46e6]) } else { *rng.pick(&[4000.0, 738_000.0]) };
    let start = match style {
        0 => 0.0,
        1 => rng.unit() * 4.0 - 2.0,
        2 => -(n as f64) / 2.0,
        3 => 0.1,
        4 => rng.unit() * -30.0,
        6 => 0.0,
        7 => rng.unit() * 1e5,
        // far from zero compared with the steps
        8 => far,
        9 | 10 => *rng.pick(&[0.0, 0.25, -3.0, 12.5]),
        _ => 1000.0 * (rng.unit() - 0.5),
    };
    let mut x = start;
    // (steps whose cubes, divided into the largest ordinates, stay within the floats: a cubic may be
    // evaluated by its coefficients)
    let tiny = *rng.pick(if V::NAME == "f64" {
        &[1.0 / 365.0, 1.0 / 8760.0, 1e-6, 1e-9, 1e-12]
    } else {
        &[1.0 / 365.0, 1.0 / 8760.0, 1e-6, 1e-7, 1e-8]
    });
    // steps that are not quite equal, and equal steps but for one
    let uneven = *rng.pick(if V::NAME == "f64" { &[3e-3, 2e-4, 1e-5, 1e-6, 1e-8] } else { &[3e-3, 1e-3, 2e-4, 1e-4, 3e-5] });
    let step = *rng.pick(&[1.0, 0.25, 0.5, 1.0 / 12.0]);
    let odd = rng.below(n.max(1) as u64) as usize;
    for i in 0..n {
        let g = match style {
            0 => 0.5,
            1 => 0.05 + rng.unit(),
            2 => [1.0, 3.0, 0.25][i % 3],
            3 => 1.0 / 3.0 * 1.25f64.powi(i.min(14) as i32),
            4 => *rng.pick(&[0.125, 8.0, 1.0, 2.5]),
            // years as a day, an hour, ... : knots close to each other; and far apart
            6 => tiny * (1.0 + rng.unit()),
            7 => 1e4 * (0.5 + rng.unit()),
            8 => 1.0 + (i % 3) as f64 * 30.0,
            9 => step * (1.0 + uneven * (2.0 * rng.unit() - 1.0)),
            10 => step * if i == odd { 1.75 } else { 1.0 },
            _ => 0.5 + 20.0 * rng.unit(),
        };
        let mut xv = V::of(x);
        if let Some(&l) = v.last() {
            if xv <= l {
                xv = V::of(l.f64() + g);
            }
        }
        v.push(xv);
        x += g;
    }
    v
}

fn ordinates<V: Float>(rng: &mut Rng, xs: &[V], shape: u64) -> Vec<(V, V)> {
    let n = xs.len();
    let spike = rng.below(n.max(1) as u64) as usize;
    let (a, b) = (rng.unit() * 6.0 - 3.0, rng.unit() * 4.0 - 2.0);
    let mut w = rng.unit();
    let little = *rng.pick(&[1e-3, 1e-5, 1e-7, 1e-10]);
    let mut slope = b;
    let mut straight: f64 = a;
    (0..n)
        .map(|i| {
            let x = xs[i].f64();
            let (y, s) = match shape {
                0 => (rng.unit() * 20.0 - 10.0, rng.unit() * 4.0 - 2.0),
                1 => (a + b * x, b),
                2 => (if i == spike { 1.0 } else { 0.0 }, 0.0),
                3 => (a, 0.0),
                4 => {
                    w += rng.unit();
                    (w, rng.unit())
                }
                5 => (0.02 + 0.03 * rng.unit(), 0.01 * rng.unit()),
                6 => (if i % 2 == 0 { 1.0 } else { -1.0 }, if i == spike { 1.0 } else { 0.0 }),
                7 => (1000.0 + rng.unit(), 100.0 * (rng.unit() - 0.5)),
                // very large and very small values
                8 => (1e9 * (rng.unit() - 0.5), 1e8 * (rng.unit() - 0.5)),
                9 => (1e-9 * (rng.unit() - 0.5), 1e-9 * (rng.unit() - 0.5)),
                // nearly a line, nearly level
                11 => (a + b * x + little * (rng.unit() - 0.5), b + little * (rng.unit() - 0.5)),
                12 => (a + little * (rng.unit() - 0.5), little * (rng.unit() - 0.5)),
                // straight stretches that bend now and then
                13 => {
                    if i > 0 {
                        straight += slope * (x - xs[i - 1].f64());
                    }
                    if i % 4 == 3 {
                        slope = rng.unit() * 4.0 - 2.0;
                    }
                    (straight, slope)
                }
                // level stretches between steps
                _ => ({
                    if i % 3 == 0 {
                        w += rng.unit() - 0.3;
                    }
                    w
                }, 0.0),
            };
            (V::of(y), V::of(s))
        })
        .collect()
}

fn data<V: Float>(rng: &mut Rng, n: usize, style: u64, shape: u64) -> Vec<Pt<V>> {
    let xs = abscissae::<V>(rng, n, style);
    let ys = ordinates::<V>(rng, &xs, shape);
    xs.into_iter().zip(ys).map(|(x, (y, s))| (x, y, s)).collect()
}

/// Data with a pattern: small whole ordinates and slopes on an even grid, mirrored, turned or repeated.
fn tidy<V: Float>(rng: &mut Rng, n: usize) -> Vec<Pt<V>> {
    let step = *rng.pick(&[1.0, 0.5, 0.25, 2.0]);
    let start = *rng.pick(&[0.0, 0.0, -1.0, 3.0]) - if rng.coin() { step * (n as f64 - 1.0) / 2.0 } else { 0.0 };
    let mut whole = |k: i64| rng.range(-k, k) as f64;
    let ys: Vec<f64> = (0..n).map(|_| whole(3)).collect();
    let ss: Vec<f64> = (0..n).map(|_| whole(2) / 2.0).collect();
    let how = rng.below(6);
    let wide = rng.below(4);
    let mut x = start;
    (0..n)
        .map(|i| {
            let j = n - 1 - i;
            let (y, s) = match how {
                // the right half mirrors the left
                0 if i > j => (ys[j], -ss[j]),
                // turned by half a turn
                1 if i > j => (-ys[j], ss[j]),
                1 if i == j => (0.0, ss[i]),
                // repeated
                2 => (ys[i % 2], ss[i % 2]),
                3 => (ys[i % 3], ss[i % 3]),
                // every slope the opposite of the one before
                4 => (ys[i], if i % 2 == 0 { ss[0] } else { -ss[0] }),
                _ => (ys[i], ss[i]),
            };
            let at = x;
            // some grids have wide intervals at both ends, or in the middle
            let at_end = i == 0 || i + 2 == n;
            x += step * if wide == 0 && at_end || wide == 1 && !at_end { 2.0 } else { 1.0 };
            (V::of(at), V::of(y), V::of(s))
        })
        .collect()
}

/// Data that share something with earlier data.
fn related<V: Float>(rng: &mut Rng, p: &[Pt<V>], least: usize) -> Vec<Pt<V>> {
    let mut q = p.to_vec();
    let n = q.len();
    match rng.below(6) {
        // the same ends, other points in between
        0 => {
            for i in 1..n.saturating_sub(1) {
                let t = 0.2 + 0.6 * rng.unit();
                q[i].0 = between(p, i, t);
            }
        }
        // one ordinate differs
        1 => {
            let i = rng.below(n as u64) as usize;
            q[i].1 = V::of(q[i].1.f64() + 1.5);
        }
        // the same abscissae
        2 => {
            for t in &mut q {
                t.1 = V::of(rng.unit() * 8.0 - 4.0);
                t.2 = V::of(rng.unit());
            }
        }
        // one point less, at either end or inside
        3 if n > least => {
            let i = *rng.pick(&[0, n - 1, n / 2]);
            q.remove(i);
        }
        // moved to the left
        4 => {
            let d = q[n - 1].0.f64() - q[0].0.f64() + 0.375;
            for t in &mut q {
                t.0 = V::of(t.0.f64() - d);
            }
        }
        // longer than it was
        _ => {
            let d = if n > 1 { (q[n - 1].0.f64() - q[0].0.f64()) / (n as f64 - 1.0) } else { 1.0 };
            for _ in 0..2 {
                let l = q[q.len() - 1];
                q.push((V::of(l.0.f64() + d), V::of(l.1.f64() - 1.0), l.2));
            }
        }
    }
    // rounding may have joined neighbours
    if q.windows(2).all(|w| w[0].0 < w[1].0) {
        q
    } else {
        p.to_vec()
    }
}

fn between<V: Float>(p: &[Pt<V>], i: usize, t: f64) -> V {
    let (a, b) = (p[i].0, p[i + 1].0);
    let x = V::of(a.f64() + t * (b.f64() - a.f64()));
    if x < a {
        a
    } else if x > b {
        b
    } else {
        x
    }
}

/// Sizes used by the value properties: all small ones, some large.
fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=10).collect();
    v.extend(if quick() { vec![13, 17, 25, 40] } else { vec![11, 12, 13, 15, 16, 17, 21, 25, 32, 33, 40, 50, 64] });
    v
}

fn least(kind: &str) -> usize {
    if kind == "linear" {
        1
    } else {
        3
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = Vec::new();
    for p in permutations(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            r.push(q);
        }
    }
    r
}

fn range_asks<V: Float>(rng: &mut Rng, s: &mut Sut<V>, p: &[Pt<V>]) {
    if p.is_empty() {
        for x in [0.0, 1.5, f64::INFINITY] {
            s.ask("ask", V::of(x));
        }
        return;
    }
    let (lo, hi) = (p[0].0, p[p.len() - 1].0);
    for x in [lo, lo.down(), lo.up(), hi, hi.down(), hi.up()] {
        s.ask("ask", x);
    }
    for x in [lo.f64() - 1.0, lo.f64() - 1e9, hi.f64() + 0.5, hi.f64() + 1e9, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0] {
        s.ask("ask", V::of(x));
    }
    s.ask("wild", V::of(f64::NAN));
    for _ in 0..4 {
        let k = rng.below(p.len() as u64) as usize;
        s.ask("ask", p[k].0);
        if p.len() > 1 {
            let i = rng.below(p.len() as u64 - 1) as usize;
            let t = rng.unit();
            s.ask("ask", between(p, i, t));
        }
    }
}

fn c12_kind<V: Float>(out: &mut Out, kind: &'static str) {
    let mut rng = Rng::new(&format!("C12{kind}{}", V::NAME));
    pairs::<V>(out, &mut rng, kind, "ask");
    // small data sets in every order, on the same interpolator one after the other
    for n in 0..=5usize {
        for (q, perm) in permutations(n).into_iter().enumerate() {
            let base = data::<V>(&mut rng, n, (q as u64) % SPACINGS, 0);
            let p: Vec<Pt<V>> = perm.iter().map(|&k| base[k]).collect();
            let mut s = Sut::<V>::new(kind);
            if q % 3 == 0 {
                s.ask("ask", V::of(0.5));
            }
            if q % 3 == 1 {
                let m = 3 + q % 4;
                let other = data::<V>(&mut rng, m, 1, 0);
                s.fit("fit", &other);
                range_asks(&mut rng, &mut s, &other);
            }
            let fine = s.fit("fit", &p);
            if fine {
                range_asks(&mut rng, &mut s, &p);
            } else {
                s.ask("ask", V::of(0.5));
            }
            s.done(out, false);
        }
    }
    // one pair out of order, at each place of longer data; and then the repaired data
    for n in [6usize, 9, 14] {
        for i in 0..n - 1 {
            for far in [false, true] {
                let base = data::<V>(&mut rng, n, i as u64 % SPACINGS, 0);
                let mut p = base.clone();
                let j = if far { rng.below(n as u64) as usize } else { i + 1 };
                p.swap(i, j);
                let mut s = Sut::<V>::new(kind);
                if s.fit("fit", &p) {
                    range_asks(&mut rng, &mut s, &p);
                }
                s.fit("fit", &base);
                range_asks(&mut rng, &mut s, &base);
                s.done(out, false);
            }
        }
    }
    // refits with more and fewer points
    for _ in 0..(if quick() { 12 } else { 60 }) {
        let mut s = Sut::<V>::new(kind);
        for _ in 0..6 {
            let n = rng.below(12) as usize;
            let style = rng.below(SPACINGS);
            let mut p = data::<V>(&mut rng, n, style, 0);
            if n >= least(kind) && kind != "hermite" && rng.coin() {
                s.fit("fit", &p);
                p = related(&mut rng, &p, least(kind));
            }
            let n = p.len();
            s.fit("fit", &p);
            if n >= least(kind) {
                range_asks(&mut rng, &mut s, &p);
            }
        }
        s.done(out, false);
    }
    // large data
    for n in [50usize, 100, 257] {
        let p = data::<V>(&mut rng, n, 1, 0);
        let mut s = Sut::<V>::new(kind);
        s.fit("fit", &p);
        for _ in 0..8 {
            range_asks(&mut rng, &mut s, &p);
        }
        s.done(out, false);
    }
    // repeated abscissae, NaN and infinite data: no promise but not to panic
    for q in 0..(if quick() { 40 } else { 400 }) {
        let n = rng.below(9) as usize;
        let mut p = data::<V>(&mut rng, n, q % SPACINGS, q % SHAPES);
        let mut s = Sut::<V>::new(kind);
        if n > 0 {
            for _ in 0..1 + rng.below(3) {
                let k = rng.below(n as u64) as usize;
                let other = rng.below(n as u64) as usize;
                match rng.below(5) {
                    0 => p[k].0 = V::of(f64::NAN),
                    1 => p[k].1 = V::of(f64::NAN),
                    2 => p[k].0 = V::of(f64::INFINITY),
                    3 => p[k].0 = p[other].0,
                    _ => p[k].0 = V::of(f64::NEG_INFINITY),
                }
            }
        }
        s.fit("wildfit", &p);
        for i in 0..n {
            s.ask("wild", p[i].0);
            if i + 1 < n {
                s.ask("wild", between(&p, i, 0.5));
            }
        }
        for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1e300] {
            s.ask("wild", V::of(x));
        }
        s.done(out, false);
    }
}

const KINDS: [&str; 4] = ["linear", "natural", "catmull", "hermite"];

pub fn c12(out: &mut Out) {
    for k in KINDS {
        c12_kind::<f64>(out, k);
        c12_kind::<f32>(out, k);
    }
}

fn knots<V: Float>(s: &mut Sut<V>, p: &[Pt<V>]) {
    let n = p.len();
    for i in 0..n {
        let x = p[i].0;
        let at = s.eval(x);
        let below = if i > 0 { s.eval(x.down()) } else { at.clone() };
        let above = if i + 1 < n { s.eval(x.up()) } else { at.clone() };
        s.ev.push(obj! {"op": "knot", "i": i + 1, "res": arr![at, below, above]});
    }
}

pub fn c13(out: &mut Out) {
    fn go<V: Float>(out: &mut Out, kind: &'static str) {
        let mut rng = Rng::new(&format!("C13{kind}{}", V::NAME));
        for n in sizes() {
            if n < least(kind) {
                continue;
            }
            for style in 0..SPACINGS {
                for shape in 0..SHAPES {
                    if quick() && n > 6 && (style + shape + n as u64) % 3 != 0 {
                        continue;
                    }
                    let mut s = Sut::<V>::new(kind);
                    if shape % 4 == 3 {
                        let m = 3 + rng.below(5) as usize;
                        let other = data::<V>(&mut rng, m, style, 0);
                        s.fit("fit", &other);
                        knots(&mut s, &other);
                    }
                    let mut p = data::<V>(&mut rng, n, style, shape);
                    if kind != "hermite" && shape % 4 == 1 {
                        s.fit("fit", &p);
                        p = related(&mut rng, &p, least(kind));
                    }
                    if s.fit("fit", &p) {
                        knots(&mut s, &p);
                    }
                    s.done(out, true);
                }
            }
        }
    }
    fn tidied<V: Float>(out: &mut Out, kind: &'static str) {
        let mut rng = Rng::new(&format!("C13 tidy {kind}{}", V::NAME));
        for k in 0..if quick() { 40 } else { 400 } {
            let p = tidy::<V>(&mut rng, least(kind) + k % 7);
            let mut s = Sut::<V>::new(kind);
            if s.fit("fit", &p) {
                knots(&mut s, &p);
            }
            s.done(out, true);
        }
    }
    for k in KINDS {
        go::<f64>(out, k);
        go::<f32>(out, k);
        tidied::<f64>(out, k);
        tidied::<f32>(out, k);
    }
}

/// Two interpolators alive at once, asked in turns.
fn pairs<V: Float>(out: &mut Out, rng: &mut Rng, kind: &'static str, op: &'static str) {
    for k in 0..if quick() { 24 } else { 240 } {
        let style = k % SPACINGS;
        let n = least(kind) + rng.below(9) as usize;
        let shape = rng.below(SHAPES);
        let p = data::<V>(rng, n, style, shape);
        // unrelated data, or data much like the other's
        let q = if k % 2 == 0 {
            related(rng, &p, least(kind))
        } else {
            let m = least(kind) + rng.below(9) as usize;
            let other = rng.below(SPACINGS);
            data::<V>(rng, m, other, 0)
        };
        let (mut s, mut t) = (Sut::<V>::new(kind), Sut::<V>::new(kind));
        s.fit("fit", &p);
        t.fit("fit", &q);
        for _ in 0..10 {
            let i = rng.below(p.len().max(2) as u64 - 1) as usize;
            let j = rng.below(q.len().max(2) as u64 - 1) as usize;
            let w = rng.unit();
            let x = if p.len() < 2 { p[0].0 } else { between(&p, i, w) };
            s.ask(op, x);
            // the same argument where the other has a value for it
            let lo = q[0].0;
            let hi = q[q.len() - 1].0;
            if lo <= x && x <= hi || op == "ask" {
                t.ask(op, x);
            }
            let y = if q.len() < 2 { q[0].0 } else { between(&q, j, w) };
            t.ask(op, y);
        }
        s.done(out, true);
        t.done(out, true);
    }
}

/// Round arguments, and arguments out of order.
fn again<V: Float>(rng: &mut Rng, s: &mut Sut<V>, p: &[Pt<V>]) {
    let (lo, hi) = (p[0].0, p[p.len() - 1].0);
    for x in [0.0, -0.0, 1.0, 2.0, -1.0, 10.0, 0.5] {
        if lo <= V::of(x) && V::of(x) <= hi {
            s.ask("value", V::of(x));
        }
    }
    if p.len() > 2 {
        for _ in 0..4 {
            let i = rng.below(p.len() as u64 - 1) as usize;
            let t = rng.unit();
            s.ask("value", between(p, i, t));
        }
    }
}

fn values<V: Float>(out: &mut Out, prop: &str, kind: &'static str) {
    let mut rng = Rng::new(&format!("{prop}{kind}{}", V::NAME));
    pairs::<V>(out, &mut rng, kind, "value");
    let mut neat = Rng::new(&format!("{prop} tidy {kind}{}", V::NAME));
    for k in 0..if quick() { 70 } else { 700 } {
        let p = tidy::<V>(&mut neat, least(kind) + k % 7);
        let mut s = Sut::<V>::new(kind);
        if s.fit("fit", &p) {
            for i in 0..p.len().max(2) - 1 {
                for t in [0.25, 0.5, 0.75, neat.unit()] {
                    s.ask("value", if p.len() < 2 { p[0].0 } else { between(&p, i, t) });
                }
            }
        }
        s.done(out, true);
    }
    // long data
    for (n, style) in [(70, 2), (130, 1), (260, 5), (520, 4), (1100, 3)] {
        if quick() && n == 520 {
            continue;
        }
        let mut s = Sut::<V>::new(kind);
        let p = data::<V>(&mut rng, n, style, 0);
        if s.fit("fit", &p) {
            for i in 0..n - 1 {
                if i < 3 || i + 4 > n || i % (if n > 600 { 61 } else { 9 }) == 4 {
                    s.ask("value", p[i].0);
                    let t = 0.3 + 0.4 * rng.unit();
                    let x = between(&p, i, t);
                    s.ask("value", x);
                }
            }
        }
        s.done(out, true);
    }
    for n in sizes() {
        if n < least(kind) {
            continue;
        }
        for style in 0..SPACINGS {
            for shape in 0..SHAPES {
                if quick() && n > 6 && (style + shape + n as u64) % 3 != 0 {
                    continue;
                }
                let mut s = Sut::<V>::new(kind);
                if shape % 4 == 2 {
                    // a refit must forget the earlier data
                    let m = 3 + rng.below(6) as usize;
                    let other = data::<V>(&mut rng, m, style, 0);
                    s.fit("fit", &other);
                    for i in 0..m - 1 {
                        let x = between(&other, i, 0.4);
                        s.ask("value", x);
                    }
                }
                let mut p = data::<V>(&mut rng, n, style, shape);
                if kind != "hermite" && shape % 4 == 1 {
                    // refits with data much like the earlier ones
                    for _ in 0..2 {
                        s.fit("fit", &p);
                        let i = rng.below(p.len() as u64) as usize;
                        s.ask("value", p[i].0);
                        p = related(&mut rng, &p, least(kind));
                    }
                }
                let n = p.len();
                if s.fit("fit", &p) {
                    for i in 0..n {
                        s.ask("value", p[i].0);
                        if i + 1 < n && (n <= 13 || i < 3 || i + 4 > n || rng.below(4) == 0) {
                            let t = rng.unit();
                            // and beside the knots, more or less closely
                            let near = (-(1.0 + rng.unit() * 24.0)).exp2();
                            for t in [0.25, 0.5, 0.8125, t, 1e-6, near, 1.0 - near] {
                                let x = between(&p, i, t);
                                s.ask("value", x);
                            }
                        }
                    }
                    again(&mut rng, &mut s, &p);
                }
                s.done(out, true);
            }
        }
    }
}

pub fn c14(out: &mut Out) {
    values::<f64>(out, "C14", "linear");
    values::<f32>(out, "C14", "linear");
}
pub fn c15(out: &mut Out) {
    values::<f64>(out, "C15", "natural");
    values::<f32>(out, "C15", "natural");
}
pub fn c16(out: &mut Out) {
    for k in ["hermite", "catmull"] {
        values::<f64>(out, "C16", k);
        values::<f32>(out, "C16", k);
    }
}

/// Data given by formulas (TLong.tla).
struct Formula {
    from: i64,
    a: i64,
    b: i64,
}
impl Formula {
    fn x(&self, k: i64) -> f64 {
        (k + self.from) as f64 + (k * self.a % 4) as f64 / 8.0
    }
    fn point<V: Float>(&self, k: i64) -> Pt<V> {
        let r = k % 97;
        (V::of(self.x(k)), V::of(((r * r + self.b * r) % 97) as f64 / 8.0), V::of(((k % 11 * 3 + self.b) % 11) as f64 / 4.0 - 1.0))
    }
    fn fit<V: Float>(&self, s: &mut Sut<V>, n: i64, at: i64) -> bool {
        let mut p: Vec<Pt<V>> = (1..=n).map(|k| self.point(k)).collect();
        if at > 0 {
            p.swap(at as usize - 1, at as usize);
        }
        let ok = s.fit("fit", &p);
        let Some(J::O(e)) = s.ev.pop() else { unreachable!() };
        let res = e.into_iter().find(|(k, _)| *k == "res").unwrap().1;
        s.ev.push(obj! {"op": "fit", "n": n, "at": at, "res": res});
        ok
    }
}

/// Very long data: beyond every count that fits eight or sixteen bits.
pub fn long(out: &mut Out, prop: &str) {
    fn go<V: Float>(out: &mut Out, prop: &str, kind: &'static str, n: i64) {
        let mut rng = Rng::new(&format!("{prop}{kind}{}{n}", V::NAME));
        let f = Formula { from: rng.range(-40, 40), a: rng.range(1, 3), b: rng.range(0, 9) };
        let mut places: Vec<i64> = vec![1, 2, 3, n / 2, n - 2, n - 1];
        for edge in [128, 256, 512, 1024, 4096, 32_768, 65_536] {
            places.extend([edge - 1, edge, edge + 1]);
        }
        for _ in 0..if quick() { 6 } else { 60 } {
            places.push(rng.range(1, n - 1));
        }
        places.retain(|i| 1 <= *i && *i < n);
        places.sort_unstable();
        places.dedup();
        let mut s = Sut::<V>::new(kind);
        if prop == "C12L" {
            // out of order at one place, then too short, then good, then longer, then shorter
            for i in &places {
                if i % 2 == 1 || kind == "linear" {
                    f.fit(&mut s, n, *i);
                }
            }
        } else if kind != "hermite" {
            f.fit(&mut s, n / 3 + 5, 0);
        }
        if f.fit(&mut s, n, 0) {
            let (lo, hi) = (V::of(f.x(1)), V::of(f.x(n)));
            for i in places {
                match prop {
                    "C12L" => {
                        let x = V::of(f.x(i));
                        for x in [x, x.down(), x.up()] {
                            s.ask("ask", x);
                        }
                    }
                    "C13L" => {
                        for i in [i, i + 1] {
                            let res = s.eval(V::of(f.x(i)));
                            s.ev.push(obj! {"op": "knot", "i": i, "res": res});
                        }
                    }
                    _ => {
                        for t in [0.25, 0.8125] {
                            let x = V::of(f.x(i) + t * (f.x(i + 1) - f.x(i)));
                            let res = s.eval(x);
                            s.ev.push(obj! {"op": "value", "i": i, "x": dyadic(x.f64()), "res": res});
                        }
                    }
                }
            }
            if prop == "C12L" {
                for x in [lo, lo.down(), lo.up(), hi, hi.down(), hi.up(), V::of(1e9), V::of(-1e9)] {
                    s.ask("ask", x);
                }
            }
        }
        out.history(obj! {"kind": kind, "prec": V::NAME, "from": f.from, "a": f.a, "b": f.b}, s.ev);
    }
    for kind in KINDS {
        if !(matches!(prop, "C12L" | "C13L") || prop == "C14L" && kind == "linear" || prop == "C15L" && kind == "natural" || prop == "C16L" && (kind == "catmull" || kind == "hermite")) {
            continue;
        }
        for n in if quick() { vec![300, 1100, 66_000] } else { vec![270, 300, 520, 1100, 2500, 4500, 33_000, 66_000, 131_500] } {
            go::<f64>(out, prop, kind, n);
            go::<f32>(out, prop, kind, n);
        }
    }
}
