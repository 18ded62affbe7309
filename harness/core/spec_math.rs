// Stand-in for the crate `spec_math` (not available offline): K_0 and K_1 of a real argument,
// by the trapezoidal rule on K_n(x) = int_0^inf exp(-x cosh t) cosh(n t) dt.
pub trait Bessel { fn bessel_k0(&self) -> f64; fn bessel_k1(&self) -> f64; }
fn kn(n: f64, x: f64) -> f64 {
    if x.is_nan() || x < 0.0 { return f64::NAN; }
    if x == 0.0 { return f64::INFINITY; }
    let h = 1.0 / 64.0;
    let (mut s, mut i) = (0.0f64, 0);
    loop {
        let t = i as f64 * h;
        let lg = -x * (t.cosh() - 1.0) + n * t;
        let term = lg.exp() * 0.5 * (1.0 + (-2.0 * n * t).exp());
        s += if i == 0 { 0.5 * term } else { term };
        i += 1;
        if (i > 64 && lg < -80.0) || i > 64 * 800 { break; }
    }
    s * h * (-x).exp()
}
impl Bessel for f64 { fn bessel_k0(&self) -> f64 { kn(0.0, *self) } fn bessel_k1(&self) -> f64 { kn(1.0, *self) } }
