//! Executable reference: the published tableaus applied to the independently written model derivatives, and the
//! step-size control law. Nothing here calls the code under test.
#![allow(clippy::all)]
use crate::models::ref_deriv;
use crate::spec::*;

pub struct Tab {
    pub c: &'static [f64],
    pub a: &'static [&'static [f64]],
    /// solution the step advances with
    pub b: &'static [f64],
    /// embedded comparison solution
    pub e: Option<&'static [f64]>,
}
pub fn tab(m: Method) -> Tab {
    match m {
        Method::Euler => Tab { c: &[0.], a: &[&[]], b: &[1.], e: None },
        Method::Heun => Tab { c: &[0., 1.], a: &[&[], &[1.]], b: &[0.5, 0.5], e: None },
        Method::Midpoint => Tab { c: &[0., 0.5], a: &[&[], &[0.5]], b: &[0., 1.], e: None },
        Method::Ralston => Tab { c: &[0., 2. / 3.], a: &[&[], &[2. / 3.]], b: &[0.25, 0.75], e: None },
        Method::Rk4 => Tab {
            c: &[0., 0.5, 0.5, 1.],
            a: &[&[], &[0.5], &[0., 0.5], &[0., 0., 1.]],
            b: &[1. / 6., 1. / 3., 1. / 3., 1. / 6.],
            e: None,
        },
        Method::Rk23 => Tab {
            c: &[0., 0.5, 0.75, 1.],
            a: &[&[], &[0.5], &[0., 0.75], &[2. / 9., 1. / 3., 4. / 9.]],
            b: &[2. / 9., 1. / 3., 4. / 9., 0.],
            e: Some(&[7. / 24., 1. / 4., 1. / 3., 1. / 8.]),
        },
        Method::Rk45 => Tab {
            c: &[0., 0.2, 0.3, 0.6, 1., 0.875],
            a: &[
                &[],
                &[0.2],
                &[3. / 40., 9. / 40.],
                &[0.3, -0.9, 1.2],
                &[-11. / 54., 2.5, -70. / 27., 35. / 27.],
                &[1631. / 55296., 175. / 512., 575. / 13824., 44275. / 110592., 253. / 4096.],
            ],
            b: &[37. / 378., 0., 250. / 621., 125. / 594., 0., 512. / 1771.],
            e: Some(&[2825. / 27648., 0., 18575. / 48384., 13525. / 55296., 277. / 14336., 0.25]),
        },
    }
}
pub struct Model<'a> {
    pub kind: Kind,
    pub p: &'a [f64],
}
impl Model<'_> {
    /// derivative; applies the model's constraint to `y`
    pub fn f(&self, t: f64, y: &mut [f64]) -> Vec<f64> {
        let mut dy = vec![0.; y.len()];
        let mut q = vec![];
        ref_deriv(self.kind, self.p, t, y, &mut dy, &mut q);
        dy
    }
    pub fn fq(&self, t: f64, y: &mut [f64]) -> (Vec<f64>, Vec<f64>) {
        let mut dy = vec![0.; y.len()];
        let mut q = vec![];
        ref_deriv(self.kind, self.p, t, y, &mut dy, &mut q);
        (dy, q)
    }
}
pub struct Step {
    pub hi: Vec<f64>,
    pub lo: Option<Vec<f64>>,
    /// bound on the rounding error of the components of hi - lo
    pub noise: f64,
    /// magnitude of the increments' parts
    pub mag: f64,
}
/// One explicit step from (t, y) by h. `y` gets the constraint applied.
pub fn step(m: &Model, tb: &Tab, t: f64, y: &mut Vec<f64>, h: f64) -> Step {
    let n = y.len();
    let mut k: Vec<Vec<f64>> = vec![m.f(t, y)];
    for s in 1..tb.c.len() {
        let mut ys = y.clone();
        for (j, a) in tb.a[s].iter().enumerate() {
            if *a != 0. {
                for i in 0..n {
                    ys[i] += h * a * k[j][i];
                }
            }
        }
        k.push(m.f(t + tb.c[s] * h, &mut ys));
    }
    let comb = |b: &[f64]| -> Vec<f64> {
        (0..n).map(|i| (0..b.len()).map(|j| b[j] * k[j][i]).sum::<f64>() * h).collect()
    };
    let kmax = k.iter().flatten().fold(0., |a: f64, x| a.max(x.abs()));
    let ymax = y.iter().fold(0., |a: f64, x| a.max(x.abs()));
    let l = lam(m.kind, m.p);
    let extra = if m.kind == Kind::TmBc { (600. * (t.abs() + h)).max(50.) } else { 1. };
    // linear networks have no scale of their own
    let own = if m.kind.linear() { 0. } else { l + extra };
    let noise = 2e-14 * h * (kmax + l * ymax + own + l * h * kmax) + 1e-300;
    Step { hi: comb(tb.b), lo: tb.e.map(|e| comb(e)), noise, mag: h * kmax }
}
pub fn l2(v: impl Iterator<Item = f64>) -> f64 {
    v.map(|x| x * x).sum::<f64>().sqrt()
}
/// Fixed-step integration from (t, y) to `to`; optionally with deterministic rounding-size noise added.
pub fn fixed_to(m: &Model, meth: Method, dt: f64, t: &mut f64, y: &mut Vec<f64>, to: f64, noise: bool) -> u64 {
    let tb = tab(meth);
    let mut n = 0u64;
    while *t < to {
        let h = dt.min(to - *t);
        let s = step(m, &tb, *t, y, h);
        for i in 0..y.len() {
            y[i] += s.hi[i];
        }
        *t += h;
        m.f(*t, y);
        n += 1;
        if noise {
            for (i, v) in y.iter_mut().enumerate() {
                let sg = if crate::rng::mix(n * 31 + i as u64) & 1 == 0 { 1.0 } else { -1.0 };
                *v += sg * 4e-15 * (v.abs() + s.mag + 1e-3);
            }
            m.f(*t, y);
        }
        if n > 5_000_000 {
            break;
        }
    }
    n
}
/// factor by which the step size changes after a trial with the given errors
pub fn coeff(err: f64, rel: Option<f64>, rtol: f64, atol: f64) -> f64 {
    match rel {
        Some(r) => {
            if r <= rtol {
                (rtol / r).powf(0.2)
            } else if err <= atol {
                (atol / err).powf(0.2)
            } else {
                0.25
            }
        }
        None => (atol / err).powf(if err <= atol { 0.2 } else { 0.25 }),
    }
}
/// number of trials an undisturbed adaptive walk needs (reference control law), for work budgets
pub fn adaptive_trials(spec: &SysSpec, limit: u64) -> u64 {
    let m = Model { kind: spec.kind, p: &spec.p };
    let tb = tab(spec.method);
    let mut t = spec.t0;
    let mut y = spec.y0.clone();
    let mut prop = spec.dt;
    let mut trials = 0u64;
    for &r in &spec.t_report {
        while t < r {
            let mut h = prop.min(r - t).min(spec.dt_max);
            let mut n = 0u32;
            loop {
                let s = step(&m, &tb, t, &mut y, h);
                trials += 1;
                n += 1;
                let lo = s.lo.as_ref().unwrap();
                let err = l2(s.hi.iter().zip(lo).map(|(a, b)| a - b));
                let nh = l2(s.hi.iter().cloned());
                let rel = if nh != 0. { Some(err / nh) } else { None };
                let ok = n >= spec.max_iter as u32
                    || err < spec.atol
                    || rel.map(|r| r <= spec.rtol).unwrap_or(err <= spec.atol);
                let c = coeff(err, rel, spec.rtol, spec.atol);
                if ok {
                    for i in 0..y.len() {
                        y[i] += s.hi[i];
                    }
                    t += h;
                    m.f(t, &mut y);
                    prop = (h * c).min(spec.dt_max);
                    break;
                }
                h *= c;
            }
            if trials > limit || y.iter().any(|v| !v.is_finite()) {
                return trials;
            }
        }
    }
    trials
}
