//! What one simulated run consists of (`Case`), and its seeded generation.
use crate::rng::Rng;
use crate::seam::ModelFault;
use crate::models::BIG;
use dess::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Kind {
    One,
    Osc,
    Net4,
    ResNet,
    Ring,
    Mix,
    Star,
    Nest,
    Wide,
    Big,
    Tm3,
    TmBc,
}
impl Kind {
    /// linear networks of masses and reservoirs: no clock and no scale of their own
    pub fn linear(self) -> bool {
        matches!(self, Kind::ResNet | Kind::Ring | Kind::Mix | Kind::Star | Kind::Nest | Kind::Big | Kind::Tm3)
    }
}
pub const ALL_KINDS: [Kind; 12] = [Kind::One, Kind::Osc, Kind::Net4, Kind::ResNet, Kind::Ring, Kind::Mix, Kind::Star, Kind::Nest, Kind::Wide, Kind::Big, Kind::Tm3, Kind::TmBc];
pub const SEAM_KINDS: [Kind; 10] = [Kind::One, Kind::Osc, Kind::Net4, Kind::ResNet, Kind::Ring, Kind::Mix, Kind::Star, Kind::Nest, Kind::Wide, Kind::Big];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Method {
    Euler,
    Heun,
    Midpoint,
    Ralston,
    Rk4,
    Rk23,
    Rk45,
}
pub const FIXED: [Method; 5] = [Method::Euler, Method::Heun, Method::Midpoint, Method::Ralston, Method::Rk4];
pub const ADAPTIVE: [Method; 2] = [Method::Rk23, Method::Rk45];
pub const ALL_METHODS: [Method; 7] =
    [Method::Euler, Method::Heun, Method::Midpoint, Method::Ralston, Method::Rk4, Method::Rk23, Method::Rk45];
impl Method {
    pub fn adaptive(self) -> bool {
        matches!(self, Method::Rk23 | Method::Rk45)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SysSpec {
    pub kind: Kind,
    pub method: Method,
    /// fixed step, or initial proposal of an adaptive method
    pub dt: f64,
    pub dt_max: f64,
    pub max_iter: u8,
    pub rtol: f64,
    pub atol: f64,
    pub save: bool,
    pub save_states: bool,
    pub t0: f64,
    pub t_report: Vec<f64>,
    pub y0: Vec<f64>,
    pub p: Vec<f64>,
}
impl SysSpec {
    pub fn solver(&self) -> SolverTypes {
        let dt = self.dt;
        let sc = || {
            Box::new(AdaptiveSolverConfig {
                dt_max: self.dt_max,
                max_iter: self.max_iter,
                rtol: self.rtol,
                atol: self.atol,
                save: self.save,
                save_states: self.save_states,
                state: SolverState { dt, ..Default::default() },
                ..Default::default()
            })
        };
        match self.method {
            Method::Euler => SolverTypes::EulerFixed { dt },
            Method::Heun => SolverTypes::HeunsMethod { dt },
            Method::Midpoint => SolverTypes::MidpointMethod { dt },
            Method::Ralston => SolverTypes::RalstonsMethod { dt },
            Method::Rk4 => SolverTypes::RK4Fixed { dt },
            Method::Rk23 => SolverTypes::RK23BogackiShampine(sc()),
            Method::Rk45 => SolverTypes::RK45CashKarp(sc()),
        }
    }
    /// scale of the fastest rate in the model (Lipschitz estimate incl. forcing frequency)
    pub fn lam(&self) -> f64 {
        lam(self.kind, &self.p)
    }
    /// magnitude below which the states of the problem mean nothing
    pub fn unit(&self) -> f64 {
        let m = self.y0.iter().fold(0f64, |a, y| a.max(y.abs()));
        if m > 0. { m.min(1.) } else { 1. }
    }
    pub fn t_end(&self) -> f64 {
        *self.t_report.last().unwrap()
    }
}
pub fn lam(kind: Kind, p: &[f64]) -> f64 {
    match kind {
        Kind::One => p[0].abs() + p[3].abs() + p[2].abs(),
        Kind::Osc => p[0].abs() + p[1].abs() + 1.0 + p[3].abs(),
        Kind::Net4 => {
            let m = p[0..4].iter().cloned().fold(f64::INFINITY, f64::min);
            let h = (4..8).map(|i| p[i].abs() + p[i + 4].abs()).fold(0., f64::max);
            4. * h / m + p[13].abs()
        }
        Kind::Wide => {
            let m = p[0..9].iter().cloned().fold(f64::INFINITY, f64::min);
            let h = (9..21).map(|i| p[i].abs() + p[i + 12].abs()).fold(0., f64::max);
            // the node with the most links has five
            8. * h / m + p[34].abs()
        }
        Kind::ResNet => {
            let m = p[0..3].iter().cloned().fold(f64::INFINITY, f64::min);
            5. * p[3..7].iter().cloned().fold(0., f64::max) / m
        }
        Kind::Ring => {
            let m = p[0..4].iter().cloned().fold(f64::INFINITY, f64::min);
            4. * p[4..8].iter().cloned().fold(0., f64::max) / m
        }
        Kind::Mix => {
            let m = p[0..2].iter().cloned().fold(f64::INFINITY, f64::min);
            6. * p[2..7].iter().cloned().fold(0., f64::max) / m
        }
        Kind::Star => {
            let m = p[0..6].iter().cloned().fold(f64::INFINITY, f64::min);
            10. * p[6..12].iter().cloned().fold(0., f64::max) / m
        }
        Kind::Big => {
            let m = p[0..BIG].iter().cloned().fold(f64::INFINITY, f64::min);
            4. * p[BIG..].iter().cloned().fold(0., f64::max) / m
        }
        Kind::Nest => {
            let m = p[0..3].iter().cloned().fold(f64::INFINITY, f64::min);
            4. * p[3..6].iter().cloned().fold(0., f64::max) / m
        }
        Kind::Tm3 => {
            let m = p[0..3].iter().cloned().fold(f64::INFINITY, f64::min);
            4. * p[3..5].iter().cloned().fold(0., f64::max) / m
        }
        Kind::TmBc => {
            let m = p[0..2].iter().cloned().fold(f64::INFINITY, f64::min);
            4. * p[2..4].iter().cloned().fold(0., f64::max) / m
        }
    }
}
/// indices of the parameters that set rates, so that scaling them scales `lam`
fn rate_params(kind: Kind) -> Vec<usize> {
    match kind {
        Kind::One => vec![0, 2, 3],
        Kind::Osc => vec![0, 1, 3],
        Kind::Net4 => (4..12).chain([13]).collect(),
        Kind::Wide => (9..33).chain([34]).collect(),
        Kind::ResNet => (3..7).collect(),
        Kind::Ring => (4..8).collect(),
        Kind::Mix => (2..7).collect(),
        Kind::Star => (6..12).collect(),
        Kind::Nest => (3..6).collect(),
        Kind::Big => (BIG..2 * BIG).collect(),
        Kind::Tm3 => (3..5).collect(),
        Kind::TmBc => (2..4).collect(),
    }
}
pub fn n_states(kind: Kind) -> usize {
    match kind {
        Kind::One => 1,
        Kind::Osc => 2,
        Kind::Tm3 | Kind::TmBc | Kind::Nest => 3,
        Kind::Wide => 9,
        Kind::Star => 6,
        Kind::Big => BIG,
        _ => 4,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    Yaml,
    Bin,
    FileJson,
    FileYaml,
}
pub const FMTS: [Fmt; 5] = [Fmt::Json, Fmt::Yaml, Fmt::Bin, Fmt::FileJson, Fmt::FileYaml];

/// one driver operation on the live system of a task
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// one report by hand: step to the report time, advance the index, record
    Row,
    /// several rows by hand
    Rows(u32),
    /// walk over a prefix of the report list (permille), then give the list back its full length
    WalkTo(u32),
    /// walk to the end
    Walk,
    /// walk again although finished (or continue)
    Rewalk,
    /// store a checkpoint
    Ckpt(Fmt),
    /// process dies; restart from the last checkpoint (or from scratch)
    Restart,
    /// replace the live system by its clone (the original is dropped)
    CloneSwap,
    /// create a decoy copy, perturb and advance it by some rows, keep it
    Decoy(u32),
    /// advance all decoys
    StepDecoys(u32),
    /// external change of states between steps: state index (8 to 11: all states get
    /// the one value; 12 on: the value is NaN), delta
    Disturb(u32, f64),
    /// direct accessor use (see C19): selector, value
    Poke(u32, f64),
    /// container operation (see C16): selector, value
    Cont(u32, f64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum IoKind {
    Enospc,
    EnospcSticky,
    Eio,
    Eintr,
    Short,
    AllShort,
    Storm,
    OpenDenied,
    Crash,
    PowerLoss,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pos {
    /// fraction of the operation's calls, in 1/1000
    Frac(u32),
    FromStart(u32),
    FromEnd(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IoFault {
    pub pos: Pos,
    pub kind: IoKind,
    pub arg: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub specs: Vec<SysSpec>,
    pub scripts: Vec<Vec<Op>>,
    pub preempt: Vec<(u64, u32)>,
    pub io: Vec<IoFault>,
    pub model: Vec<ModelFault>,
    pub knobs: BTreeMap<String, i64>,
}
impl Case {
    pub fn knob(&self, k: &str) -> i64 {
        *self.knobs.get(k).unwrap_or(&0)
    }
}

pub struct GenOpts {
    pub kinds: Vec<Kind>,
    pub methods: Vec<Method>,
    pub max_reports: usize,
    /// force the step log on
    pub log: bool,
    pub max_substeps: f64,
    /// also very slow and very fast problems
    pub any_time: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { kinds: ALL_KINDS.to_vec(), methods: ALL_METHODS.to_vec(), max_reports: 14, log: false, max_substeps: 1500., any_time: true }
    }
}
fn nice(rng: &mut Rng, x: f64) -> f64 {
    // often a short decimal, sometimes full precision
    if rng.chance(0.5) {
        let s = 10f64.powi(2 - x.abs().log10().floor() as i32);
        let r = (x * s).round() / s;
        if r != 0. {
            return r;
        }
    }
    x
}
/// one or two intervals of very many steps each
pub fn long_haul(rng: &mut Rng, spec: &mut SysSpec, most: f64) {
    let t0 = spec.t0;
    let next: Vec<f64> = spec.t_report.iter().cloned().filter(|t| *t > t0).collect();
    let Some(&t1) = next.first() else { return };
    spec.t_report = vec![t1];
    let n = rng.logu(most / 40., most);
    if rng.chance(0.3) {
        spec.t_report.push(t1 + (t1 - t0) * rng.uni(0.01, 0.1));
    }
    let dt = (t1 - t0) / n;
    // still far above what the clock resolves
    let dt = dt.max(t1.abs().max(t0.abs()) * 1e-9);
    spec.dt = dt;
    if spec.method.adaptive() {
        // (each step copies the log several times)
        spec.save = n < 6e3 && spec.save;
        spec.save_states = n < 3e3 && spec.save_states;
        spec.dt_max = dt;
        spec.rtol = spec.rtol.max(1e-3);
        spec.atol = spec.atol.max(1e-6);
    }
    tame(spec);
}
pub fn gen_spec(rng: &mut Rng, o: &GenOpts) -> SysSpec {
    let mut kind = *rng.pick(&o.kinds);
    if kind == Kind::Big && rng.chance(0.85) {
        // (it is slow)
        kind = *rng.pick(&o.kinds);
    }
    let method = *rng.pick(&o.methods);
    // schedule
    // the thermal networks know no time, so that rounding of a large clock does not reach their states
    let timeless = kind.linear();
    let t0 = match rng.below(16) {
        0 | 1 => 5.0,
        2 | 3 if kind != Kind::TmBc => -3.5,
        4 | 5 => 100.25,
        6 | 7 => rng.uni(0., 2.),
        8 if timeless => *rng.pick(&[86400.0, 1e5, 3.6e3, -86400.0, -1e3]),
        9 if kind != Kind::TmBc => -rng.uni(0., 2.),
        _ => 0.0,
    };
    let long = o.max_reports >= 8 && rng.chance(0.004);
    let longest = if long && rng.chance(0.1) { if rng.chance(0.1) { 5000 } else { 1000 } } else { 260 };
    let n = if long { 100 + rng.below(longest) as usize } else { 1 + rng.below(o.max_reports as u64) as usize };
    let gap = rng.logu(0.01, 1.0);
    let gap = nice(rng, gap);
    let gap = if long { gap * 0.1 } else { gap };
    let style = if long { rng.below(2) } else { rng.below(6) };
    let mut t = t0;
    let mut t_report = vec![];
    if rng.chance(0.6) {
        t_report.push(t0);
    } else if rng.chance(0.15) {
        // some report times already passed when the walk begins
        let k = if rng.chance(0.2) { 1 + rng.below(40) } else { 2 };
        for j in (1..=k).rev() {
            t_report.push(t0 - j as f64 * gap);
        }
        if rng.chance(0.3) {
            t_report.push(t0);
        }
    }
    for k in 0..n {
        let g = match style {
            0 | 1 => gap,
            2 => gap * rng.logu(0.05, 2.0),
            3 => {
                if rng.chance(0.3) {
                    rng.logu(1e-9, 1e-5)
                } else {
                    gap
                }
            }
            4 => gap * (1.0 + k as f64 * 0.37),
            _ => gap * rng.uni(0.3, 1.7),
        };
        t = if style == 0 { t0 + gap * (k + 1) as f64 } else { t + g };
        t_report.push(t);
    }
    t_report.dedup();
    // thin out so that the list is strictly increasing
    let mut tr: Vec<f64> = vec![];
    for x in t_report {
        if tr.last().map(|l| x > *l).unwrap_or(true) {
            tr.push(x);
        }
    }
    let t_report = tr;
    let span = t_report.last().unwrap() - t0;
    let maxgap = {
        let mut m = t_report[0] - t0;
        for w in t_report.windows(2) {
            m = f64::max(m, w[1] - w[0]);
        }
        m.max(1e-9)
    };
    // parameters
    let par = |rng: &mut Rng, lo: f64, hi: f64| {
        let x = rng.logu(lo, hi);
        nice(rng, x)
    };
    let mut p: Vec<f64> = match kind {
        Kind::One => vec![par(rng, 0.2, 8.), par(rng, 0.1, 5.), par(rng, 0.2, 6.), par(rng, 0.1, 3.), rng.uni(-2., 2.)],
        Kind::Osc => vec![par(rng, 0.3, 9.), par(rng, 0.01, 2.), par(rng, 0.1, 4.), par(rng, 0.2, 5.)],
        Kind::Net4 => {
            let mut v: Vec<f64> = (0..4).map(|_| par(rng, 0.5, 5.)).collect();
            v.extend((0..4).map(|_| par(rng, 0.1, 4.)));
            v.extend((0..4).map(|_| par(rng, 0.1, 3.)));
            v.extend([par(rng, 0.2, 5.), par(rng, 0.3, 6.)]);
            v
        }
        Kind::Wide => {
            let mut v: Vec<f64> = (0..9).map(|_| par(rng, 0.5, 5.)).collect();
            v.extend((0..12).map(|_| par(rng, 0.1, 4.)));
            v.extend((0..12).map(|_| par(rng, 0.1, 3.)));
            v.extend([par(rng, 0.2, 5.), par(rng, 0.3, 6.)]);
            v
        }
        Kind::ResNet => {
            let mut v: Vec<f64> = (0..3).map(|_| par(rng, 0.5, 5.)).collect();
            v.extend((0..4).map(|_| par(rng, 0.2, 5.)));
            v
        }
        Kind::Ring => {
            let mut v: Vec<f64> = (0..4).map(|_| par(rng, 0.5, 5.)).collect();
            v.extend((0..4).map(|_| par(rng, 0.2, 5.)));
            v
        }
        Kind::Mix | Kind::Star | Kind::Nest | Kind::Big => {
            let (m, h) = match kind { Kind::Mix => (2, 5), Kind::Nest => (3, 3), Kind::Big => (BIG, BIG), _ => (6, 6) };
            let mut v: Vec<f64> = (0..m).map(|_| par(rng, 0.5, 5.)).collect();
            v.extend((0..h).map(|_| par(rng, 0.2, 5.)));
            v
        }
        Kind::Tm3 => {
            let mut v: Vec<f64> = (0..3).map(|_| par(rng, 0.5, 5.)).collect();
            v.extend((0..2).map(|_| par(rng, 0.2, 6.)));
            v
        }
        Kind::TmBc => vec![par(rng, 0.5, 5.), par(rng, 0.5, 5.), par(rng, 0.2, 6.), par(rng, 0.2, 6.)],
    };
    if rng.chance(0.04) && kind != Kind::One && kind != Kind::Osc {
        // a connection that carries nothing
        let r = rate_params(kind);
        let i = *rng.pick(&r);
        p[i] = 0.0;
    }
    // step
    let mut dt = match if long { 3 + rng.below(3) } else { rng.below(7) } {
        0 => maxgap * rng.uni(0.03, 0.2),
        1 => maxgap * 0.3,
        2 => maxgap * rng.uni(0.5, 0.99),
        3 => maxgap,
        4 => maxgap * rng.uni(1.01, 1.5),
        5 => maxgap * 10.,
        _ => maxgap / (1 + rng.below(6)) as f64,
    };
    dt = nice(rng, dt);
    if span / dt > o.max_substeps {
        dt = span / o.max_substeps;
    }
    // keep the problem within reach of the method: scale the rates down
    let l = lam(kind, &p);
    let lim = if method.adaptive() { rng.logu(0.5, 15.) / span } else { rng.uni(0.2, 2.2) / dt.min(maxgap) };
    // also avoid extreme growth over many steps
    let lim = if method.adaptive() { lim } else { lim.min(60. / span).max(0.05 / dt.min(maxgap).max(span / 50.)) };
    if l > lim {
        for i in rate_params(kind) {
            p[i] *= lim / l;
        }
    }
    let y0: Vec<f64> = (0..n_states(kind))
        .map(|_| match rng.below(4) {
            0 => rng.range(-10, 30) as f64,
            1 => rng.uni(-3., 3.),
            2 => rng.uni(-50., 50.),
            _ => rng.range(0, 4) as f64,
        })
        .collect();
    let y0 = match rng.below(100) {
        // far from one, where the model has no scale of its own
        0 if timeless => y0.iter().map(|y| y * 1e7).collect(),
        1 if timeless => y0.iter().map(|y| y * 1e-7).collect(),
        2 if timeless => {
            let m = *rng.pick(&[1e-14, 1e-10, 1e-4, 1e12]);
            y0.iter().map(|y| y * m).collect()
        }
        _ => y0,
    };
    let y0 = if rng.chance(0.04) { vec![y0[0]; y0.len()] } else { y0 };
    let (rtol, atol) = if method == Method::Rk23 {
        (rng.logu(1e-5, 1e-2), rng.logu(1e-10, 1e-4))
    } else {
        (rng.logu(1e-8, 1e-3), rng.logu(1e-12, 1e-5))
    };
    let (rtol, atol) = (nice(rng, rtol), nice(rng, atol));
    let (rtol, atol) = match rng.below(50) {
        // only one of the two tolerances in use, or next to none
        0 => (0.0, rng.logu(1e-6, 1e-3) * (1. + y0.iter().fold(0f64, |a, y| a.max(y.abs())))),
        1 => (rtol, 0.0),
        2 => (rng.logu(1e-2, 3.), atol),
        _ => (rtol, atol),
    };
    // an absolute tolerance that means something for the magnitudes at hand
    let big = y0.iter().fold(0f64, |a, y| a.max(y.abs()));
    let atol = match rng.below(4) {
        0 if rtol > 0. && big > 0. && big < 1e-3 => 0.0,
        1 | 2 if rtol > 0. && big > 0. && !(1e-3..1e5).contains(&big) => atol * big,
        _ => atol,
    };
    let dt_max = match rng.below(5) {
        0 => maxgap * rng.uni(0.1, 0.9),
        1 => maxgap,
        2 => maxgap * 3.,
        _ => 10.,
    };
    let dt_max = dt_max.max(span / 1000.);
    if method.adaptive() {
        dt = match rng.below(4) {
            0 => 0.1,
            1 => maxgap * rng.logu(0.001, 0.5),
            2 => maxgap * rng.uni(0.5, 20.),
            _ => dt,
        };
    }
    let mut spec = SysSpec {
        kind,
        method,
        dt,
        dt_max,
        max_iter: *rng.pick(&[1u8, 2, 3, 5, 5, 5, 8, 10, 20, 5, 10, 0, 31, 64, 128, 255]),
        rtol,
        atol,
        save: o.log || rng.chance(0.5),
        save_states: o.log || rng.chance(0.5),
        t0,
        t_report,
        y0,
        p,
    };
    if rng.chance(0.05) {
        let s = *rng.pick(&[1e-4, 1e-9, 1e-2, 1e3, 1e5, 4.2e6]);
        rescale_storage(&mut spec, s);
    }
    if rng.chance(0.06) && o.any_time && !matches!(kind, Kind::Osc | Kind::TmBc) {
        let s = match rng.below(4) {
            0 => 3600.,
            1 => 1e-3,
            2 => rng.logu(10., 1e5),
            _ => rng.logu(1e-7, 0.1),
        };
        rescale_time(&mut spec, s);
    }
    tame(&mut spec);
    spec
}
/// The same problem in other units of heat.
fn rescale_storage(spec: &mut SysSpec, s: f64) {
    let (m, h): (std::ops::Range<usize>, std::ops::Range<usize>) = match spec.kind {
        Kind::One | Kind::Osc => return,
        Kind::Net4 => (0..4, 4..13),
        Kind::Wide => (0..9, 9..34),
        Kind::ResNet => (0..3, 3..7),
        Kind::Ring => (0..4, 4..8),
        Kind::Mix => (0..2, 2..7),
        Kind::Star => (0..6, 6..12),
        Kind::Nest => (0..3, 3..6),
        Kind::Big => (0..BIG, BIG..2 * BIG),
        Kind::Tm3 => (0..3, 3..5),
        Kind::TmBc => (0..2, 2..4),
    };
    for i in m.chain(h) {
        spec.p[i] *= s;
    }
}
/// The same problem `s` times as slow.
fn rescale_time(spec: &mut SysSpec, s: f64) {
    spec.t0 *= s;
    spec.dt *= s;
    spec.dt_max *= s;
    spec.t_report.iter_mut().for_each(|t| *t *= s);
    spec.t_report.dedup();
    for i in rate_params(spec.kind) {
        spec.p[i] /= s;
    }
    match spec.kind {
        Kind::Net4 => spec.p[12] /= s,
        Kind::Wide => spec.p[33] /= s,
        _ => {}
    }
}
/// Keeps adaptive runs short: the step log makes every copy of the system as large as the run is long.
pub fn tame(spec: &mut SysSpec) {
    if spec.method.adaptive() {
        // what can be attained when the increments are all but rounding
        let big = spec.y0.iter().fold(0f64, |a, y| a.max(y.abs()));
        for k in 0..9 {
            if crate::refsolver::adaptive_trials(spec, 700) <= 700 {
                break;
            }
            spec.rtol *= 6.;
            spec.atol *= 6.;
            if k >= 2 {
                spec.atol = spec.atol.max(big * 1e-12 * 6f64.powi(k));
            }
        }
    }
}
