//! Systems under simulation. Two are the repository's own examples; the others are built here with the
//! repository's macros and traits, so that the model callback is a seam (`seam::on_eval`).
//! `SimSys` gives the simulator a uniform view; the reference derivatives are written independently of the macros.
#![allow(clippy::all)]
use crate::seam;
use crate::spec::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde::{Deserialize, Serialize};

// ---- harness components -------------------------------------------------------------------------------------
/// storage node; uses every default method of `HasState`
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Node {
    pub c: f64,
    pub state: NodeState,
    pub history: NodeStateHistoryVec,
}
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct NodeState {
    pub x: f64,
    pub dx: f64,
}
impl HasState for Node {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.dx
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dx = val;
    }
    fn storage(&self) -> f64 {
        self.c
    }
}
/// nonlinear, bounded-gain connection
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Link {
    pub h: f64,
    pub g: f64,
    pub state: LinkState,
    pub history: LinkStateHistoryVec,
}
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct LinkState {
    pub q: f64,
}
impl Flow for Link {
    fn flow(&self) -> f64 {
        self.state.q
    }
    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {
        let d = p0.state() - p1.state();
        self.state.q = self.h * d + self.g * d.sin();
    }
}

// ---- harness systems ----------------------------------------------------------------------------------------
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        let t = self.state.time;
        let x = self.n1.state.x;
        self.n1.step_deriv(-self.p[0] * x + self.p[1] * (self.p[2] * t).sin());
        self.n1.step_deriv(self.p[3] * x.cos() + self.p[4]);
        if let Some((v, _)) = g { self.n1.state.dx = v; }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct One {
    pub solver_type: SolverTypes,
    pub p: Vec<f64>,
    #[use_state]
    pub n1: Node,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        let t = self.state.time;
        self.pos.step_deriv(self.vel.state());
        self.vel.step_deriv(-self.p[0] * self.pos.state.x.sin() - self.p[1] * self.vel.state.x + self.p[2] * (self.p[3] * t).cos());
        match g { Some((v, 0)) => self.pos.state.dx = v, Some((v, _)) => self.vel.state.dx = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Osc {
    pub state: SystemState,
    #[use_state]
    pub pos: Node,
    #[use_state]
    pub vel: Node,
    pub p: Vec<f64>,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
    pub history: SystemStateHistoryVec,
}

#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (a, d, l1), (d, b, l2), (b, c, l3), (c, a, l4));
        update_derivs!(self, (a, d, l1), (d, b, l2), (b, c, l3), (c, a, l4));
        let f = self.p[0] * (self.p[1] * self.state.time).sin() / self.c.storage();
        self.c.step_deriv(f);
        match g { Some((v, 0)) => self.a.state.dx = v, Some((v, 1)) => self.d.state.dx = v, Some((v, 2)) => self.b.state.dx = v,
                  Some((v, _)) => self.c.state.dx = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Net4 {
    pub solver_type: SolverTypes,
    #[use_state]
    pub a: Node,
    #[save_state]
    pub l1: Link,
    #[use_state]
    pub d: Node,
    #[save_state]
    pub l2: Link,
    #[use_state]
    pub b: Node,
    #[save_state]
    pub l3: Link,
    pub p: Vec<f64>,
    #[save_state]
    pub l4: Link,
    #[use_state]
    pub c: Node,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

/// reservoir from the repository in the middle of the field list, used as source and as sink
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (r, m1, h1), (m1, m2, h2), (m2, r, h3), (m3, m2, h4));
        update_derivs!(self, (r, m1, h1), (m1, m2, h2), (m2, r, h3), (m3, m2, h4));
        match g { Some((v, 0)) => self.m1.state.dtemp = v, Some((v, 1)) => self.m2.state.dtemp = v, Some((v, _)) => self.m3.state.dtemp = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct ResNet {
    pub solver_type: SolverTypes,
    #[use_state]
    pub m1: ThermalMass,
    #[save_state]
    pub h1: Conductance,
    #[use_state]
    pub r: ThermalReservoir,
    #[save_state]
    pub h2: Conductance,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub h3: Conductance,
    #[use_state]
    pub m3: ThermalMass,
    #[save_state]
    pub h4: Conductance,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

/// closed ring of the repository's thermal masses
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (m1, m2, h12), (m2, m3, h23), (m3, m4, h34), (m4, m1, h41));
        update_derivs!(self, (m1, m2, h12), (m2, m3, h23), (m3, m4, h34), (m4, m1, h41));
        match g { Some((v, 0)) => self.m1.state.dtemp = v, Some((v, 1)) => self.m2.state.dtemp = v,
                  Some((v, 2)) => self.m3.state.dtemp = v, Some((v, _)) => self.m4.state.dtemp = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Ring {
    #[save_state]
    pub h12: Conductance,
    #[save_state]
    pub h23: Conductance,
    #[save_state]
    pub h34: Conductance,
    #[save_state]
    pub h41: Conductance,
    #[use_state]
    pub m1: ThermalMass,
    #[use_state]
    pub m2: ThermalMass,
    #[use_state]
    pub m3: ThermalMass,
    #[use_state]
    pub m4: ThermalMass,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub solver_type: SolverTypes,
    pub history: SystemStateHistoryVec,
}

/// two reservoirs and two masses; parallel connections in opposite directions, reservoir to reservoir
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (m1, m2, a), (m2, m1, b), (r1, r2, c), (r1, m1, d), (m2, r2, e));
        update_derivs!(self, (m1, m2, a), (m2, m1, b), (r1, r2, c), (r1, m1, d), (m2, r2, e));
        match g { Some((v, k)) if k % 2 == 0 => self.m1.state.dtemp = v, Some((v, _)) => self.m2.state.dtemp = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Mix {
    #[use_state]
    pub r1: ThermalReservoir,
    pub history: SystemStateHistoryVec,
    #[save_state]
    pub a: Conductance,
    #[use_state]
    pub m1: ThermalMass,
    #[save_state]
    pub b: Conductance,
    #[save_state]
    pub c: Conductance,
    pub solver_type: SolverTypes,
    #[use_state]
    pub m2: ThermalMass,
    pub state: SystemState,
    #[save_state]
    pub d: Conductance,
    #[use_state]
    pub r2: ThermalReservoir,
    #[save_state]
    pub e: Conductance,
    pub t_report: Vec<f64>,
}

/// closed star: one mass in six connections, two of them parallel
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (m0, m1, s1), (m2, m0, s2), (m0, m3, s3), (m4, m0, s4), (m0, m5, s5), (m3, m0, s6));
        update_derivs!(self, (m0, m1, s1), (m2, m0, s2), (m0, m3, s3), (m4, m0, s4), (m0, m5, s5), (m3, m0, s6));
        match g { Some((v, 0)) => self.m0.state.dtemp = v, Some((v, 1)) => self.m1.state.dtemp = v, Some((v, 2)) => self.m2.state.dtemp = v,
                  Some((v, 3)) => self.m3.state.dtemp = v, Some((v, 4)) => self.m4.state.dtemp = v, Some((v, _)) => self.m5.state.dtemp = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Star {
    #[use_state]
    pub m0: ThermalMass,
    #[use_state]
    pub m1: ThermalMass,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub s1: Conductance,
    #[save_state]
    pub s2: Conductance,
    #[save_state]
    pub s3: Conductance,
    #[use_state]
    pub m3: ThermalMass,
    #[use_state]
    pub m4: ThermalMass,
    #[save_state]
    pub s4: Conductance,
    #[save_state]
    pub s5: Conductance,
    #[save_state]
    pub s6: Conductance,
    #[use_state]
    pub m5: ThermalMass,
    pub solver_type: SolverTypes,
    pub t_report: Vec<f64>,
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
}

/// closed triangle; the connections sit in parts of their own that have no state, one inside the other
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Inner {
    #[save_state]
    pub h12: Conductance,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Links {
    pub name: String,
    #[save_state]
    pub h01: Conductance,
    #[save_state]
    pub inner: Inner,
    #[save_state]
    pub h20: Conductance,
}
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        self.links.h01.set_flow(&self.m0, &self.m1);
        self.links.inner.h12.set_flow(&self.m1, &self.m2);
        self.links.h20.set_flow(&self.m2, &self.m0);
        let (a, b, c) = (self.links.h01.flow(), self.links.inner.h12.flow(), self.links.h20.flow());
        self.m0.step_deriv((c - a) / self.m0.storage());
        self.m1.step_deriv((a - b) / self.m1.storage());
        self.m2.step_deriv((b - c) / self.m2.storage());
        match g { Some((v, 0)) => self.m0.state.dtemp = v, Some((v, 1)) => self.m1.state.dtemp = v, Some((v, _)) => self.m2.state.dtemp = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Nest {
    #[use_state]
    pub m0: ThermalMass,
    #[save_state]
    pub links: Links,
    pub t_report: Vec<f64>,
    #[use_state]
    pub m1: ThermalMass,
    pub state: SystemState,
    #[use_state]
    pub m2: ThermalMass,
    pub history: SystemStateHistoryVec,
    pub solver_type: SolverTypes,
}

/// more components than any example, in no particular order
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (n0, n1, k0), (n1, n2, k1), (n2, n3, k2), (n3, n4, k3), (n4, n5, k4), (n5, n6, k5), (n6, n7, k6), (n7, n8, k7), (n8, n0, k8), (n4, n0, k9), (n2, n7, k10), (n6, n1, k11));
        update_derivs!(self, (n0, n1, k0), (n1, n2, k1), (n2, n3, k2), (n3, n4, k3), (n4, n5, k4), (n5, n6, k5), (n6, n7, k6), (n7, n8, k7), (n8, n0, k8), (n4, n0, k9), (n2, n7, k10), (n6, n1, k11));
        let f = self.p[0] * (self.p[1] * self.state.time).sin() / self.n8.storage();
        self.n8.step_deriv(f);
        match g { Some((v, 0)) => self.n0.state.dx = v, Some((v, 1)) => self.n1.state.dx = v, Some((v, 2)) => self.n2.state.dx = v, Some((v, 3)) => self.n3.state.dx = v, Some((v, 4)) => self.n4.state.dx = v, Some((v, 5)) => self.n5.state.dx = v, Some((v, 6)) => self.n6.state.dx = v, Some((v, 7)) => self.n7.state.dx = v, Some((v, _)) => self.n8.state.dx = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Wide {
    pub state: SystemState,
    #[use_state]
    pub n0: Node,
    #[save_state]
    pub k0: Link,
    #[save_state]
    pub k1: Link,
    #[use_state]
    pub n1: Node,
    #[save_state]
    pub k2: Link,
    #[use_state]
    pub n2: Node,
    #[save_state]
    pub k3: Link,
    #[use_state]
    pub n3: Node,
    #[save_state]
    pub k4: Link,
    #[save_state]
    pub k5: Link,
    #[use_state]
    pub n4: Node,
    #[save_state]
    pub k6: Link,
    pub p: Vec<f64>,
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub n5: Node,
    #[save_state]
    pub k7: Link,
    #[use_state]
    pub n6: Node,
    #[save_state]
    pub k8: Link,
    #[save_state]
    pub k9: Link,
    #[use_state]
    pub n7: Node,
    #[save_state]
    pub k10: Link,
    #[use_state]
    pub n8: Node,
    #[save_state]
    pub k11: Link,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
}
pub const WIDE_LINKS: [(usize, usize); 12] = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (7, 8), (8, 0), (4, 0), (2, 7), (6, 1)];

/// a closed ring of 36: more states than any fixed size one might think of
#[solver(
    fn update_derivs(&mut self) {
        let g = seam::on_eval();
        self.reset_derivs();
        connect_states!(self, (m0, m1, b0), (m1, m2, b1), (m2, m3, b2), (m3, m4, b3), (m4, m5, b4), (m5, m6, b5), (m6, m7, b6), (m7, m8, b7), (m8, m9, b8), (m9, m10, b9), (m10, m11, b10), (m11, m12, b11), (m12, m13, b12), (m13, m14, b13), (m14, m15, b14), (m15, m16, b15), (m16, m17, b16), (m17, m18, b17), (m18, m19, b18), (m19, m20, b19), (m20, m21, b20), (m21, m22, b21), (m22, m23, b22), (m23, m24, b23), (m24, m25, b24), (m25, m26, b25), (m26, m27, b26), (m27, m28, b27), (m28, m29, b28), (m29, m30, b29), (m30, m31, b30), (m31, m32, b31), (m32, m33, b32), (m33, m34, b33), (m34, m35, b34), (m35, m0, b35));
        update_derivs!(self, (m0, m1, b0), (m1, m2, b1), (m2, m3, b2), (m3, m4, b3), (m4, m5, b4), (m5, m6, b5), (m6, m7, b6), (m7, m8, b7), (m8, m9, b8), (m9, m10, b9), (m10, m11, b10), (m11, m12, b11), (m12, m13, b12), (m13, m14, b13), (m14, m15, b14), (m15, m16, b15), (m16, m17, b16), (m17, m18, b17), (m18, m19, b18), (m19, m20, b19), (m20, m21, b20), (m21, m22, b21), (m22, m23, b22), (m23, m24, b23), (m24, m25, b24), (m25, m26, b25), (m26, m27, b26), (m27, m28, b27), (m28, m29, b28), (m29, m30, b29), (m30, m31, b30), (m31, m32, b31), (m32, m33, b32), (m33, m34, b33), (m34, m35, b34), (m35, m0, b35));
        match g { Some((v, 0)) => self.m0.state.dtemp = v, Some((v, 1)) => self.m4.state.dtemp = v, Some((v, 2)) => self.m8.state.dtemp = v, Some((v, 3)) => self.m12.state.dtemp = v, Some((v, 4)) => self.m16.state.dtemp = v, Some((v, 5)) => self.m20.state.dtemp = v, Some((v, 6)) => self.m24.state.dtemp = v, Some((v, 7)) => self.m28.state.dtemp = v, Some((v, _)) => self.m35.state.dtemp = v, None => {} }
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Big {
    pub state: SystemState,
    #[use_state]
    pub m0: ThermalMass,
    #[save_state]
    pub b0: Conductance,
    #[use_state]
    pub m1: ThermalMass,
    #[save_state]
    pub b1: Conductance,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub b2: Conductance,
    #[use_state]
    pub m3: ThermalMass,
    #[save_state]
    pub b3: Conductance,
    #[use_state]
    pub m4: ThermalMass,
    #[save_state]
    pub b4: Conductance,
    #[use_state]
    pub m5: ThermalMass,
    #[save_state]
    pub b5: Conductance,
    #[use_state]
    pub m6: ThermalMass,
    #[save_state]
    pub b6: Conductance,
    #[use_state]
    pub m7: ThermalMass,
    #[save_state]
    pub b7: Conductance,
    #[use_state]
    pub m8: ThermalMass,
    #[save_state]
    pub b8: Conductance,
    #[use_state]
    pub m9: ThermalMass,
    #[save_state]
    pub b9: Conductance,
    #[use_state]
    pub m10: ThermalMass,
    #[save_state]
    pub b10: Conductance,
    #[use_state]
    pub m11: ThermalMass,
    #[save_state]
    pub b11: Conductance,
    #[use_state]
    pub m12: ThermalMass,
    #[save_state]
    pub b12: Conductance,
    #[use_state]
    pub m13: ThermalMass,
    #[save_state]
    pub b13: Conductance,
    #[use_state]
    pub m14: ThermalMass,
    #[save_state]
    pub b14: Conductance,
    #[use_state]
    pub m15: ThermalMass,
    #[save_state]
    pub b15: Conductance,
    #[use_state]
    pub m16: ThermalMass,
    #[save_state]
    pub b16: Conductance,
    #[use_state]
    pub m17: ThermalMass,
    #[save_state]
    pub b17: Conductance,
    #[use_state]
    pub m18: ThermalMass,
    #[save_state]
    pub b18: Conductance,
    #[use_state]
    pub m19: ThermalMass,
    #[save_state]
    pub b19: Conductance,
    #[use_state]
    pub m20: ThermalMass,
    #[save_state]
    pub b20: Conductance,
    #[use_state]
    pub m21: ThermalMass,
    #[save_state]
    pub b21: Conductance,
    #[use_state]
    pub m22: ThermalMass,
    #[save_state]
    pub b22: Conductance,
    #[use_state]
    pub m23: ThermalMass,
    #[save_state]
    pub b23: Conductance,
    #[use_state]
    pub m24: ThermalMass,
    #[save_state]
    pub b24: Conductance,
    #[use_state]
    pub m25: ThermalMass,
    #[save_state]
    pub b25: Conductance,
    #[use_state]
    pub m26: ThermalMass,
    #[save_state]
    pub b26: Conductance,
    #[use_state]
    pub m27: ThermalMass,
    #[save_state]
    pub b27: Conductance,
    #[use_state]
    pub m28: ThermalMass,
    #[save_state]
    pub b28: Conductance,
    #[use_state]
    pub m29: ThermalMass,
    #[save_state]
    pub b29: Conductance,
    #[use_state]
    pub m30: ThermalMass,
    #[save_state]
    pub b30: Conductance,
    #[use_state]
    pub m31: ThermalMass,
    #[save_state]
    pub b31: Conductance,
    #[use_state]
    pub m32: ThermalMass,
    #[save_state]
    pub b32: Conductance,
    #[use_state]
    pub m33: ThermalMass,
    #[save_state]
    pub b33: Conductance,
    #[use_state]
    pub m34: ThermalMass,
    #[save_state]
    pub b34: Conductance,
    #[use_state]
    pub m35: ThermalMass,
    #[save_state]
    pub b35: Conductance,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
    pub history: SystemStateHistoryVec,
}
pub const BIG: usize = 36;

// ---- uniform view -------------------------------------------------------------------------------------------
pub trait NodeView: HasState {
    fn col_x(&self) -> &Vec<f64>;
    fn col_dx(&self) -> &Vec<f64>;
    fn cur(&self) -> (f64, f64);
    fn set_cur(&mut self, x: f64, dx: f64);
    fn clear_hist(&mut self);
    fn set_c(&mut self, c: f64);
}
impl NodeView for Node {
    fn col_x(&self) -> &Vec<f64> {
        &self.history.x
    }
    fn col_dx(&self) -> &Vec<f64> {
        &self.history.dx
    }
    fn cur(&self) -> (f64, f64) {
        (self.state.x, self.state.dx)
    }
    fn set_cur(&mut self, x: f64, dx: f64) {
        self.state = NodeState { x, dx };
    }
    fn clear_hist(&mut self) {
        self.history = Default::default();
    }
    fn set_c(&mut self, c: f64) {
        self.c = c
    }
}
macro_rules! thermal_view {
    ($t:ty, $setc:expr) => {
        impl NodeView for $t {
            fn col_x(&self) -> &Vec<f64> {
                &self.history.temp
            }
            fn col_dx(&self) -> &Vec<f64> {
                &self.history.dtemp
            }
            fn cur(&self) -> (f64, f64) {
                (self.state.temp, self.state.dtemp)
            }
            fn set_cur(&mut self, x: f64, dx: f64) {
                self.state = ThermalMassState { temp: x, dtemp: dx };
            }
            fn clear_hist(&mut self) {
                self.history = Default::default();
            }
            fn set_c(&mut self, c: f64) {
                ($setc)(self, c)
            }
        }
    };
}
thermal_view!(ThermalMass, |s: &mut ThermalMass, c| s.c = c);
thermal_view!(ThermalReservoir, |_s: &mut ThermalReservoir, _c| ());

pub trait FlowView: Flow {
    fn col_q(&self) -> &Vec<f64>;
    fn cur_q(&self) -> f64;
    fn clear_hist(&mut self);
    fn set_par(&mut self, h: f64, g: f64);
}
impl FlowView for Link {
    fn col_q(&self) -> &Vec<f64> {
        &self.history.q
    }
    fn cur_q(&self) -> f64 {
        self.state.q
    }
    fn clear_hist(&mut self) {
        self.history = Default::default();
    }
    fn set_par(&mut self, h: f64, g: f64) {
        self.h = h;
        self.g = g;
    }
}
impl FlowView for Conductance {
    fn col_q(&self) -> &Vec<f64> {
        &self.history.q
    }
    fn cur_q(&self) -> f64 {
        self.state.q
    }
    fn clear_hist(&mut self) {
        self.history = Default::default();
    }
    fn set_par(&mut self, h: f64, _g: f64) {
        self.h = h;
    }
}

pub trait SimSys: SolverVariantMethods + Serialize + for<'a> Deserialize<'a> + Clone + PartialEq + Default + std::fmt::Debug + Send + 'static {
    fn do_walk(&mut self);
    fn do_solve_step(&mut self);
    fn do_save_state(&mut self);
    fn sys_state(&self) -> SystemState;
    fn sys_state_mut(&mut self) -> &mut SystemState;
    fn sys_hist(&self) -> &SystemStateHistoryVec;
    fn t_rep(&mut self) -> &mut Vec<f64>;
    fn t_rep_ref(&self) -> &Vec<f64>;
    fn st_ref(&self) -> &SolverTypes;
    fn st_mut(&mut self) -> &mut SolverTypes;
    fn nodes(&self) -> Vec<&dyn NodeView>;
    fn nodes_mut(&mut self) -> Vec<&mut dyn NodeView>;
    fn flows(&self) -> Vec<&dyn FlowView>;
    fn flows_mut(&mut self) -> Vec<&mut dyn FlowView>;
    fn clear_sys_hist(&mut self);
    fn set_params(&mut self, p: &[f64]);

    fn build(spec: &SysSpec) -> Self {
        let mut s = Self::default();
        s.set_params(&spec.p);
        for (n, y) in s.nodes_mut().into_iter().zip(&spec.y0) {
            n.set_cur(*y, 0.0);
        }
        *s.t_rep() = spec.t_report.clone();
        *s.sys_state_mut() = SystemState { i: 0, time: spec.t0 };
        *s.st_mut() = spec.solver();
        s
    }
    fn clear_rows(&mut self) {
        self.clear_sys_hist();
        for n in self.nodes_mut() {
            n.clear_hist();
        }
        for n in self.flows_mut() {
            n.clear_hist();
        }
    }
    /// all component columns: (label, values)
    fn cols(&self) -> Vec<(String, Vec<f64>)> {
        let mut v = vec![];
        for (k, n) in self.nodes().into_iter().enumerate() {
            v.push((format!("state{k}"), n.col_x().clone()));
            v.push((format!("deriv{k}"), n.col_dx().clone()));
        }
        for (k, n) in self.flows().into_iter().enumerate() {
            v.push((format!("flow{k}"), n.col_q().clone()));
        }
        v
    }
    fn cur_cols(&self) -> Vec<f64> {
        let mut v = vec![];
        for n in self.nodes() {
            let (x, dx) = n.cur();
            v.push(x);
            v.push(dx);
        }
        for n in self.flows() {
            v.push(n.cur_q());
        }
        v
    }
    /// component states as seen by the components themselves (not through the bulk accessor)
    fn ys(&self) -> Vec<f64> {
        self.nodes().iter().map(|n| n.cur().0).collect()
    }
    fn y_cols(&self) -> Vec<&Vec<f64>> {
        self.nodes().into_iter().map(|n| { let c: *const Vec<f64> = n.col_x(); unsafe { &*c } }).collect()
    }
    fn n_rows(&self) -> usize {
        self.sys_hist().time.len()
    }
}
macro_rules! sim_sys {
    ($t:ty, nodes: [$($n:ident),*], flows: [$($($f:ident).+),*], $sp:expr) => {
        impl SimSys for $t {
            fn do_walk(&mut self) { self.walk() }
            fn do_solve_step(&mut self) { self.solve_step() }
            fn do_save_state(&mut self) { self.save_state() }
            fn sys_state(&self) -> SystemState { self.state }
            fn sys_state_mut(&mut self) -> &mut SystemState { &mut self.state }
            fn sys_hist(&self) -> &SystemStateHistoryVec { &self.history }
            fn clear_sys_hist(&mut self) { self.history = Default::default(); }
            fn t_rep(&mut self) -> &mut Vec<f64> { &mut self.t_report }
            fn t_rep_ref(&self) -> &Vec<f64> { &self.t_report }
            fn st_ref(&self) -> &SolverTypes { &self.solver_type }
            fn st_mut(&mut self) -> &mut SolverTypes { &mut self.solver_type }
            fn nodes(&self) -> Vec<&dyn NodeView> { vec![$(&self.$n as &dyn NodeView),*] }
            fn nodes_mut(&mut self) -> Vec<&mut dyn NodeView> { vec![$(&mut self.$n as &mut dyn NodeView),*] }
            fn flows(&self) -> Vec<&dyn FlowView> { vec![$(&self.$($f).+ as &dyn FlowView),*] }
            fn flows_mut(&mut self) -> Vec<&mut dyn FlowView> { vec![$(&mut self.$($f).+ as &mut dyn FlowView),*] }
            fn set_params(&mut self, p: &[f64]) { ($sp)(self, p) }
        }
    };
}
sim_sys!(One, nodes: [n1], flows: [], |s: &mut One, p: &[f64]| { s.p = p.to_vec(); s.n1.c = 1.0; });
sim_sys!(Osc, nodes: [pos, vel], flows: [], |s: &mut Osc, p: &[f64]| { s.p = p.to_vec(); s.pos.c = 1.0; s.vel.c = 2.0; });
sim_sys!(Net4, nodes: [a, d, b, c], flows: [l1, l2, l3, l4], |s: &mut Net4, p: &[f64]| {
    s.a.c = p[0]; s.d.c = p[1]; s.b.c = p[2]; s.c.c = p[3];
    s.l1.set_par(p[4], p[8]); s.l2.set_par(p[5], p[9]); s.l3.set_par(p[6], p[10]); s.l4.set_par(p[7], p[11]);
    s.p = vec![p[12], p[13]];
});
sim_sys!(ResNet, nodes: [m1, r, m2, m3], flows: [h1, h2, h3, h4], |s: &mut ResNet, p: &[f64]| {
    s.m1.c = p[0]; s.m2.c = p[1]; s.m3.c = p[2];
    s.h1.h = p[3]; s.h2.h = p[4]; s.h3.h = p[5]; s.h4.h = p[6];
});
sim_sys!(Ring, nodes: [m1, m2, m3, m4], flows: [h12, h23, h34, h41], |s: &mut Ring, p: &[f64]| {
    s.m1.c = p[0]; s.m2.c = p[1]; s.m3.c = p[2]; s.m4.c = p[3];
    s.h12.h = p[4]; s.h23.h = p[5]; s.h34.h = p[6]; s.h41.h = p[7];
});
sim_sys!(Mix, nodes: [r1, m1, m2, r2], flows: [a, b, c, d, e], |s: &mut Mix, p: &[f64]| {
    s.m1.c = p[0]; s.m2.c = p[1]; s.a.h = p[2]; s.b.h = p[3]; s.c.h = p[4]; s.d.h = p[5]; s.e.h = p[6];
});
sim_sys!(Star, nodes: [m0, m1, m2, m3, m4, m5], flows: [s1, s2, s3, s4, s5, s6], |s: &mut Star, p: &[f64]| {
    s.m0.c = p[0]; s.m1.c = p[1]; s.m2.c = p[2]; s.m3.c = p[3]; s.m4.c = p[4]; s.m5.c = p[5];
    s.s1.h = p[6]; s.s2.h = p[7]; s.s3.h = p[8]; s.s4.h = p[9]; s.s5.h = p[10]; s.s6.h = p[11];
});
sim_sys!(Nest, nodes: [m0, m1, m2], flows: [links.h01, links.inner.h12, links.h20], |s: &mut Nest, p: &[f64]| {
    s.m0.c = p[0]; s.m1.c = p[1]; s.m2.c = p[2]; s.links.h01.h = p[3]; s.links.inner.h12.h = p[4]; s.links.h20.h = p[5];
    // text of all kinds has to survive storing
    const NAMES: [&str; 12] = ["triangle", "", "null", "~", "1e5", "- a: b", "two\nlines\n", " edge ", "\"q\" 'q' \\ #", "Wärme ΔT 温度 🌡", "\u{7f}\t\u{0}\u{85}", "true"];
    s.links.name = NAMES[(p[0].to_bits() >> 20) as usize % NAMES.len()].into();
});
sim_sys!(Wide, nodes: [n0, n1, n2, n3, n4, n5, n6, n7, n8], flows: [k0, k1, k2, k3, k4, k5, k6, k7, k8, k9, k10, k11], |s: &mut Wide, p: &[f64]| { s.n0.c = p[0]; s.n1.c = p[1]; s.n2.c = p[2]; s.n3.c = p[3]; s.n4.c = p[4]; s.n5.c = p[5]; s.n6.c = p[6]; s.n7.c = p[7]; s.n8.c = p[8]; s.k0.set_par(p[9], p[21]); s.k1.set_par(p[10], p[22]); s.k2.set_par(p[11], p[23]); s.k3.set_par(p[12], p[24]); s.k4.set_par(p[13], p[25]); s.k5.set_par(p[14], p[26]); s.k6.set_par(p[15], p[27]); s.k7.set_par(p[16], p[28]); s.k8.set_par(p[17], p[29]); s.k9.set_par(p[18], p[30]); s.k10.set_par(p[19], p[31]); s.k11.set_par(p[20], p[32]); s.p = vec![p[33], p[34]]; });
sim_sys!(Big, nodes: [m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20, m21, m22, m23, m24, m25, m26, m27, m28, m29, m30, m31, m32, m33, m34, m35], flows: [b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, b32, b33, b34, b35], |s: &mut Big, p: &[f64]| { s.m0.c = p[0]; s.b0.h = p[36]; s.m1.c = p[1]; s.b1.h = p[37]; s.m2.c = p[2]; s.b2.h = p[38]; s.m3.c = p[3]; s.b3.h = p[39]; s.m4.c = p[4]; s.b4.h = p[40]; s.m5.c = p[5]; s.b5.h = p[41]; s.m6.c = p[6]; s.b6.h = p[42]; s.m7.c = p[7]; s.b7.h = p[43]; s.m8.c = p[8]; s.b8.h = p[44]; s.m9.c = p[9]; s.b9.h = p[45]; s.m10.c = p[10]; s.b10.h = p[46]; s.m11.c = p[11]; s.b11.h = p[47]; s.m12.c = p[12]; s.b12.h = p[48]; s.m13.c = p[13]; s.b13.h = p[49]; s.m14.c = p[14]; s.b14.h = p[50]; s.m15.c = p[15]; s.b15.h = p[51]; s.m16.c = p[16]; s.b16.h = p[52]; s.m17.c = p[17]; s.b17.h = p[53]; s.m18.c = p[18]; s.b18.h = p[54]; s.m19.c = p[19]; s.b19.h = p[55]; s.m20.c = p[20]; s.b20.h = p[56]; s.m21.c = p[21]; s.b21.h = p[57]; s.m22.c = p[22]; s.b22.h = p[58]; s.m23.c = p[23]; s.b23.h = p[59]; s.m24.c = p[24]; s.b24.h = p[60]; s.m25.c = p[25]; s.b25.h = p[61]; s.m26.c = p[26]; s.b26.h = p[62]; s.m27.c = p[27]; s.b27.h = p[63]; s.m28.c = p[28]; s.b28.h = p[64]; s.m29.c = p[29]; s.b29.h = p[65]; s.m30.c = p[30]; s.b30.h = p[66]; s.m31.c = p[31]; s.b31.h = p[67]; s.m32.c = p[32]; s.b32.h = p[68]; s.m33.c = p[33]; s.b33.h = p[69]; s.m34.c = p[34]; s.b34.h = p[70]; s.m35.c = p[35]; s.b35.h = p[71]; });
sim_sys!(System3TM, nodes: [m1, m2, m3], flows: [h12, h23], |s: &mut System3TM, p: &[f64]| {
    s.m1.c = p[0]; s.m2.c = p[1]; s.m3.c = p[2]; s.h12.h = p[3]; s.h23.h = p[4];
});
sim_sys!(System3TMWithBC, nodes: [m1, m2, m3], flows: [h12, h23], |s: &mut System3TMWithBC, p: &[f64]| {
    s.m2.c = p[0]; s.m3.c = p[1]; s.h12.h = p[2]; s.h23.h = p[3];
});

/// Reference derivative: writes dy and flows for time t and states y (after applying the model's constraint to y).
pub fn ref_deriv(kind: Kind, p: &[f64], t: f64, y: &mut [f64], dy: &mut [f64], q: &mut Vec<f64>) {
    q.clear();
    match kind {
        Kind::One => {
            dy[0] = -p[0] * y[0] + p[1] * (p[2] * t).sin() + p[3] * y[0].cos() + p[4];
        }
        Kind::Osc => {
            dy[0] = y[1];
            dy[1] = -p[0] * y[0].sin() - p[1] * y[1] + p[2] * (p[3] * t).cos();
        }
        Kind::Net4 => {
            // y = [a, d, b, c]
            let link = |i: usize, x: f64| p[4 + i] * x + p[8 + i] * x.sin();
            let (ad, db, bc, ca) = (link(0, y[0] - y[1]), link(1, y[1] - y[2]), link(2, y[2] - y[3]), link(3, y[3] - y[0]));
            dy[0] = (ca - ad) / p[0];
            dy[1] = (ad - db) / p[1];
            dy[2] = (db - bc) / p[2];
            dy[3] = (bc - ca) / p[3] + p[12] * (p[13] * t).sin() / p[3];
            q.extend([ad, db, bc, ca]);
        }
        Kind::ResNet => {
            // y = [m1, r, m2, m3]
            let h1 = p[3] * (y[1] - y[0]);
            let h2 = p[4] * (y[0] - y[2]);
            let h3 = p[5] * (y[2] - y[1]);
            let h4 = p[6] * (y[3] - y[2]);
            dy[0] = (h1 - h2) / p[0];
            dy[1] = 0.0;
            dy[2] = (h2 - h3 + h4) / p[1];
            dy[3] = -h4 / p[2];
            q.extend([h1, h2, h3, h4]);
        }
        Kind::Ring => {
            let h12 = p[4] * (y[0] - y[1]);
            let h23 = p[5] * (y[1] - y[2]);
            let h34 = p[6] * (y[2] - y[3]);
            let h41 = p[7] * (y[3] - y[0]);
            dy[0] = (h41 - h12) / p[0];
            dy[1] = (h12 - h23) / p[1];
            dy[2] = (h23 - h34) / p[2];
            dy[3] = (h34 - h41) / p[3];
            q.extend([h12, h23, h34, h41]);
        }
        Kind::Mix => {
            // y = [r1, m1, m2, r2]
            let a = p[2] * (y[1] - y[2]);
            let b = p[3] * (y[2] - y[1]);
            let c = p[4] * (y[0] - y[3]);
            let d = p[5] * (y[0] - y[1]);
            let e = p[6] * (y[2] - y[3]);
            dy[1] = (b - a + d) / p[0];
            dy[2] = (a - b - e) / p[1];
            q.extend([a, b, c, d, e]);
        }
        Kind::Nest => {
            let (a, b, c) = (p[3] * (y[0] - y[1]), p[4] * (y[1] - y[2]), p[5] * (y[2] - y[0]));
            dy[0] = (c - a) / p[0];
            dy[1] = (a - b) / p[1];
            dy[2] = (b - c) / p[2];
            q.extend([a, b, c]);
        }
        Kind::Star => {
            let ends = STAR_LINKS;
            for (i, &(a, b)) in ends.iter().enumerate() {
                let f = p[6 + i] * (y[a] - y[b]);
                dy[a] -= f / p[a];
                dy[b] += f / p[b];
                q.push(f);
            }
        }
        Kind::Big => {
            for i in 0..BIG {
                let (a, b) = (i, (i + 1) % BIG);
                let f = p[BIG + i] * (y[a] - y[b]);
                dy[a] -= f / p[a];
                dy[b] += f / p[b];
                q.push(f);
            }
        }
        Kind::Wide => {
            for (i, &(a, b)) in WIDE_LINKS.iter().enumerate() {
                let x = y[a] - y[b];
                let f = p[9 + i] * x + p[21 + i] * x.sin();
                dy[a] -= f / p[a];
                dy[b] += f / p[b];
                q.push(f);
            }
            dy[8] += p[33] * (p[34] * t).sin() / p[8];
        }
        Kind::Tm3 => {
            let h12 = p[3] * (y[0] - y[1]);
            let h23 = p[4] * (y[1] - y[2]);
            dy[0] = -h12 / p[0];
            dy[1] = (h12 - h23) / p[1];
            dy[2] = h23 / p[2];
            q.extend([h12, h23]);
        }
        Kind::TmBc => {
            y[0] = bc_temp(t);
            let h12 = p[2] * (y[0] - y[1]);
            let h23 = p[3] * (y[1] - y[2]);
            dy[0] = 0.0;
            dy[1] = (h12 - h23) / p[0];
            dy[2] = h23 / p[1];
            q.extend([h12, h23]);
        }
    }
}
pub const STAR_LINKS: [(usize, usize); 6] = [(0, 1), (2, 0), (0, 3), (4, 0), (0, 5), (3, 0)];
pub fn bc_temp(t: f64) -> f64 {
    10.0 + 3.0 * ((100.0 * t) * t).sin() * (-t / 0.25).exp()
}
/// states that are not free to evolve (boundary condition overwritten by the model / constant reservoir)
pub fn constrained(kind: Kind) -> Option<usize> {
    match kind {
        Kind::TmBc => Some(0),
        _ => None,
    }
}
/// capacitances of the kinds that form closed networks
pub fn closed_caps(kind: Kind, p: &[f64]) -> Option<Vec<f64>> {
    match kind {
        Kind::Tm3 => Some(p[0..3].to_vec()),
        Kind::Ring => Some(p[0..4].to_vec()),
        Kind::Nest => Some(p[0..3].to_vec()),
        Kind::Star => Some(p[0..6].to_vec()),
        Kind::Big => Some(p[0..BIG].to_vec()),
        _ => None,
    }
}
pub fn has_seam(kind: Kind) -> bool {
    !matches!(kind, Kind::Tm3 | Kind::TmBc)
}
/// dispatch a generic function over the system type of a kind
#[macro_export]
macro_rules! with_sys {
    ($kind:expr, $S:ident => $body:expr) => {
        match $kind {
            $crate::spec::Kind::One => { type $S = $crate::models::One; $body }
            $crate::spec::Kind::Osc => { type $S = $crate::models::Osc; $body }
            $crate::spec::Kind::Net4 => { type $S = $crate::models::Net4; $body }
            $crate::spec::Kind::ResNet => { type $S = $crate::models::ResNet; $body }
            $crate::spec::Kind::Ring => { type $S = $crate::models::Ring; $body }
            $crate::spec::Kind::Mix => { type $S = $crate::models::Mix; $body }
            $crate::spec::Kind::Nest => { type $S = $crate::models::Nest; $body }
            $crate::spec::Kind::Star => { type $S = $crate::models::Star; $body }
            $crate::spec::Kind::Big => { type $S = $crate::models::Big; $body }
            $crate::spec::Kind::Wide => { type $S = $crate::models::Wide; $body }
            $crate::spec::Kind::Tm3 => { type $S = dess_examples::three_thermal_mass_sys::System3TM; $body }
            $crate::spec::Kind::TmBc => { type $S = dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC; $body }
        }
    };
}
