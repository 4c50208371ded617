//! Reference geometry of grids, written from the property statements (not from the code).
use crate::rng::Rng;
use std::f64::consts::PI;
use upppp_rust::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D};

pub type Cell = [usize; 3];
pub type Pos = [f64; 3];
pub type Grid = Box<dyn GridFunctions3D>;

#[derive(Clone, Debug, PartialEq)]
pub struct GSpec {
    pub cyl: bool,
    pub cells: Cell,
    /// Cartesian limits the grid is built with
    pub lim: [[f64; 2]; 3],
}

#[derive(Debug, Clone, PartialEq)]
pub enum Where {
    Outside,
    /// exactly one cell
    In(Cell),
    /// on (or numerically too close to) a shared face: any of these
    AnyOf(Vec<Cell>),
    /// numerically too close to the rim of the cylinder to say
    Unknown,
}

/// index candidates of fractional coordinate t in 0..=n
fn cand(t: f64, n: usize) -> Vec<usize> {
    let eps = 1e-8;
    let last = n as f64 - 1.0;
    let a = (t - eps).floor().max(0.0).min(last) as usize;
    let b = (t + eps).floor().max(0.0).min(last) as usize;
    if a == b {
        vec![a]
    } else {
        vec![a, b]
    }
}

impl GSpec {
    pub fn desc(&self) -> String {
        format!(
            "{} grid cells {:?} limits {:?}",
            if self.cyl { "cylindrical" } else { "cartesian" },
            self.cells,
            self.lim
        )
    }
    pub fn n(&self) -> usize {
        self.cells[0] * self.cells[1] * self.cells[2]
    }
    pub fn build(&self) -> Grid {
        if self.cyl {
            Box::new(self.build_cyl())
        } else {
            Box::new(self.build_cart())
        }
    }
    pub fn build_cart(&self) -> CartesianGrid3D {
        CartesianGrid3D::new(self.cells, Dim::ThreeD(self.lim))
    }
    pub fn build_cyl(&self) -> CylindricalGrid3D {
        CylindricalGrid3D::new(self.cells, Dim::ThreeD(self.lim), "volume")
    }
    pub fn axis(&self) -> [f64; 2] {
        [
            (self.lim[0][0] + self.lim[0][1]) / 2.0,
            (self.lim[1][0] + self.lim[1][1]) / 2.0,
        ]
    }
    pub fn radius(&self) -> f64 {
        let hx = (self.lim[0][1] - self.lim[0][0]) / 2.0;
        let hy = (self.lim[1][1] - self.lim[1][0]) / 2.0;
        hx.max(hy)
    }
    /// limits in the grid's own coordinates
    pub fn own_limits(&self) -> [[f64; 2]; 3] {
        if self.cyl {
            [[0.0, self.radius()], [-PI, PI], self.lim[2]]
        } else {
            self.lim
        }
    }
    /// lower and upper bound of cell index i along an axis, in the grid's own coordinates
    pub fn range(&self, axis: usize, i: usize) -> (f64, f64) {
        let n = self.cells[axis] as f64;
        if self.cyl && axis == 0 {
            let r = self.radius();
            return (r * (i as f64 / n).sqrt(), r * ((i + 1) as f64 / n).sqrt());
        }
        let l = self.own_limits()[axis];
        let w = (l[1] - l[0]) / n;
        (l[0] + w * i as f64, l[0] + w * (i + 1) as f64)
    }
    pub fn mid(&self, axis: usize, i: usize) -> f64 {
        let (a, b) = self.range(axis, i);
        (a + b) / 2.0
    }
    /// the grid's own coordinates of a point
    pub fn own(&self, p: Pos) -> Pos {
        if self.cyl {
            let c = self.axis();
            let (x, y) = (p[0] - c[0], p[1] - c[1]);
            [x.hypot(y), y.atan2(x), p[2]]
        } else {
            p
        }
    }
    /// index candidates along an axis of an in-range own coordinate
    pub fn index(&self, axis: usize, v: f64) -> Vec<usize> {
        let n = self.cells[axis];
        let l = self.own_limits()[axis];
        let mut t = (v - l[0]) / (l[1] - l[0]);
        if self.cyl && axis == 0 {
            t = t * t;
        }
        cand(t * n as f64, n)
    }
    pub fn locate(&self, p: Pos) -> Where {
        if p.iter().any(|x| x.is_nan()) {
            return Where::Outside;
        }
        if !self.cyl {
            for a in 0..3 {
                if p[a] < self.lim[a][0] || p[a] > self.lim[a][1] {
                    return Where::Outside;
                }
            }
            return self.combine([self.index(0, p[0]), self.index(1, p[1]), self.index(2, p[2])]);
        }
        let o = self.own(p);
        if p[2] < self.lim[2][0] || p[2] > self.lim[2][1] {
            return Where::Outside;
        }
        if !o[0].is_finite() || o[0] > self.radius() * (1.0 + 1e-9) {
            return Where::Outside;
        }
        if o[0] > self.radius() * (1.0 - 1e-9) {
            return Where::Unknown;
        }
        let mut th = self.index(1, o[1]);
        let n = self.cells[1];
        let t = (o[1] + PI) / (2.0 * PI) * n as f64;
        if o[0] < 1e-9 * self.radius() {
            th = (0..n).collect(); // on the axis every sector contains the point
        } else if t < 1e-7 || t > n as f64 - 1e-7 {
            th = vec![0, n - 1];
            th.dedup();
        }
        self.combine([self.index(0, o[0]), th, self.index(2, p[2])])
    }
    fn combine(&self, c: [Vec<usize>; 3]) -> Where {
        let mut v = vec![];
        for &i in &c[0] {
            for &j in &c[1] {
                for &k in &c[2] {
                    v.push([i, j, k]);
                }
            }
        }
        if v.len() == 1 {
            Where::In(v[0])
        } else {
            Where::AnyOf(v)
        }
    }
    /// the cell of a point for analysis workloads, whose points are never ambiguous
    pub fn cell(&self, p: Pos) -> Option<Cell> {
        match self.locate(p) {
            Where::In(c) => Some(c),
            Where::Outside => None,
            w => panic!("workload point {p:?} is ambiguous: {w:?}"),
        }
    }

    pub fn random(r: &mut Rng, max: usize) -> GSpec {
        let cyl = r.chance(0.4);
        GSpec::random_kind(r, max, cyl)
    }
    pub fn random_kind(r: &mut Rng, max: usize, cyl: bool) -> GSpec {
        let mut cells = [r.int(1, max), r.int(1, max), r.int(1, max)];
        if r.chance(0.004) {
            // more cells than a byte can count
            cells[r.below(3)] = *r.pick(&[33, 130, 257, 300]);
        }
        let scale = *r.pick(&[1.0, 1.0, 10.0, 300.0, 1e-3]);
        let mut lim = [[0.0; 2]; 3];
        let style = r.below(4);
        for l in lim.iter_mut() {
            *l = match style {
                0 => [0.0, 1.0 * scale],
                1 => {
                    let h = r.range(0.3, 2.0) * scale;
                    [-h, h]
                }
                2 => {
                    let lo = r.int(0, 8) as f64 - 4.0;
                    [lo * scale, (lo + r.int(1, 6) as f64) * scale]
                }
                _ => {
                    let lo = r.range(-20.0, 20.0) * scale;
                    [lo, lo + r.range(0.2, 5.0) * scale]
                }
            };
        }
        GSpec { cyl, cells, lim }
    }
    /// a point well inside the given cell
    pub fn point_in(&self, r: &mut Rng, c: Cell) -> Pos {
        let mut o = [0.0; 3];
        for a in 0..3 {
            let (lo, hi) = self.range(a, c[a]);
            let f = *r.pick(&[0.5, 0.02, 0.98, -1.0, -1.0, -1.0]);
            let f = if f < 0.0 { r.range(0.02, 0.98) } else { f };
            o[a] = lo + (hi - lo) * f;
        }
        self.from_own(o)
    }
    pub fn from_own(&self, o: Pos) -> Pos {
        if self.cyl {
            let c = self.axis();
            [c[0] + o[0] * o[1].cos(), c[1] + o[0] * o[1].sin(), o[2]]
        } else {
            o
        }
    }
    pub fn random_cell(&self, r: &mut Rng) -> Cell {
        [
            r.below(self.cells[0]),
            r.below(self.cells[1]),
            r.below(self.cells[2]),
        ]
    }
    pub fn point_inside(&self, r: &mut Rng) -> Pos {
        let c = self.random_cell(r);
        self.point_in(r, c)
    }
    /// an inside point on the grid's limits whose cell is still unambiguous
    pub fn point_on_limit(&self, r: &mut Rng) -> Pos {
        let mut p = self.point_inside(r);
        if self.cyl {
            p[2] = self.lim[2][r.below(2)];
        } else {
            for a in 0..3 {
                if r.chance(0.5) {
                    p[a] = self.lim[a][r.below(2)];
                }
            }
        }
        p
    }
    /// a finite point that is clearly outside
    pub fn point_outside(&self, r: &mut Rng) -> Pos {
        let mut p = self.point_inside(r);
        let size = |a: usize| self.lim[a][1] - self.lim[a][0];
        let dist = *r.pick(&[1e-6, 0.01, 0.3, 0.6, 1.0, 100.0]);
        if self.cyl && r.chance(0.6) {
            let o = self.own(p);
            let rr = self.radius() * if r.chance(0.3) { 1.3 } else { 1.0 + dist };
            let z = p[2];
            let diag = r.chance(0.3); // the corner between cylinder and bounding box
            p = self.from_own([rr, if diag { PI / 4.0 } else { o[1] }, z]);
            return p;
        }
        let a = if self.cyl { 2 } else { r.below(3) };
        p[a] = if r.chance(0.5) {
            self.lim[a][0] - dist * size(a)
        } else {
            self.lim[a][1] + dist * size(a)
        };
        if !self.cyl && r.chance(0.2) {
            let b = (a + 1) % 3;
            p[b] = self.lim[b][1] + dist * size(b);
        }
        p
    }
    /// a point with NaN or infinite coordinates
    pub fn point_broken(&self, r: &mut Rng) -> Pos {
        let mut p = self.point_inside(r);
        let bad = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        p[r.below(3)] = bad;
        if r.chance(0.3) {
            p[r.below(3)] = f64::NAN;
        }
        p
    }
    pub fn all_cells(&self) -> Vec<Cell> {
        let mut v = vec![];
        for i in 0..self.cells[0] {
            for j in 0..self.cells[1] {
                for k in 0..self.cells[2] {
                    v.push([i, j, k]);
                }
            }
        }
        v
    }
}
