//! Synthetic recordings, the in-memory data source that serves them to the real analyses
//! (with an online access monitor), selections, and the list of analyses.
use crate::geo::{GSpec, Grid, Pos};
use crate::rng::Rng;
use ndarray::prelude::*;
use std::cell::RefCell;
use std::collections::HashSet;
use upppp_rust::datamanager::{verif, DataManager, GlobalStats, Manager, Timestep};
use upppp_rust::{GridFunctions3D, ParticleSelector, Selector};

#[derive(Clone, Debug, Default)]
pub struct Step {
    pub t: f64,
    pub pos: Vec<Pos>,
    pub vel: Vec<Pos>,
    pub rad: Vec<f64>,
    pub id: Vec<f64>,
    pub cloud: Vec<f64>,
    pub dens: Vec<f64>,
    pub ptype: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Recording {
    pub steps: Vec<Step>,
    pub dims: [[f64; 3]; 2],
    /// [min, mean, max] speed reported by the data source
    pub vmag: [f64; 3],
}

pub fn speed(v: &Pos) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}

/// where the i-th particle of one step is found in another
pub fn same_particle(a: &Step, i: usize, b: &Step) -> Option<usize> {
    if b.id.get(i) == Some(&a.id[i]) {
        return Some(i);
    }
    b.id.iter().position(|x| *x == a.id[i])
}

impl Recording {
    /// sightings whose particle has another place in the next step that holds it
    pub fn moved(&self) -> u64 {
        self.steps
            .windows(2)
            .map(|w| (0..w[0].pos.len()).filter(|i| same_particle(&w[0], *i, &w[1]).is_some_and(|j| j != *i)).count() as u64)
            .sum()
    }
    pub fn speeds(&self) -> [f64; 3] {
        let mut v: Vec<f64> = vec![];
        for s in &self.steps {
            v.extend(s.vel.iter().map(speed).filter(|x| x.is_finite()));
        }
        if v.is_empty() {
            return [0.0, 0.0, 1.0];
        }
        let min = v.iter().cloned().fold(f64::INFINITY, f64::min);
        let max = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        [min, v.iter().sum::<f64>() / v.len() as f64, max]
    }
    pub fn set_dims(&mut self) {
        let mut d = [[f64::INFINITY; 3], [f64::NEG_INFINITY; 3]];
        for s in &self.steps {
            for p in &s.pos {
                for a in 0..3 {
                    if p[a].is_finite() {
                        d[0][a] = d[0][a].min(p[a]);
                        d[1][a] = d[1][a].max(p[a]);
                    }
                }
            }
        }
        for a in 0..3 {
            if !d[0][a].is_finite() {
                d[0][a] = 0.0;
                d[1][a] = 1.0;
            }
        }
        self.dims = d;
    }
    pub fn finish(&mut self) {
        self.set_dims();
        self.vmag = self.speeds();
    }
    pub fn max_particles(&self) -> usize {
        self.steps.iter().map(|s| s.pos.len()).max().unwrap_or(0)
    }
    pub fn sightings(&self) -> u64 {
        self.steps.iter().map(|s| s.pos.len() as u64).sum()
    }
    pub fn desc(&self) -> String {
        let mut o = format!("recording of {} steps", self.steps.len());
        for s in self.steps.iter().take(12) {
            o.push_str(&format!(" | t={:?}", s.t));
            for i in 0..s.pos.len().min(8) {
                o.push_str(&format!(
                    " p{:?}v{:?}r{}c{}d{}id{}ty{}",
                    s.pos[i], s.vel[i], s.rad[i], s.cloud[i], s.dens[i], s.id[i], s.ptype[i]
                ));
            }
            if s.pos.len() > 8 {
                o.push_str(&format!(" ..{} particles", s.pos.len()));
            }
        }
        o
    }
}

#[derive(Default, Clone, Debug)]
pub struct Log {
    pub gets: u64,
    pub buffered: u64,
    pub unbuffered: u64,
    pub setups: u64,
    pub stats: u64,
}

/// In-memory data source. Its online monitor panics with "MONITOR: ..." when an analysis asks for
/// something a file-backed source could not deliver.
pub struct Mock {
    pub rec: Recording,
    ts: Vec<Timestep>,
    channels: HashSet<usize>,
    pub log: RefCell<Log>,
}

fn a1(v: &[f64]) -> Array1<f64> {
    Array1::from(v.to_vec())
}

impl Mock {
    pub fn new(rec: &Recording) -> Self {
        let ts = rec
            .steps
            .iter()
            .map(|s| {
                let mut v = Array2::<f64>::zeros((s.vel.len(), 3));
                for (i, x) in s.vel.iter().enumerate() {
                    for a in 0..3 {
                        v[[i, a]] = x[a];
                    }
                }
                verif::timestep(
                    s.t,
                    Array1::from(s.pos.clone()),
                    v,
                    a1(&s.rad),
                    a1(&s.id),
                    a1(&s.cloud),
                    a1(&s.dens),
                    a1(&s.ptype),
                )
            })
            .collect();
        Mock {
            rec: rec.clone(),
            ts,
            channels: HashSet::new(),
            log: RefCell::new(Log::default()),
        }
    }
    fn check(&self, timestep: usize) {
        if timestep >= self.ts.len() {
            panic!(
                "MONITOR: time step {} requested from a recording of {} steps",
                timestep,
                self.ts.len()
            );
        }
    }
    /// the analyses are methods of traits that the crate does not export by name
    pub fn m(&mut self) -> &mut dyn Manager {
        self
    }
    /// the served time steps still hold the recording
    pub fn unchanged(&self) -> bool {
        let m = Mock::new(&self.rec);
        self.ts.iter().zip(m.ts.iter()).all(|(a, b)| format!("{a:?}") == format!("{b:?}"))
    }
}

impl DataManager for Mock {
    fn get_timestep(&mut self, timestep: usize) -> &Timestep {
        self.log.borrow_mut().gets += 1;
        self.check(timestep);
        &self.ts[timestep]
    }
    fn global_stats(&self) -> GlobalStats {
        self.log.borrow_mut().stats += 1;
        let d = &self.rec.dims;
        let t: Vec<f64> = self.rec.steps.iter().map(|s| s.t).collect();
        verif::global_stats(
            array![[d[0][0], d[0][1], d[0][2]], [d[1][0], d[1][1], d[1][2]]],
            self.rec.max_particles(),
            self.rec.steps.len(),
            t.first().copied().unwrap_or(0.0),
            t.last().copied().unwrap_or(0.0),
            1.0,
            Array2::zeros((3, 3)),
            a1(&self.rec.vmag),
            a1(&t),
        )
    }
    fn stats(&self) {}
    fn get_timestep_unbuffered(&self, timestep: usize) -> Timestep {
        self.log.borrow_mut().unbuffered += 1;
        self.check(timestep);
        self.ts[timestep].clone()
    }
    fn setup_buffer(&mut self, external_buffer_id: usize) {
        self.log.borrow_mut().setups += 1;
        self.channels.insert(external_buffer_id);
    }
    fn get_timestep_buffer(&mut self, timestep: usize, buffer: usize) -> &Timestep {
        self.log.borrow_mut().buffered += 1;
        if !self.channels.contains(&buffer) {
            panic!("MONITOR: second read channel {buffer} used before it was set up");
        }
        self.check(timestep);
        &self.ts[timestep]
    }
    fn info(&self) -> Result<String, &'static str> {
        Ok(String::new())
    }
    fn set_rotation_angle(&mut self, _angle: f64, _axis: f64) {}
    fn set_rotation_anker(&mut self, _point: [f64; 3]) {}
}
impl Manager for Mock {}

/// Reference of a selection, from the property statement.
#[derive(Clone, Debug)]
pub struct Sel {
    pub time: (f64, f64),
    pub radius: Vec<f64>,
    pub cloud: Vec<f64>,
    pub dens: Vec<f64>,
    pub id: Vec<usize>,
}

fn crit(c: &[f64], v: f64) -> bool {
    if c[0] == -1.0 {
        return true;
    }
    match c.len() {
        1 => v == c[0],
        2 => c[0] <= v && v <= c[1],
        _ => c.iter().any(|x| *x == v),
    }
}

impl Sel {
    pub fn all() -> Sel {
        Sel {
            time: (f64::MIN, f64::MAX),
            radius: vec![-1.0],
            cloud: vec![-1.0],
            dens: vec![-1.0],
            id: vec![0],
        }
    }
    pub fn is_all(&self) -> bool {
        self.radius[0] == -1.0 && self.cloud[0] == -1.0 && self.dens[0] == -1.0 && self.id[0] == 0
    }
    pub fn build(&self) -> ParticleSelector {
        ParticleSelector::new(
            self.time,
            self.radius.clone(),
            self.cloud.clone(),
            self.dens.clone(),
            self.id.clone(),
        )
    }
    pub fn particle(&self, rad: f64, cloud: f64, dens: f64, id: f64) -> bool {
        let idc: Vec<f64> = self.id.iter().map(|x| *x as f64).collect();
        let idok = self.id[0] == 0
            || match self.id.len() {
                1 => id == idc[0],
                2 => idc[0] <= id && id <= idc[1],
                _ => idc.contains(&id),
            };
        crit(&self.radius, rad) && crit(&self.cloud, cloud) && crit(&self.dens, dens) && idok
    }
    pub fn of(&self, s: &Step, i: usize) -> bool {
        self.particle(s.rad[i], s.cloud[i], s.dens[i], s.id[i])
    }
    pub fn at(&self, t: f64) -> bool {
        t >= self.time.0 && t <= self.time.1
    }
    pub fn desc(&self) -> String {
        format!("{:?}", self)
    }
}

pub const RADII: [f64; 4] = [0.5, 1.0, 1.5, 2.0];
pub const CLOUDS: [f64; 4] = [1.0, 2.0, 3.0, 4.0];
pub const DENS: [f64; 4] = [900.0, 1000.0, 2500.0, 7800.0];

/// a random criterion over an ascending list of values
pub fn random_crit(r: &mut Rng, vals: &[f64]) -> Vec<f64> {
    match r.below(7) {
        0 | 1 => vec![-1.0],
        2 => vec![*r.pick(vals)],
        3 | 4 => {
            let a = r.below(vals.len());
            let b = r.int(a, vals.len() - 1);
            vec![vals[a], vals[b]]
        }
        5 => {
            // a wide list
            let mut v = vals.to_vec();
            v.remove(r.below(vals.len()));
            v
        }
        _ => (0..r.int(3, 4)).map(|_| *r.pick(vals)).collect(),
    }
}

pub fn random_sel(r: &mut Rng, rec: &Recording) -> Sel {
    let mut s = Sel::all();
    if r.chance(0.35) {
        return s;
    }
    let many = r.chance(0.3);
    if many || r.chance(0.3) {
        s.radius = random_crit(r, &RADII);
    }
    if many || r.chance(0.3) {
        s.cloud = random_crit(r, &CLOUDS);
    }
    if many || r.chance(0.3) {
        s.dens = random_crit(r, &DENS);
    }
    if r.chance(0.3) {
        let n = rec.max_particles().max(3);
        let first = rec.steps.iter().flat_map(|s| s.id.iter()).cloned().fold(f64::INFINITY, f64::min);
        let first = if first > 1.0 && first.is_finite() { first as usize - 1 } else { 0 };
        s.id = match r.below(3) {
            0 => vec![r.int(1, n)],
            1 => {
                let a = r.int(1, n);
                vec![a, r.int(a, n)]
            }
            _ => (0..r.int(3, 5)).map(|_| r.int(1, n)).collect(),
        };
        for id in s.id.iter_mut() {
            *id += first;
        }
    }
    if r.chance(0.4) && !rec.steps.is_empty() {
        let n = rec.steps.len();
        let a = r.below(n);
        let b = r.int(a, n - 1);
        // exactly on recorded times, or strictly between them
        let (ta, tb) = (rec.steps[a].t, rec.steps[b].t);
        s.time = if r.chance(0.5) {
            (ta, tb)
        } else {
            (ta - 1e-7, tb + 1e-7)
        };
    }
    s
}

#[derive(Clone)]
pub struct Opts {
    pub steps: (usize, usize),
    pub particles: (usize, usize),
    /// particle counts may differ between steps
    pub vary: bool,
    /// particles may be missing from steps: the last ones of a fixed order, or any, in any order
    pub shrink: bool,
    pub nan_pos: bool,
    pub nan_vel: bool,
    pub inf: bool,
    /// now and then a velocity has an infinite component (and none that is NaN)
    pub inf_vel: bool,
    /// share of sightings outside the grid
    pub outside: f64,
    pub types: usize,
    /// avoid points too close to a cylinder axis
    pub off_axis: bool,
    /// now and then many steps, or up to so many particles in one step
    pub big: usize,
    /// now and then consecutive steps of equal times
    pub dup: bool,
    /// now and then the attributes of a particle change with time
    pub drift: bool,
    /// types other than 0, 1, 2 ...
    pub kinds: bool,
}

impl Opts {
    pub fn std() -> Opts {
        Opts {
            steps: (1, 8),
            particles: (0, 10),
            vary: true,
            shrink: false,
            nan_pos: true,
            nan_vel: true,
            inf: false,
            inf_vel: false,
            outside: 0.2,
            types: 3,
            off_axis: false,
            big: 4100,
            dup: false,
            drift: true,
            kinds: true,
        }
    }
}

pub fn times(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut t = *r.pick(&[0.0, 0.0, 0.0, 1.5, -2.0, 0.0, 1e4]);
    let dt = *r.pick(&[1.0, 0.5, 0.1, 1e-3, 60.0]);
    let even = r.chance(0.3);
    let mut v = vec![];
    for _ in 0..n {
        v.push(t);
        t += if even { dt } else { dt * r.range(0.2, 2.0) };
    }
    v
}

/// a point usable in analysis workloads: its cell is unambiguous
pub fn workload_point(g: &GSpec, r: &mut Rng, o: &Opts) -> Pos {
    loop {
        let p = if r.chance(o.outside) {
            g.point_outside(r)
        } else if r.chance(0.08) {
            g.point_on_limit(r)
        } else {
            g.point_inside(r)
        };
        if matches!(g.locate(p), crate::geo::Where::AnyOf(_) | crate::geo::Where::Unknown) {
            continue;
        }
        if o.off_axis && g.cyl && g.own(p)[0] < 1e-3 * g.radius() {
            continue;
        }
        return p;
    }
}

pub fn random_vel(r: &mut Rng) -> Pos {
    match r.below(5) {
        0 => [r.int(0, 6) as f64 - 3.0, r.int(0, 6) as f64 - 3.0, r.int(0, 6) as f64 - 3.0],
        1 => {
            let mut v = [0.0; 3];
            v[r.below(3)] = r.range(-3.0, 3.0);
            v
        }
        _ => [r.range(-4.0, 4.0), r.range(-4.0, 4.0), r.range(-4.0, 4.0)],
    }
}

pub fn random_rec(r: &mut Rng, g: &GSpec, o: &Opts) -> Recording {
    let mut n = r.int(o.steps.0, o.steps.1);
    let mut most = o.particles.1;
    let mut base = r.int(o.particles.0, o.particles.1);
    let mut crowd = false;
    if o.big > 0 && most > 0 && r.chance(0.02) {
        // numbers beyond the ranges of small integers and of the usual block sizes
        if o.steps.0 == o.steps.1 || r.chance(0.6) {
            n = n.min(o.steps.0.max(2));
            base = *r.pick(&[65, 130, 257, 300, 300, 1030, 4100]);
            base = base.min(o.big);
            if o.dup && r.chance(0.015) {
                base = 70000;
            }
            crowd = r.chance(0.5);
            most = base;
        } else {
            n = *r.pick(&[65, 130, 260, 1030]);
            base = base.min(3);
            most = most.min(3);
        }
    }
    let mut ts = times(r, n);
    if o.dup && r.chance(0.06) {
        for k in 1..n {
            if r.chance(0.4) {
                ts[k] = ts[k - 1];
            }
        }
    }
    // ids need not start at one
    let first = if r.chance(0.12) { *r.pick(&[0.0, 254.0, 65530.0, 16777212.0]) } else { 1.0 };
    let reorder = o.vary && r.chance(0.5);
    // a few favourite cells so that cells gather several sightings
    let fav: Vec<_> = (0..if crowd { 1 } else { 3 }).map(|_| g.random_cell(r)).collect();
    let mut steps = vec![];
    let attrs: Vec<(f64, f64, f64, f64)> = (0..most.max(base) + 1)
        .map(|_| {
            (
                *r.pick(&RADII),
                *r.pick(&CLOUDS),
                *r.pick(&DENS),
                r.below(o.types.max(1)) as f64,
            )
        })
        .collect();
    // types may be any whole numbers
    let kinds = *r.pick(&[[0.0, 1.0, 2.0], [0.0, 1.0, 2.0], [0.0, 1.0, 2.0], [1.0, 2.0, 40.0], [7.0, 0.0, 8.0], [44.0, 300.0, 9.0], [65536.0, 0.0, 3.0], [2.0, 11.0, 5.0]]);
    let vary = (o.vary && r.chance(0.4)) || (o.shrink && r.chance(0.25));
    let vscale = if r.chance(0.12) { *r.pick(&[1e-6, 1e-3, 1e3, 1e6]) } else { 1.0 };
    // any particle may be missing and turn up again elsewhere in the order
    let churn = o.shrink && !vary && r.chance(0.4);
    let inf_vel = o.inf_vel && r.chance(0.15);
    // what a particle is like may change with time
    let drift = o.drift && r.chance(0.2);
    for t in ts {
        let k = if vary { r.int(o.particles.0.min(most), most) } else { base };
        let mut ids: Vec<usize> = (0..k).collect();
        if reorder && r.chance(0.5) && k > 1 {
            ids.swap(0, k - 1);
        }
        if churn && r.chance(0.7) {
            let least = o.particles.0.min(k);
            for _ in 0..r.int(0, 3.min(k - least)) {
                ids.remove(r.below(ids.len()));
            }
            for _ in 0..r.below(4) {
                let (a, b) = (r.below(ids.len().max(1)), r.below(ids.len().max(1)));
                if !ids.is_empty() {
                    ids.swap(a, b);
                }
            }
        }
        let mut s = Step { t, ..Default::default() };
        for id in ids {
            let mut p = workload_point(g, r, o);
            if crowd || r.chance(0.5) {
                let c = *r.pick(&fav);
                let q = g.point_in(r, c);
                let near_axis = o.off_axis && g.cyl && g.own(q)[0] < 1e-3 * g.radius();
                if matches!(g.locate(q), crate::geo::Where::In(_)) && !near_axis {
                    p = q;
                }
            }
            if o.nan_pos && r.chance(0.06) {
                p[r.below(3)] = f64::NAN;
                if r.chance(0.5) {
                    p = [f64::NAN; 3];
                }
            }
            let mut v = random_vel(r).map(|x| x * vscale);
            if o.nan_vel && r.chance(0.06) {
                v[r.below(3)] = f64::NAN;
                if r.chance(0.5) {
                    v = [f64::NAN; 3];
                }
            }
            if inf_vel && r.chance(0.2) && !v.iter().any(|x| x.is_nan()) {
                v[r.below(3)] = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
            }
            if o.inf {
                if r.chance(0.05) {
                    p[r.below(3)] = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
                }
                if r.chance(0.05) {
                    v[r.below(3)] = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
                }
            }
            let mut a = attrs[id];
            if drift && r.chance(0.5) {
                a = *r.pick(&attrs);
            }
            s.pos.push(p);
            s.vel.push(v);
            s.rad.push(a.0);
            s.cloud.push(a.1);
            s.dens.push(a.2);
            s.ptype.push(if o.kinds { kinds.get(a.3 as usize).copied().unwrap_or(a.3) } else { a.3 });
            s.id.push(id as f64 + first);
        }
        steps.push(s);
    }
    let mut rec = Recording { steps, dims: [[0.0; 3]; 2], vmag: [0.0; 3] };
    rec.finish();
    rec
}

/// One analysis with its arguments.
#[derive(Clone, Debug)]
pub enum An {
    Number,
    Velocity(&'static str, f64, f64),
    Vector,
    Occupancy(f64),
    MeanV,
    MeanVShow,
    Dispersion(f64),
    Hist(f64, usize),
    GranT(&'static str),
    Homog(f64),
    Lacey(usize, usize, usize),
    Conc(usize, usize),
    MsdField(f64),
    Msd(f64, f64, usize),
    Circ(usize, f64),
    Circ2(usize, (f64, f64)),
    Extract(usize, (usize, usize)),
}

pub const VMODES: [&str; 9] = ["absolute", "x", "r", "y", "theta", "xy", "xz", "yz", "z"];
pub const GMODES: [&str; 4] = ["x", "y", "z", "xyz"];

impl An {
    pub fn name(&self) -> &'static str {
        match self {
            An::Number => "numberfield",
            An::Velocity(..) => "velocityfield",
            An::Vector => "vectorfield",
            An::Occupancy(_) => "occupancyfield",
            An::MeanV => "mean_velocity",
            An::MeanVShow => "mean_velocity_showcase",
            An::Dispersion(_) => "dispersion",
            An::Hist(..) => "histogram",
            An::GranT(_) => "granular_temperature_field",
            An::Homog(_) => "homogenity_index",
            An::Lacey(..) => "lacey_mixing",
            An::Conc(..) => "concentration_field",
            An::MsdField(_) => "msd_field",
            An::Msd(..) => "msd",
            An::Circ(..) => "circulation_time",
            An::Circ2(..) => "circulation_time_two_boundary",
            An::Extract(..) => "extract",
        }
    }
    /// uses only the selected instants themselves
    pub fn same_instant(&self) -> bool {
        matches!(
            self,
            An::Number
                | An::Velocity(..)
                | An::Vector
                | An::MeanV
                | An::MeanVShow
                | An::Hist(..)
                | An::GranT(_)
                | An::Lacey(..)
                | An::Conc(..)
        )
    }
    /// looks at nothing outside the time window
    pub fn within_window(&self) -> bool {
        self.same_instant() || matches!(self, An::Circ(..) | An::Circ2(..))
    }
    pub fn takes_grid(&self) -> bool {
        !matches!(
            self,
            An::MeanV | An::MeanVShow | An::Circ(..) | An::Circ2(..) | An::Extract(..)
        )
    }
    pub fn all(r: &mut Rng, rec: &Recording) -> Vec<An> {
        let span = rec.steps.last().map(|s| s.t).unwrap_or(0.0)
            - rec.steps.first().map(|s| s.t).unwrap_or(0.0);
        let d = rec.dims;
        let ax = r.below(3);
        let inside = |f: f64| (d[0][ax] + (d[1][ax] - d[0][ax]) * f).max(d[0][ax]).min(d[1][ax]);
        let (b0, b1) = (inside(0.31), inside(0.67));
        // types of the recording, or ones it need not have
        let mut kinds: Vec<usize> = rec.steps.iter().flat_map(|s| s.ptype.iter().map(|x| *x as usize)).collect();
        kinds.sort();
        kinds.dedup();
        let few = kinds.iter().all(|x| *x < 4) || kinds.len() < 2;
        let (ka, kb, kc) = if few { (0, 1, 2) } else { (kinds[0], kinds[1], *kinds.last().unwrap()) };
        let mut v = vec![
            An::Number,
            An::Velocity(r.pick(&VMODES), -3.0, 4.0),
            An::Velocity(r.pick(&VMODES), -1e6, 1e6),
            An::Vector,
            An::Occupancy(*r.pick(&[0.0, 0.0, 1.0, 3.0])),
            An::MeanV,
            An::MeanVShow,
            An::Dispersion(span * r.range(0.0, 0.6)),
            An::Dispersion(0.0),
            An::Hist(*r.pick(&[0.0, 5.0]), r.int(1, 8)),
            An::GranT(r.pick(&GMODES)),
            An::Homog(0.0),
            An::Lacey(ka, kb, r.below(4)),
            An::Lacey(kb, kc, r.below(3)),
            An::Conc(ka, kb),
            An::Conc(kc, kb),
            An::MsdField(span * r.range(0.0, 0.6)),
            An::Msd(0.0, span * 0.5, r.int(1, 4)),
            An::Circ(ax, b0),
            An::Circ2(ax, (b0, b1)),
        ];
        let n = rec.steps.len();
        let k = rec.steps.iter().map(|s| s.pos.len()).min().unwrap_or(0);
        if n >= 2 && k > 0 {
            let a = r.below(n - 1);
            v.push(An::Extract(r.below(k), (a, r.int(a, n - 1))));
        }
        v
    }
}

/// Result of an analysis as named flat series.
#[derive(Clone, Debug, Default)]
pub struct Out(pub Vec<(&'static str, Vec<f64>)>);

pub fn flat(a: &Array3<f64>) -> Vec<f64> {
    a.iter().copied().collect()
}

impl Out {
    fn grid(mut self, g: &dyn GridFunctions3D) -> Self {
        self.0.push(("values", flat(g.get_data())));
        self.0.push(("weights", flat(g.get_weights())));
        self
    }
    pub fn diff(&self, o: &Out, tol: f64) -> Option<String> {
        if self.0.len() != o.0.len() {
            return Some("different outputs".into());
        }
        for ((n, a), (_, b)) in self.0.iter().zip(o.0.iter()) {
            if a.len() != b.len() {
                return Some(format!("{n}: {} elements instead of {}", b.len(), a.len()));
            }
            for i in 0..a.len() {
                let same = (a[i].is_nan() && b[i].is_nan())
                    || a[i] == b[i]
                    || (a[i] - b[i]).abs() <= tol * (1.0 + a[i].abs().max(b[i].abs()));
                if !same {
                    return Some(format!("{n}[{i}]: {:?} became {:?}", a[i], b[i]));
                }
            }
        }
        None
    }
    pub fn elements(&self) -> u64 {
        self.0.iter().map(|(_, v)| v.len() as u64).sum()
    }
    pub fn finite_nonzero(&self) -> bool {
        self.0.iter().any(|(_, v)| v.iter().any(|x| x.is_finite() && *x != 0.0))
    }
}

/// Runs an analysis of the code under test.
pub fn run<D: Manager>(an: &An, d: &mut D, grid: Grid, sel: &ParticleSelector) -> Out {
    let o = Out::default();
    match an {
        An::Number => o.grid(&*d.numberfield(grid, sel)),
        An::Velocity(m, a, b) => o.grid(&*d.velocityfield(grid, sel, m, *a, *b)),
        An::Vector => {
            let v = d.vectorfield(grid, sel);
            let mut o = o;
            for c in 0..3 {
                o = o.grid(&*v.data[c]);
            }
            o
        }
        An::Occupancy(m) => o.grid(&*d.occupancyfield(grid, sel, *m)),
        An::MeanV => Out(vec![("mean", vec![d.mean_velocity(sel)])]),
        An::MeanVShow => Out(vec![("mean", vec![d.mean_velocity_showcase(sel)])]),
        An::Dispersion(t) => {
            let (g, e) = d.dispersion(grid, sel, *t);
            let mut o = o.grid(&*g);
            o.0.push(("efficiency", vec![e]));
            o
        }
        An::Hist(l, b) => {
            let (h, e) = d.histogram(grid, sel, "velocity", *l, *b);
            Out(vec![("counts", h.to_vec()), ("edges", e.to_vec())])
        }
        An::GranT(m) => o.grid(&*d.granular_temperature_field(grid, sel, m)),
        An::Homog(m) => Out(vec![("index", vec![d.homogenity_index(grid, sel, *m)])]),
        An::Lacey(a, b, t) => {
            let (x, y) = d.lacey_mixing(grid, sel, *a, *b, *t);
            Out(vec![("time", x.to_vec()), ("index", y.to_vec())])
        }
        An::Conc(a, b) => o.grid(&*d.concentration_field(grid, sel, *a, *b)),
        An::MsdField(t) => o.grid(&*d.msd_field(grid, sel, *t)),
        An::Msd(a, b, n) => {
            let (x, y) = d.msd(grid, sel, *a, *b, *n);
            Out(vec![("msd", x.to_vec()), ("time", y.to_vec())])
        }
        An::Circ(a, p) => Out(vec![("times", d.circulation_time(sel, *a, *p))]),
        An::Circ2(a, p) => {
            let v = d.circulation_time_two_boundary(sel, *a, *p);
            Out(vec![
                ("start", v.iter().map(|x| x.0).collect()),
                ("end", v.iter().map(|x| x.1).collect()),
            ])
        }
        An::Extract(p, range) => {
            let v = d.extract(*p, *range);
            Out(vec![("rows", v.iter().copied().collect())])
        }
    }
}

pub fn selector_state(s: &ParticleSelector) -> String {
    // observable behaviour of a selector on the value lattice used by the workloads
    let mut o = format!("{:?}", s.time);
    for r in RADII {
        for c in CLOUDS {
            for d in DENS {
                for id in 0..6 {
                    o.push(if s.is_valid(r, c, d, id) { '1' } else { '0' });
                }
            }
        }
    }
    o
}
