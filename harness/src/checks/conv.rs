//! C39-C45: the converters, observed through the files they write.
use crate::checks::store::{Kind, Src};
use crate::data::{speed, Step};
use crate::h5::Scratch;
use crate::rec::{close, Case, R};
use crate::rng::Rng;
use crate::{ensure, fail};
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::converter::*;
use upppp_rust::datamanager::{DataManager, Manager, PData, TData, Timestep};
use vtkio::model::*;

fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// how a table is written
#[derive(Clone, Debug)]
struct Format {
    delimiter: String,
    comment: String,
    header: bool,
    /// position of each logical column in the file
    columns: Vec<i64>,
    width: usize,
}
impl Format {
    fn random(r: &mut Rng, logical: usize) -> Format {
        let width = logical + r.below(3);
        let mut at: Vec<i64> = (0..width as i64).collect();
        if r.chance(0.6) {
            for i in (1..width).rev() {
                at.swap(i, r.below(i + 1));
            }
        }
        at.truncate(logical);
        Format {
            delimiter: r.pick(&[",", ";", " ", "\t"]).to_string(),
            comment: r.pick(&["#", "%", "!"]).to_string(),
            header: r.chance(0.5),
            columns: at,
            width,
        }
    }
    fn write(&self, r: &mut Rng, path: &str, rows: &[Vec<f64>]) {
        let mut out = String::new();
        let line = |v: Vec<String>| v.join(&self.delimiter) + "\n";
        let comments = r.chance(0.4);
        if comments {
            out += &format!("{}recorded by hand\n", self.comment);
        }
        if self.header {
            out += &line((0..self.width).map(|i| format!("c{i}")).collect());
        }
        let style = r.below(3);
        for row in rows {
            if comments && r.chance(0.1) {
                out += &format!("{} pause\n", self.comment);
            }
            let mut cells = vec!["7.5".to_string(); self.width];
            for (k, x) in row.iter().enumerate() {
                cells[self.columns[k] as usize] = match style {
                    0 => format!("{x:?}"),
                    1 => format!("{x:e}"),
                    _ => format!("{x}"),
                };
            }
            out += &line(cells);
        }
        std::fs::write(path, out).expect("table");
    }
}

fn times(r: &mut Rng, n: usize) -> (Vec<f64>, Option<f64>) {
    let t0 = *r.pick(&[0.0, 0.0, 0.0, -3.5, 12.25, 1000.0]);
    match r.below(3) {
        0 => {
            let dt = *r.pick(&[1.0, 0.5, 0.0078125, 3.0]);
            ((0..n).map(|i| t0 + i as f64 * dt).collect(), Some(dt))
        }
        1 => {
            let mut t = t0;
            let scale = *r.pick(&[0.001, 1.0, 20.0]);
            ((0..n)
                .map(|_| {
                    let x = t;
                    t += scale * r.range(0.2, 2.0);
                    x
                })
                .collect(), None)
        }
        _ => {
            // bursts
            let mut t = t0;
            ((0..n)
                .map(|_| {
                    let x = t;
                    t += if r.chance(0.7) { r.range(0.01, 0.03) } else { r.range(1.0, 3.0) };
                    x
                })
                .collect(), None)
        }
    }
}

/// positions of one particle at the given times: uniform, parabolic or irregular motion
fn motion(r: &mut Rng, t: &[f64]) -> Vec<[f64; 3]> {
    let kind = r.below(4);
    let span = (t[t.len() - 1] - t[0]).max(1e-3);
    let off = *r.pick(&[0.0, 0.0, 30.0, -200.0]);
    let (a, b, c): ([f64; 3], [f64; 3], [f64; 3]) = (
        std::array::from_fn(|_| off + r.range(-1.0, 1.0)),
        std::array::from_fn(|_| r.range(-2.0, 2.0)),
        std::array::from_fn(|_| r.range(-2.0, 2.0)),
    );
    let mut w = a;
    t.iter()
        .map(|x| {
            let u = (x - t[0]) / span;
            match kind {
                0 => std::array::from_fn(|k| a[k] + b[k] * u),
                1 => std::array::from_fn(|k| a[k] + b[k] * u + c[k] * u * u),
                2 => {
                    for k in 0..3 {
                        w[k] += r.range(-1.0, 1.0);
                    }
                    w
                }
                _ => std::array::from_fn(|k| a[k] + (b[k] + 6.0 * u).sin()),
            }
        })
        .collect()
}

/// slope at `mid` of the least-squares parabola through the points
fn parabola_slope(t: &[f64], x: &[f64], mid: usize) -> f64 {
    let n = t.len() as f64;
    let h = t.iter().map(|a| (a - t[mid]).abs()).fold(0.0, f64::max);
    let mx = x.iter().sum::<f64>() / n;
    let mut m = [[0.0f64; 4]; 3];
    for (a, b) in t.iter().zip(x) {
        let u = (a - t[mid]) / h;
        let p = [1.0, u, u * u];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] += p[i] * p[j];
            }
            m[i][3] += p[i] * (b - mx);
        }
    }
    for i in 0..3 {
        let p = (i..3).max_by(|a, b| m[*a][i].abs().partial_cmp(&m[*b][i].abs()).unwrap()).unwrap();
        m.swap(i, p);
        for k in 0..3 {
            if k != i {
                let f = m[k][i] / m[i][i];
                for j in i..4 {
                    m[k][j] -= f * m[i][j];
                }
            }
        }
    }
    m[1][3] / m[1][1] / h
}

/// one row of a trajectory with what may be lost to rounding
#[derive(Clone)]
struct Point {
    t: f64,
    pos: [f64; 3],
    vel: [f64; 3],
    tol: [f64; 2],
}

fn derive_velocity(p: &[Point], window: usize) -> Vec<Point> {
    let h = (window - 1) / 2;
    (h..p.len() - h)
        .map(|i| {
            let seg = &p[i - h..=i + h];
            let t: Vec<f64> = seg.iter().map(|q| q.t).collect();
            let dt = t.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min);
            let mut q = p[i].clone();
            let mut range = 0.0f64;
            for k in 0..3 {
                let x: Vec<f64> = seg.iter().map(|q| q.pos[k]).collect();
                q.vel[k] = parabola_slope(&t, &x, h);
                range = range.max(x.iter().map(|y| (y - x[0]).abs() + 1e-9 * y.abs()).fold(0.0, f64::max));
            }
            let lost: f64 = seg.iter().map(|q| q.tol[0]).fold(0.0, f64::max);
            q.tol[1] = 1e-6 * range / dt.max(1e-300) + 10.0 * lost / dt;
            q
        })
        .collect()
}

/// `n` evenly spaced points between the first and the last, on the straight lines between the given ones
fn evenly(p: &[Point], n: usize) -> Vec<Point> {
    let (t0, t1) = (p[0].t, p[p.len() - 1].t);
    let slope = p
        .windows(2)
        .filter(|w| w[1].t > w[0].t)
        .map(|w| (0..3).map(|k| ((w[1].pos[k] - w[0].pos[k]) / (w[1].t - w[0].t)).abs()).fold(0.0, f64::max))
        .fold(0.0, f64::max);
    (0..n)
        .map(|i| {
            let t = if i + 1 == n { t1 } else { t0 + (t1 - t0) * i as f64 / (n - 1) as f64 };
            let j = p.iter().position(|q| q.t >= t).unwrap_or(p.len() - 1);
            let pos = if j == 0 || p[j].t == t {
                p[j].pos
            } else {
                let f = (t - p[j - 1].t) / (p[j].t - p[j - 1].t);
                std::array::from_fn(|k| p[j - 1].pos[k] + f * (p[j].pos[k] - p[j - 1].pos[k]))
            };
            let big = pos.iter().map(|x| x.abs()).fold(1.0, f64::max);
            Point { t, pos, vel: [f64::NAN; 3], tol: [1e-12 * big + slope * 1e-12 * (t1.abs() + t0.abs()), 0.0] }
        })
        .collect()
}

fn points(t: &[f64], x: &[[f64; 3]], v: &[[f64; 3]]) -> Vec<Point> {
    (0..t.len()).map(|i| Point { t: t[i], pos: x[i], vel: v[i], tol: [0.0, 0.0] }).collect()
}

fn random_vel(r: &mut Rng, n: usize) -> Vec<[f64; 3]> {
    let mono = r.below(4);
    (0..n)
        .map(|i| match mono {
            0 => [-(i as f64), i as f64, 1.0],
            _ => std::array::from_fn(|_| r.value()),
        })
        .collect()
}

/// What one conversion wrote, and what the file must therefore hold.
struct Made {
    kind: Kind,
    path: String,
    /// step -> particle -> point
    want: Vec<Vec<Point>>,
    radius: Option<f64>,
    even: Option<f64>,
    velocities: bool,
    name: &'static str,
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    a == b || (a - b).abs() <= tol
}

fn check_points(key: &str, what: &str, got: &Timestep, want: &[Point], velocities: bool) -> R {
    ensure!(got.position().len() == want.len(), key, "{what}: {} particles instead of {}", got.position().len(), want.len());
    for (i, p) in want.iter().enumerate() {
        let tt = if p.tol[0] == 0.0 { 0.0 } else { 1e-12 * (1.0 + p.t.abs()) };
        ensure!(near(*got.time(), p.t, tt), key, "{what}: time {:?} instead of {:?}", got.time(), p.t);
        for k in 0..3 {
            ensure!(near(got.position()[i][k], p.pos[k], p.tol[0]), key, "{what}, particle {i}: position {:?} instead of {:?}", got.position()[i], p.pos);
            if velocities {
                ensure!(
                    near(got.velocity()[[i, k]], p.vel[k], p.tol[1]),
                    key,
                    "{what}, particle {i}: velocity {:?} instead of {:?}",
                    got.velocity().row(i).to_vec(),
                    p.vel
                );
            }
        }
    }
    Ok(())
}

/// every data set of every particle has one entry per step
fn check_lengths(path: &str, particles: usize, steps: usize) -> R {
    let f = hdf5::File::open(path).expect("output");
    for p in 0..particles {
        let g = match f.group(&format!("particle {p}")) {
            Ok(g) => g,
            Err(_) => fail!("layout", "no group for particle {p}"),
        };
        for name in ["time", "position", "velocity", "radius", "id", "ppcloud", "particletype"] {
            let d = match g.dataset(name) {
                Ok(d) => d,
                Err(_) => fail!("layout", "particle {p} has no data set {name:?}"),
            };
            ensure!(d.shape()[0] == steps, "layout", "data set {name:?} of particle {p} has {} entries for {steps} steps", d.shape()[0]);
        }
    }
    ensure!(f.group(&format!("particle {particles}")).is_err(), "layout", "more than {particles} particles written");
    Ok(())
}

fn check_content(c: &mut Case, m: &Made) -> R {
    if m.kind == Kind::Particle {
        check_lengths(&m.path, m.want[0].len(), m.want.len())?;
    }
    let mut d = Src::open(m.kind, &m.path);
    let g = d.d().global_stats();
    ensure!(*g.timesteps() == m.want.len(), "steps", "{} steps instead of {}", g.timesteps(), m.want.len());
    for (k, w) in m.want.iter().enumerate() {
        let got = d.d().get_timestep(k);
        check_points("content", &format!("{} step {k}", m.name), got, w, m.velocities)?;
        if m.name == "csv" {
            ensure!(got.ptype().iter().all(|x| *x == 1.0), "type", "step {k}: types {:?}", got.ptype());
        }
        if m.name == "csv files" {
            ensure!(got.ptype().iter().all(|x| *x == 0.0), "type", "step {k}: types {:?}", got.ptype());
            ensure!(got.clouds().iter().all(|x| *x == 0.0), "cloud", "step {k}: clouds {:?}", got.clouds());
        }
        if m.kind == Kind::Particle {
            ensure!(got.ptype().iter().all(|x| *x == got.ptype()[0]), "type", "step {k}: types {:?}", got.ptype());
            ensure!(got.clouds().iter().all(|x| *x == 1.0), "cloud", "step {k}: clouds {:?}", got.clouds());
        }
        if let Some(r) = m.radius {
            ensure!(got.radius().iter().all(|x| *x == r), "radius", "step {k}: radii {:?} instead of {r}", got.radius());
        }
    }
    c.see("steps compared", m.want.len() as u64);
    c.see("sightings compared", m.want.iter().map(|w| w.len() as u64).sum());
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Proc {
    /// velocities come from the table
    Given,
    /// velocities are derived
    Velocity,
    /// positions are resampled evenly, then velocities are derived
    Both,
}

fn windows(r: &mut Rng) -> usize {
    *r.pick(&[3, 5, 7, 9, 9, 15])
}

/// C39-C41: one trajectory
fn make_csv(c: &mut Case, sc: &Scratch, proc_: Proc) -> Result<Option<Made>, crate::rec::Fail> {
    let r = &mut c.rng;
    let window = windows(r);
    let n = match proc_ {
        _ if r.chance(0.01) => r.int(260, 2200),
        Proc::Given => r.int(1, 60),
        _ => r.int(window, window + 60),
    };
    let (t, mut even) = times(r, n);
    let x = motion(r, &t);
    let v = random_vel(r, n);
    let mut want = points(&t, &x, &v);
    let mut rows: Vec<Vec<f64>> = (0..n).map(|i| vec![t[i], x[i][0], x[i][1], x[i][2], v[i][0], v[i][1], v[i][2]]).collect();
    let repeats = proc_ != Proc::Velocity && r.chance(0.3);
    if repeats {
        // a sample written twice
        let k = if n > 600 && proc_ == Proc::Given { 520 } else { r.int(1, 4) };
        for _ in 0..k {
            let i = r.below(rows.len());
            let row = rows[i].clone();
            rows.insert(i, row);
        }
    }
    let shuffled = r.chance(0.4);
    if shuffled {
        for i in (1..rows.len()).rev() {
            let j = r.below(i + 1);
            rows.swap(i, j);
        }
    }
    let radius = *r.pick(&[0.0, 0.25, 1.5]);
    if proc_ != Proc::Given {
        rows.iter_mut().for_each(|w| w.truncate(4));
    }
    if proc_ == Proc::Both {
        let t0 = want[0].t;
        want.iter_mut().for_each(|p| p.t -= t0);
        want = evenly(&want, rows.len());
        even = Some(want[1].t - want[0].t);
    }
    if proc_ != Proc::Given {
        want = derive_velocity(&want, window);
    }
    let f = Format::random(r, rows[0].len());
    let (inp, out) = (sc.path("in.csv"), sc.path("out.hdf5"));
    f.write(r, &inp, &rows);
    let (vel, inter) = (proc_ != Proc::Given, proc_ == Proc::Both);
    c.log(format!("{f:?} {proc_:?} window {window} radius {radius} rows {:?}", &rows[..rows.len().min(25)]));
    let convert = || csv_converter(&inp, &out, f.columns.clone(), &f.delimiter, f.header, &f.comment, vel, inter, radius, window);
    if proc_ == Proc::Given && c.rng.chance(0.05) {
        // positions only, and no velocity asked for
        let f4: Vec<i64> = f.columns[..4].to_vec();
        ensure!(
            refused(|| csv_converter(&inp, &out, f4, &f.delimiter, f.header, &f.comment, false, false, radius, window)),
            "refuse",
            "a table without velocities was accepted although no velocity was asked for"
        );
        c.seen("tables refused");
        return Ok(None);
    }
    if proc_ == Proc::Velocity && c.rng.chance(0.05) {
        ensure!(
            refused(|| csv_converter(&inp, &out, f.columns.clone(), &f.delimiter, f.header, &f.comment, true, inter, radius, window + 1)),
            "refuse",
            "an even number of samples was accepted"
        );
        c.seen("even windows refused");
        return Ok(None);
    }
    if proc_ == Proc::Velocity && c.rng.chance(0.05) {
        // velocities cannot be both given and derived
        let mut more = f.columns.clone();
        while more.len() < 5 + c.idx as usize % 3 {
            more.push(0);
        }
        ensure!(
            refused(|| csv_converter(&inp, &out, more.clone(), &f.delimiter, f.header, &f.comment, true, inter, radius, window)),
            "refuse",
            "velocities derived although columns {more:?} give them"
        );
        c.seen("surplus columns refused");
        return Ok(None);
    }
    convert();
    c.nontrivial |= n > 1;
    if shuffled && n > 1 {
        c.seen("tables out of order");
    }
    if repeats {
        c.seen("tables with repeated samples");
        if n > 600 && proc_ == Proc::Given {
            c.seen("tables with hundreds of repeated samples");
        }
    }
    if t[0] <= 0.0 {
        c.seen("tables that start at or before zero");
    }
    Ok(Some(Made { kind: Kind::Particle, path: out, want: want.into_iter().map(|p| vec![p]).collect(), radius: Some(radius), even, velocities: true, name: "csv" }))
}

pub fn c39(c: &mut Case) -> R {
    let sc = Scratch::new();
    match make_csv(c, &sc, Proc::Given)? {
        Some(m) => check_content(c, &m),
        None => Ok(()),
    }
}

pub fn c40(c: &mut Case) -> R {
    let sc = Scratch::new();
    let m = if c.idx % 5000 == 4999 {
        c.seen("trajectories of 200000 samples");
        Some(make_table(c, &sc, Proc::Velocity, true))
    } else if c.rng.chance(0.6) {
        make_csv(c, &sc, Proc::Velocity)?
    } else {
        Some(make_many(c, &sc, Proc::Velocity))
    };
    if let Some(m) = m {
        c.seen(if m.name == "csv" { "single trajectories" } else { "several trajectories" });
        check_content(c, &m)?;
    }
    Ok(())
}

pub fn c41(c: &mut Case) -> R {
    let sc = Scratch::new();
    let m = if c.rng.chance(0.6) { make_csv(c, &sc, Proc::Both)? } else { Some(make_many(c, &sc, Proc::Both)) };
    if let Some(m) = m {
        c.seen(if m.name == "csv" { "single trajectories" } else { "several trajectories" });
        check_content(c, &m)?;
    }
    Ok(())
}

/// several particles in one table, all sighted at the same times
fn make_many(c: &mut Case, sc: &Scratch, proc_: Proc) -> Made {
    make_table(c, sc, proc_, false)
}

fn make_table(c: &mut Case, sc: &Scratch, proc_: Proc, long: bool) -> Made {
    let chain = c.rng.chance(0.5) || long;
    let r = &mut c.rng;
    let many = !long && r.chance(0.02);
    let particles = if long { 1 } else if many { r.int(9, 24) } else { r.int(1, 5) };
    let n = match (proc_, chain) {
        _ if long => 200_010,
        _ if !many && r.chance(0.005) => r.int(260, 1100),
        (Proc::Given, false) => r.int(1, 40),
        _ => r.int(10, 45),
    };
    let (t, mut even) = times(r, n);
    let mut ids: Vec<i64> = vec![];
    let first = if r.chance(0.2) { -3 } else { 0 };
    let far = r.chance(0.1);
    while ids.len() < particles {
        let i = first + r.below(if many { 3000 } else if first < 0 { 8 } else if far { 6_000_000_000 } else { 30 }) as i64;
        if !ids.contains(&i) {
            ids.push(i);
        }
    }
    ids.sort();
    let radius = *r.pick(&[0.0, 0.25, 1.5]);
    let repeat = proc_ == Proc::Given && particles > 1 && r.chance(0.3);
    let mut short = 0;
    let mut traj = vec![];
    let mut rows: Vec<Vec<f64>> = vec![];
    for p in 0..particles {
        let x = motion(r, &t);
        let v = random_vel(r, n);
        for i in 0..n {
            let mut row = vec![t[i]];
            if !chain {
                row.push(ids[p] as f64);
            }
            row.extend(x[i]);
            if proc_ == Proc::Given {
                row.extend(v[i]);
            }
            rows.push(row);
        }
        if repeat && p != 0 {
            // a sample written twice
            for _ in 0..r.int(1, 4) {
                let first = rows.len() - n;
                let i = first + r.below(n);
                let row = rows[i].clone();
                rows.insert(i, row);
            }
        }
        if chain && r.chance(0.15) {
            // a trajectory that is too short
            for k in 0..r.int(2, 9) {
                let mut row = vec![t[k], 0.5, 0.5, 0.5];
                if proc_ == Proc::Given {
                    row.extend([99.0, -99.0, 99.0]);
                }
                rows.push(row);
            }
            short += 1;
        }
        let mut w = points(&t, &x, &v);
        if proc_ == Proc::Both {
            w = evenly(&w, n);
            even = Some(w[1].t - w[0].t);
        }
        if proc_ != Proc::Given {
            w = derive_velocity(&w, 9);
        }
        traj.push(w);
    }
    if !chain {
        match r.below(3) {
            0 => {}
            1 => rows.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap()),
            _ => {
                for i in (1..rows.len()).rev() {
                    let j = r.below(i + 1);
                    rows.swap(i, j);
                }
            }
        }
    }
    let f = Format::random(r, rows[0].len());
    let (inp, out) = (sc.path("in.csv"), sc.path("out.hdf5"));
    f.write(r, &inp, &rows);
    let mode = if chain { "chain" } else { "id_line" };
    c.log(format!("{mode} {f:?} {proc_:?} ids {ids:?} rows {:?}", &rows[..rows.len().min(25)]));
    csv_multi_converter(&inp, &out, f.columns.clone(), &f.delimiter, f.header, &f.comment, proc_ != Proc::Given, proc_ == Proc::Both, radius, mode);
    c.seen(if chain { "chains" } else { "tables with an id column" });
    if repeat {
        c.seen("tables with repeated samples");
    }
    if !chain && ids[0] < 0 {
        c.seen("tables with negative ids");
    }
    if !chain && ids.iter().any(|i| *i > 1 << 31) {
        c.seen("tables with ids beyond 31 bits");
    }
    if short > 0 {
        c.seen("chains with short trajectories");
    }
    c.nontrivial |= particles > 1;
    let steps = traj[0].len();
    let want = (0..steps).map(|i| traj.iter().map(|w| w[i].clone()).collect()).collect();
    Made { kind: Kind::Particle, path: out, want, radius: Some(radius), even, velocities: true, name: mode }
}

pub fn c42(c: &mut Case) -> R {
    let sc = Scratch::new();
    let p = *c.rng.pick(&[Proc::Given, Proc::Given, Proc::Velocity, Proc::Both]);
    let m = make_many(c, &sc, p);
    check_content(c, &m)?;
    let n = *Src::open(m.kind, &m.path).d().global_stats().nparticles();
    ensure!(n == m.want[0].len(), "particles", "{n} particles instead of {}", m.want[0].len());
    // every particle has an id of its own, and keeps it
    let mut d = Src::open(m.kind, &m.path);
    let ids = d.d().get_timestep(0).particleid().to_vec();
    let mut own = ids.clone();
    own.sort_by(|a, b| a.partial_cmp(b).unwrap());
    own.dedup();
    ensure!(own.len() == n, "ids", "{n} particles have the ids {ids:?}");
    for k in [m.want.len() / 2, m.want.len() - 1] {
        let now = d.d().get_timestep(k).particleid().to_vec();
        ensure!(now == ids, "ids", "ids {now:?} at step {k}, {ids:?} at the first one");
        c.see("ids compared", ids.len() as u64);
    }
    Ok(())
}

/// one table per time step
fn make_files(c: &mut Case, sc: &Scratch) -> (Made, Vec<Vec<f64>>) {
    let r = &mut c.rng;
    let n = if r.chance(0.02) { r.int(9, 110) } else { r.int(1, 8) };
    let (t, even) = times(r, n);
    let given = r.chance(0.8);
    let f = Format::random(r, if given { 7 } else { 4 });
    let radius = *r.pick(&[0.0, 0.25, 1.5]);
    let mut names = vec![];
    let mut want = vec![];
    let mut ids = vec![];
    let count = if n < 9 && r.chance(0.01) { r.int(257, 400) } else { r.int(1, 6) };
    let vary = r.chance(0.6);
    for i in 0..n {
        let m = if vary { r.int(1, 8) } else { count };
        let mut id: Vec<f64> = (0..m).map(|k| (k * 3 + r.below(3)) as f64).collect();
        if r.chance(0.5) {
            id.reverse();
        }
        let x: Vec<[f64; 3]> = (0..m).map(|_| std::array::from_fn(|_| r.value())).collect();
        let v = random_vel(r, m);
        let rows: Vec<Vec<f64>> = (0..m)
            .map(|k| {
                let mut row = vec![id[k]];
                row.extend(x[k]);
                if given {
                    row.extend(v[k]);
                }
                row
            })
            .collect();
        let p = sc.path(&format!("in{i}.csv"));
        f.write(r, &p, &rows);
        names.push(p);
        want.push(points(&vec![t[i]; m], &x, &v));
        ids.push(id);
    }
    let out = sc.path("out.hdf5");
    c.log(format!("files {f:?} times {t:?} radius {radius} ids {ids:?} positions {:?}", want.iter().map(|w| w.iter().map(|p| p.pos).collect::<Vec<_>>()).collect::<Vec<_>>()));
    csv_multi_file_time_step(names.iter().map(|s| s.as_str()).collect(), &out, f.columns.clone(), t.clone(), &f.delimiter, f.header, &f.comment, false, false, radius);
    c.nontrivial |= n > 1;
    if vary {
        c.seen("varying particle counts");
    }
    (Made { kind: Kind::Time, path: out, want, radius: Some(radius), even, velocities: given, name: "csv files" }, ids)
}

pub fn c43(c: &mut Case) -> R {
    let sc = Scratch::new();
    let (m, ids) = make_files(c, &sc);
    check_content(c, &m)?;
    let mut d = Src::open(m.kind, &m.path);
    for (k, id) in ids.iter().enumerate() {
        ensure!(d.d().get_timestep(k).particleid().to_vec() == *id, "id", "step {k}: ids {:?} instead of {id:?}", d.d().get_timestep(k).particleid());
    }
    Ok(())
}

fn buffer(r: &mut Rng, v: Vec<f64>, whole: bool) -> IOBuffer {
    if whole {
        match r.below(4) {
            0 if v.iter().all(|x| *x < 2e9) => IOBuffer::from(v.iter().map(|x| *x as i32).collect::<Vec<i32>>()),
            1 => IOBuffer::from(v.iter().map(|x| *x as i64).collect::<Vec<i64>>()),
            2 if v.iter().all(|x| *x as f32 as f64 == *x) => IOBuffer::from(v.iter().map(|x| *x as f32).collect::<Vec<f32>>()),
            _ => IOBuffer::from(v),
        }
    } else {
        IOBuffer::from(v)
    }
}

struct VtkStep {
    id: Vec<u64>,
    pos: Vec<[f64; 3]>,
    vel: Vec<[f64; 3]>,
    rad: Vec<f64>,
    ptype: Vec<u64>,
}

struct Fields {
    id: &'static str,
    v: &'static str,
    r: &'static str,
    t: &'static str,
    diameter: bool,
    typed: bool,
    /// other arrays, of names that resemble those asked for
    others: Vec<String>,
}

impl Fields {
    fn others(r: &mut Rng, asked: &[&str]) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for _ in 0..r.below(4) {
            let a = *r.pick(asked);
            let name = match r.below(5) {
                0 => a.to_lowercase(),
                1 => a.to_uppercase(),
                2 => format!("{a}2"),
                3 => format!("{a}_old"),
                _ => format!("x{a}"),
            };
            if !asked.contains(&name.as_str()) && !v.contains(&name) {
                v.push(name);
            }
        }
        v
    }
}

fn flat(v: &[[f64; 3]]) -> Vec<f64> {
    v.iter().flatten().cloned().collect()
}

fn legacy(r: &mut Rng, s: &VtkStep, f: &Fields) -> Vtk {
    let size: Vec<f64> = s.rad.iter().map(|x| if f.diameter { x * 2.0 } else { *x }).collect();
    let mut arrays = vec![
        DataArrayBase { name: f.id.into(), elem: 1, data: buffer(r, s.id.iter().map(|x| *x as f64).collect(), true) },
        DataArrayBase { name: f.v.into(), elem: 3, data: buffer(r, flat(&s.vel), false) },
        DataArrayBase { name: f.r.into(), elem: 1, data: buffer(r, size, false) },
        DataArrayBase { name: "fx".into(), elem: 3, data: buffer(r, vec![0.5; 3 * s.id.len()], false) },
    ];
    if f.typed {
        arrays.push(DataArrayBase { name: f.t.into(), elem: 1, data: buffer(r, s.ptype.iter().map(|x| *x as f64).collect(), true) });
    }
    for o in &f.others {
        arrays.push(DataArrayBase { name: o.into(), elem: 1, data: buffer(r, vec![7.0; s.id.len()], true) });
    }
    let k = r.below(arrays.len());
    arrays.rotate_left(k);
    let piece = PolyDataPiece {
        points: buffer(r, flat(&s.pos), false),
        data: Attributes { point: vec![Attribute::Field { name: "FieldData".into(), data_array: arrays }], cell: vec![] },
        ..Default::default()
    };
    Vtk { title: "".into(), file_path: None, data: DataSet::PolyData { meta: None, pieces: vec![Piece::new_inline(piece)] } }
}

fn xml(r: &mut Rng, s: &VtkStep, f: &Fields, poly: bool) -> Vtk {
    // split over several pieces
    let n = s.id.len();
    let mut cuts = vec![0, n];
    for _ in 0..r.below(3) {
        cuts.push(r.int(0, n));
    }
    cuts.sort();
    let mut attrs = vec![];
    for w in cuts.windows(2) {
        let (a, b) = (w[0], w[1]);
        let size: Vec<f64> = s.rad[a..b].iter().map(|x| if f.diameter { x * 2.0 } else { *x }).collect();
        let arr = |name: &str, k: u32, data: IOBuffer| Attribute::DataArray(DataArrayBase { name: name.into(), elem: ElementType::Generic(k), data });
        let mut v = vec![
            arr(f.id, 1, buffer(r, s.id[a..b].iter().map(|x| *x as f64).collect(), true)),
            arr(f.v, 3, buffer(r, flat(&s.vel[a..b]), false)),
            arr(f.r, 1, buffer(r, size, false)),
            arr("omega", 3, buffer(r, vec![0.5; 3 * (b - a)], false)),
        ];
        if f.typed {
            v.push(arr(f.t, 1, buffer(r, s.ptype[a..b].iter().map(|x| *x as f64).collect(), true)));
        }
        for o in &f.others {
            v.push(arr(o, 1, buffer(r, vec![7.0; b - a], true)));
        }
        let k = r.below(v.len());
        v.rotate_left(k);
        attrs.push((buffer(r, flat(&s.pos[a..b]), false), Attributes { point: v, cell: vec![] }));
    }
    let data = if poly {
        DataSet::PolyData {
            meta: None,
            pieces: attrs.into_iter().map(|(points, data)| Piece::new_inline(PolyDataPiece { points, data, ..Default::default() })).collect(),
        }
    } else {
        DataSet::UnstructuredGrid {
            meta: None,
            pieces: attrs.into_iter().map(|(points, data)| Piece::new_inline(UnstructuredGridPiece { points, data, ..Default::default() })).collect(),
        }
    };
    Vtk { title: "".into(), file_path: None, data }
}

/// C44: VTK files
fn make_vtk(c: &mut Case, sc: &Scratch) -> (Made, Vec<VtkStep>) {
    let r = &mut c.rng;
    let form = r.below(3); // legacy, vtu, vtp
    let ext = ["vtk", "vtu", "vtp"][form];
    let n = if r.chance(0.02) { r.int(9, 40) } else { r.int(1, 7) };
    let mut f = Fields {
        id: *r.pick(&["id", "ID"]),
        v: *r.pick(&["v", "Velocity"]),
        r: *r.pick(&["radius", "size"]),
        t: *r.pick(&["type", "kind"]),
        diameter: r.chance(0.4),
        typed: r.chance(0.8),
        others: vec![],
    };
    if r.chance(0.3) {
        f.others = Fields::others(r, &[f.id, f.v, f.r, f.t]);
    }
    let huge = r.chance(0.03);
    let base = if huge { 4_294_967_290 - r.below(2) as u64 * 2_147_483_648 } else { r.below(2) as u64 };
    let dt = *r.pick(&[1e-5, 0.5, 1.0]);
    let dir_name = *r.pick(&["post", "run2", "out.d", "boundingBox_9"]);
    let padded = r.chance(0.3);
    let dir = format!("{}/{dir_name}", sc.dir.to_str().unwrap());
    std::fs::create_dir_all(&dir).expect("directory");
    let stride = r.int(1, 1200);
    let first = if r.chance(0.4) { 0 } else if r.chance(0.03) { 4_294_960_000 } else { r.int(1, 2000) };
    let even = r.chance(0.7);
    let (stem, filter_stem) = *r.pick(&[("drum", ""), ("drum_", "drum_"), ("dump-3_part", "part"), (ext, ""), (ext, "")]);
    let mut steps = vec![];
    let mut want = vec![];
    let mut names = vec![];
    let mut number = first;
    let count = if n < 9 && r.chance(0.02) { r.int(257, 400) } else { r.int(1, 6) };
    let vary = r.chance(0.5);
    let sparse = r.chance(0.3);
    for _ in 0..n {
        let low = if r.chance(0.2) { 0 } else { 1 };
        let m = if vary { r.int(low, 8) } else { count };
        let mut id: Vec<u64> = (0..m as u64).map(|k| base + if sparse { k * 3 + r.below(3) as u64 } else { k }).collect();
        for i in (1..m).rev() {
            id.swap(i, r.below(i + 1));
        }
        let pos: Vec<[f64; 3]> = (0..m).map(|_| std::array::from_fn(|_| r.value())).collect();
        let vel = random_vel(r, m);
        let rad: Vec<f64> = (0..m).map(|_| *r.pick(&[0.25, 0.5, 3.0])).collect();
        let ptype: Vec<u64> = (0..m).map(|_| r.int(1, 3) as u64).collect();
        let s = VtkStep { id, pos, vel, rad, ptype };
        let t = number as f64 * dt;
        let mut order: Vec<usize> = (0..m).collect();
        order.sort_by_key(|i| s.id[*i]);
        want.push(points(&vec![t; m], &order.iter().map(|i| s.pos[*i]).collect::<Vec<_>>(), &order.iter().map(|i| s.vel[*i]).collect::<Vec<_>>()));
        let path = if padded { format!("{dir}/{stem}{number:06}.{ext}") } else { format!("{dir}/{stem}{number}.{ext}") };
        let vtk = if form == 0 { legacy(r, &s, &f) } else { xml(r, &s, &f, form == 2) };
        vtkio::stub::register(&path, vtk);
        names.push(path);
        steps.push(VtkStep {
            id: order.iter().map(|i| s.id[*i]).collect(),
            pos: vec![],
            vel: vec![],
            rad: order.iter().map(|i| s.rad[*i]).collect(),
            ptype: order.iter().map(|i| if f.typed { s.ptype[*i] } else { 1 }).collect(),
        });
        number += if even { stride } else { r.int(1, 1500) };
    }
    let folder = r.chance(0.5);
    let out = sc.path("out.hdf5");
    let filter = format!(r"{filter_stem}(\d+).{ext}");
    c.log(format!("{ext} {} dt {dt} diameter {} typed {} folder {folder} filter {filter} files {names:?} ids {:?} positions {:?}", dir_name, f.diameter, f.typed,
        steps.iter().map(|s| s.id.clone()).collect::<Vec<_>>(), want.iter().map(|w| w.iter().map(|p| p.pos).collect::<Vec<_>>()).collect::<Vec<_>>()));
    if folder {
        // what else lies around
        std::fs::write(format!("{dir}/{stem}7_boundingBox.{ext}"), "x").unwrap();
        std::fs::write(format!("{dir}/notes5.txt"), "x").unwrap();
    }
    let mut files: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let run = |files: &[&str], out: &str| {
        if form == 0 {
            let mut b = LegacyVTKConverter::new().add_id_field(f.id).add_velocity_field(f.v);
            b = if f.diameter { b.add_diameter_field(f.r) } else { b.add_radius_field(f.r) };
            if f.typed {
                b = b.add_type_field(f.t);
            }
            if folder {
                b.write_hdf5_from_folder(&dir, dt, out, &filter);
            } else {
                b.write_hdf5_from_files(files.to_vec(), dt, out, &filter);
            }
        } else {
            let mut b = XMLVTKConverter::new(if form == 2 { VTKType::PolyData } else { VTKType::UnstructuredGrid }).add_id_field(f.id).add_velocity_field(f.v);
            b = if f.diameter { b.add_diameter_field(f.r) } else { b.add_radius_field(f.r) };
            if f.typed {
                b = b.add_type_field(f.t);
            }
            if folder {
                b.write_hdf5_from_folder(&dir, dt, out, &filter);
            } else {
                b.write_hdf5_from_files(files.to_vec(), dt, out, &filter);
            }
        }
    };
    let mut done = false;
    if !folder && n > 1 && c.rng.chance(0.15) {
        // files out of order: refused, or put in order
        let i = c.rng.below(n);
        let j = (i + 1 + c.rng.below(n - 1)) % n;
        files.swap(i, j);
        c.seen("lists out of order");
        done = !refused(|| run(&files, &out));
        files.swap(i, j);
    }
    if !done {
        run(&files, &out);
    }
    if padded {
        c.seen("padded file numbers");
    }
    for p in &names {
        vtkio::stub::forget(p);
    }
    c.seen(["legacy files", "unstructured grids", "polydata"][form]);
    if folder {
        c.seen("folders");
    }
    if f.diameter {
        c.seen("diameters");
    }
    if vary {
        c.seen("varying particle counts");
    }
    if base == 0 {
        c.seen("ids from zero");
    }
    if huge {
        c.seen("ids beyond 31 bits");
    }
    if first > 1 << 31 {
        c.seen("file numbers beyond 31 bits");
    }
    if !f.others.is_empty() {
        c.seen("fields of similar names");
    }
    c.nontrivial |= n > 1;
    (Made { kind: Kind::Time, path: out, want, radius: None, even: if even { Some(stride as f64 * dt) } else { None }, velocities: true, name: "vtk" }, steps)
}

pub fn c44(c: &mut Case) -> R {
    let sc = Scratch::new();
    let (m, steps) = make_vtk(c, &sc);
    check_content(c, &m)?;
    let mut d = Src::open(m.kind, &m.path);
    for (k, s) in steps.iter().enumerate() {
        let g = d.d().get_timestep(k);
        let id: Vec<f64> = s.id.iter().map(|x| *x as f64).collect();
        let ty: Vec<f64> = s.ptype.iter().map(|x| *x as f64).collect();
        ensure!(g.particleid().to_vec() == id, "id", "step {k}: ids {:?} instead of {id:?}", g.particleid());
        ensure!(g.radius().to_vec() == s.rad, "radius", "step {k}: radii {:?} instead of {:?}", g.radius(), s.rad);
        ensure!(g.ptype().to_vec() == ty, "type", "step {k}: types {:?} instead of {ty:?}", g.ptype());
        ensure!(g.clouds().iter().all(|x| *x == 1.0), "cloud", "step {k}: clouds {:?}", g.clouds());
    }
    Ok(())
}

/// C45: the summary of a converted file is that of its content
pub fn c45(c: &mut Case) -> R {
    let sc = Scratch::new();
    let p = *c.rng.pick(&[Proc::Given, Proc::Velocity, Proc::Both]);
    let m = match c.rng.below(4) {
        0 => match make_csv(c, &sc, p)? {
            Some(m) => m,
            None => return Ok(()),
        },
        1 => make_many(c, &sc, p),
        2 => make_files(c, &sc).0,
        _ => make_vtk(c, &sc).0,
    };
    c.seen(&format!("{} summaries", m.name));
    let mut d = Src::open(m.kind, &m.path);
    let g = d.d().global_stats();
    let n = *g.timesteps();
    let key = m.name;
    // the content as it is read back; C39-C44 decide whether it is right
    let f = hdf5::File::open(&m.path).expect("output");
    let stored = match m.kind {
        Kind::Particle => match f.group("particle 0").and_then(|g| g.dataset("time")) {
            Ok(d) => d.shape()[0],
            Err(_) => fail!(key, "no particle written"),
        },
        Kind::Time => (0..).take_while(|i| f.group(&format!("timestep {i}")).is_ok()).count(),
    };
    let groups = (0..).take_while(|i| f.group(&format!("particle {i}")).is_ok()).count();
    ensure!(n == stored, key, "summary says {n} steps, the file holds {stored}");
    let mut steps: Vec<Step> = vec![];
    for k in 0..n {
        let s = d.d().get_timestep(k);
        steps.push(Step {
            t: *s.time(),
            pos: s.position().to_vec(),
            vel: s.velocity().outer_iter().map(|v| [v[0], v[1], v[2]]).collect(),
            ..Default::default()
        });
    }
    let many = match m.kind {
        Kind::Particle => groups,
        Kind::Time => steps.iter().map(|s| s.pos.len()).max().unwrap_or(0),
    };
    ensure!(*g.nparticles() == many, key, "summary says {} particles, the file holds {many}", g.nparticles());
    let t: Vec<f64> = steps.iter().map(|s| s.t).collect();
    ensure!(*g.min_time() == t[0], key, "summary starts at {:?}, the file at {:?}", g.min_time(), t[0]);
    ensure!(*g.max_time() == t[n - 1], key, "summary ends at {:?}, the file at {:?}", g.max_time(), t[n - 1]);
    ensure!(g.time_array().to_vec() == t, key, "list of times {:?}, the file has {t:?}", g.time_array());
    if let Some(dt) = m.even {
        if n > 1 {
            ensure!((g.sample_rate() - dt).abs() <= 1e-9 * (dt + t[n - 1].abs()), key, "sample rate {:?}, steps are {dt:?} apart", g.sample_rate());
            c.seen("sample rates compared");
        }
    }
    let all: Vec<[f64; 3]> = steps.iter().flat_map(|s| s.pos.clone()).collect();
    let vel: Vec<[f64; 3]> = steps.iter().flat_map(|s| s.vel.clone()).collect();
    if all.is_empty() {
        return Ok(());
    }
    let ext = |v: &mut dyn Iterator<Item = f64>| v.fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(x), b.max(x)));
    for k in 0..3 {
        let (lo, hi) = ext(&mut all.iter().map(|p| p[k]));
        ensure!(g.dimensions()[[0, k]] == lo && g.dimensions()[[1, k]] == hi, key, "axis {k}: extent {}..{}, positions lie in {lo}..{hi}", g.dimensions()[[0, k]], g.dimensions()[[1, k]]);
        if m.velocities {
            let (lo, hi) = ext(&mut vel.iter().map(|p| p[k]));
            let mean = vel.iter().map(|p| p[k]).sum::<f64>() / vel.len() as f64;
            let s = lo.abs().max(hi.abs());
            ensure!(
                g.velocity()[[k, 0]] == lo && g.velocity()[[k, 2]] == hi && close(g.velocity()[[k, 1]], mean, s),
                key,
                "axis {k}: velocities [min, mean, max] {:?}, stored are {:?}",
                g.velocity().row(k).to_vec(),
                [lo, mean, hi]
            );
        }
    }
    if m.velocities {
        let (lo, hi) = ext(&mut vel.iter().map(speed));
        let mean = vel.iter().map(speed).sum::<f64>() / vel.len() as f64;
        let q = g.velocity_mag();
        ensure!(close(q[0], lo, hi) && close(q[1], mean, hi) && close(q[2], hi, hi), key, "speeds [min, mean, max] {q:?}, stored are {:?}", [lo, mean, hi]);
        c.seen("speed summaries compared");
    }
    c.see("sightings summarised", all.len() as u64);
    Ok(())
}
