//! C13-C24: the grid analyses, each against an independent computation from the recording.
use crate::data::*;
use crate::geo::{Cell, GSpec, Pos};
use crate::rec::{close, Case, R};
use crate::rng::Rng;
use crate::{ensure, fail};
use ndarray::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::{GridFunctions3D, ParticleSelector};

struct Setup {
    g: GSpec,
    rec: Recording,
    sel: Sel,
    mock: Mock,
    psel: ParticleSelector,
}

fn setup(c: &mut Case, max: usize, o: &Opts) -> Setup {
    let g = GSpec::random(&mut c.rng, max);
    setup_on(c, g, o)
}

fn setup_on(c: &mut Case, g: GSpec, o: &Opts) -> Setup {
    let rec = random_rec(&mut c.rng, &g, o);
    let sel = random_sel(&mut c.rng, &rec);
    finish(c, g, rec, sel)
}

fn finish(c: &mut Case, g: GSpec, rec: Recording, sel: Sel) -> Setup {
    c.log(g.desc());
    c.log(sel.desc());
    c.log(rec.desc());
    if rec.max_particles() > 256 {
        c.seen("recordings of more than 256 particles");
    }
    if rec.steps.len() > 256 {
        c.seen("recordings of more than 256 steps");
    }
    let mock = Mock::new(&rec);
    let psel = sel.build();
    Setup { g, rec, sel, mock, psel }
}

/// selected sightings: (step, particle, cell they are located in)
fn sightings(s: &Setup) -> Vec<(usize, usize, Option<Cell>)> {
    let mut v = vec![];
    for (k, st) in s.rec.steps.iter().enumerate() {
        if !s.sel.at(st.t) {
            continue;
        }
        for i in 0..st.pos.len() {
            if s.sel.of(st, i) {
                v.push((k, i, s.g.cell(st.pos[i])));
            }
        }
    }
    v
}

fn zeros(g: &GSpec) -> Array3<f64> {
    Array3::zeros(g.cells)
}

fn cmp(what: &str, g: &GSpec, got: &Array3<f64>, want: &Array3<f64>, scale: &Array3<f64>) -> R {
    ensure!(got.shape() == want.shape(), what, "shape {:?} instead of {:?}", got.shape(), want.shape());
    for c in g.all_cells() {
        ensure!(
            close(got[c], want[c], scale[c]),
            what,
            "cell {c:?}: {what} {:?}, expected {:?}",
            got[c],
            want[c]
        );
    }
    Ok(())
}

fn has_nan(v: &Pos) -> bool {
    v.iter().any(|x| x.is_nan())
}

fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn same_geometry(s: &Setup, g: &dyn GridFunctions3D) -> R {
    ensure!(*g.get_cells() == s.g.cells, "geometry", "result has cells {:?}", g.get_cells());
    ensure!(g.is_cylindrical() == s.g.cyl, "geometry", "result grid changed its kind");
    Ok(())
}

/// analyses of single instants, for which equal times of consecutive steps are unambiguous
fn same_instant() -> Opts {
    let mut o = Opts::std();
    o.dup = true;
    o
}

pub fn c13(c: &mut Case) -> R {
    let mut s = setup(c, 4, &same_instant());
    let mut want = zeros(&s.g);
    let (mut inn, mut out) = (0, 0);
    for (_, _, cell) in sightings(&s) {
        match cell {
            Some(x) => {
                want[x] += 1.0;
                inn += 1
            }
            None => out += 1,
        }
    }
    let left = s.rec.sightings() - inn;
    let r = s.mock.m().numberfield(s.g.build(), &s.psel);
    same_geometry(&s, &*r)?;
    cmp("value", &s.g, r.get_data(), &want, &zeros(&s.g))?;
    cmp("weight", &s.g, r.get_weights(), &want, &zeros(&s.g))?;
    if want.iter().any(|x| *x > 65535.0) {
        c.seen("cells of more than 65535 sightings");
    }
    c.see("sightings counted", inn);
    c.see("sightings left out", left);
    c.see("selected sightings outside the grid", out);
    c.nontrivial = inn > 0 && left > 0;
    Ok(())
}

fn measure(mode: &str, v: &Pos) -> f64 {
    match mode {
        "absolute" => speed(v),
        "x" => v[0],
        "y" => v[1],
        "z" => v[2],
        "xy" => (v[0] * v[0] + v[1] * v[1]).sqrt(),
        "xz" => (v[0] * v[0] + v[2] * v[2]).sqrt(),
        "yz" => (v[1] * v[1] + v[2] * v[2]).sqrt(),
        _ => panic!("mode"),
    }
}

/// the measure is the same float however it is computed
fn exact(m: f64, v: &Pos) -> bool {
    m.fract() == 0.0 && v.iter().all(|x| x.fract() == 0.0)
        || v.iter().filter(|x| **x != 0.0).count() <= 1
}

pub fn c14(c: &mut Case) -> R {
    let modes = ["absolute", "x", "y", "z", "xy", "xz", "yz"];
    let mut o = same_instant();
    o.inf_vel = true;
    let mut s = setup(c, 4, &o);
    let mode = *c.rng.pick(&modes);
    let all: Vec<(f64, bool)> = s
        .rec
        .steps
        .iter()
        .flat_map(|st| st.vel.iter())
        .map(|v| (measure(mode, v), mode.len() == 1 || exact(measure(mode, v), v)))
        .filter(|x| !x.0.is_nan())
        .collect();
    let ex: Vec<f64> = all.iter().filter(|x| x.1).map(|x| x.0).collect();
    let (mut lo, mut hi) = (-1e9, 1e9);
    for _ in 0..10 {
        let mut end = |r: &mut Rng| -> f64 {
            if !ex.is_empty() && r.chance(0.5) {
                *r.pick(&ex)
            } else {
                r.range(-3.0, 5.0)
            }
        };
        let (mut a, mut b) = (-1e9, 1e9);
        if c.rng.chance(0.6) {
            a = end(&mut c.rng)
        }
        if c.rng.chance(0.6) {
            b = end(&mut c.rng)
        }
        if a > b && !c.rng.chance(0.1) {
            std::mem::swap(&mut a, &mut b);
        }
        let bad = all
            .iter()
            .any(|(m, e)| !e && ((m - a).abs() < 1e-9 || (m - b).abs() < 1e-9));
        if !bad {
            lo = a;
            hi = b;
            break;
        }
    }
    c.log(format!("mode {mode} range [{lo:?}, {hi:?}]"));
    if lo > hi {
        c.seen("ranges that hold nothing");
    }
    let (mut sum, mut n, mut mag) = (zeros(&s.g), zeros(&s.g), zeros(&s.g));
    for (k, i, cell) in sightings(&s) {
        let st = &s.rec.steps[k];
        let m = measure(mode, &st.vel[i]);
        if has_nan(&st.pos[i]) || m.is_nan() {
            c.seen("NaN left out");
            continue;
        }
        let cell = match cell {
            Some(x) => x,
            None => continue,
        };
        if m < lo || m > hi {
            c.seen("out of range left out");
            continue;
        }
        if m.is_infinite() {
            c.seen("infinite values averaged");
        }
        if m == lo || m == hi {
            c.seen("value exactly on a range end");
        }
        sum[cell] += m;
        mag[cell] += m.abs();
        n[cell] += 1.0;
    }
    let total = n.sum();
    c.see("sightings averaged", total as u64);
    let want = &sum / &n;
    let r = s.mock.m().velocityfield(s.g.build(), &s.psel, mode, lo, hi);
    same_geometry(&s, &*r)?;
    cmp("weight", &s.g, r.get_weights(), &n, &zeros(&s.g))?;
    cmp("value", &s.g, r.get_data(), &want, &mag)?;
    if c.idx % 8 == 0 {
        let g = s.g.build();
        let bad = *c.rng.pick(&["", "speed", "w", "yx", "Absolute", "xyz"]);
        ensure!(
            refused(|| {
                s.mock.m().velocityfield(g, &s.psel, bad, lo, hi);
            }),
            "unknown-mode",
            "unknown measure {bad:?} was not refused"
        );
        c.seen("unknown measures refused");
    }
    c.nontrivial = total > 0.0 && (total as u64) < s.rec.sightings();
    Ok(())
}

/// velocity components on a grid, for a point off the axis
pub fn components(g: &GSpec, p: Pos, v: Pos) -> [f64; 3] {
    if !g.cyl {
        return v;
    }
    let a = g.axis();
    let (x, y) = (p[0] - a[0], p[1] - a[1]);
    let r2 = x * x + y * y;
    [(x * v[0] + y * v[1]) / r2.sqrt(), (x * v[1] - y * v[0]) / r2, v[2]]
}

pub fn c15(c: &mut Case) -> R {
    let mut o = same_instant();
    o.off_axis = true;
    let g = GSpec::random(&mut c.rng, 4);
    // on a cylinder the components of an infinite velocity depend on its rounded direction
    o.inf_vel = !g.cyl;
    let mut s = setup_on(c, g, &o);
    let mut sum = [zeros(&s.g), zeros(&s.g), zeros(&s.g)];
    let mut mag = [zeros(&s.g), zeros(&s.g), zeros(&s.g)];
    let mut n = zeros(&s.g);
    for (k, i, cell) in sightings(&s) {
        let st = &s.rec.steps[k];
        if has_nan(&st.pos[i]) || has_nan(&st.vel[i]) {
            c.seen("NaN left out");
            continue;
        }
        if let Some(cell) = cell {
            let q = components(&s.g, st.pos[i], st.vel[i]);
            let a = s.g.axis();
            let own = s.g.own(st.pos[i]);
            // rounding of the centre-relative position
            let amp = if s.g.cyl { (1.0 + (a[0].abs() + a[1].abs()) / own[0]) * 10.0 / own[0].min(1.0) } else { 1.0 };
            for a in 0..3 {
                sum[a][cell] += q[a];
                mag[a][cell] += (q[a].abs() + 1.0) * amp;
            }
            n[cell] += 1.0;
        }
    }
    let total = n.sum();
    c.see("sightings averaged", total as u64);
    let cells = n.iter().filter(|x| **x > 0.0).count() as u64;
    c.see(if s.g.cyl { "cylindrical cells" } else { "cartesian cells" }, cells);
    let r = s.mock.m().vectorfield(s.g.build(), &s.psel);
    for a in 0..3 {
        same_geometry(&s, &*r.data[a])?;
        cmp("weight", &s.g, r.data[a].get_weights(), &n, &zeros(&s.g))?;
        cmp(["first component", "second component", "third component"][a], &s.g, r.data[a].get_data(), &(&sum[a] / &n), &mag[a])?;
    }
    c.nontrivial = total > 0.0;
    Ok(())
}

struct Occ {
    val: Array3<f64>,
    weight: Array3<f64>,
    total: f64,
    credited: u64,
    leaving: u64,
    slow: u64,
    gone: u64,
}

fn occupancy(s: &Setup, min: f64) -> Occ {
    let mut o = Occ { val: zeros(&s.g), weight: zeros(&s.g), total: 0.0, credited: 0, leaving: 0, slow: 0, gone: 0 };
    let n = s.rec.steps.len();
    for k in 0..n.saturating_sub(3) {
        let (st, nx) = (&s.rec.steps[k], &s.rec.steps[k + 1]);
        if !s.sel.at(st.t) {
            continue;
        }
        let dt = nx.t - st.t;
        for i in 0..st.pos.len() {
            let cell = match s.g.cell(st.pos[i]) {
                Some(x) => x,
                None => continue,
            };
            if !s.sel.of(st, i) {
                continue;
            }
            if speed(&st.vel[i]) < min {
                o.slow += 1;
                continue;
            }
            let j = match same_particle(st, i, nx) {
                Some(j) => j,
                None => {
                    o.gone += 1;
                    continue;
                }
            };
            o.total += dt;
            let next = s.g.cell(nx.pos[j]);
            if s.g.cyl {
                o.val[cell] += dt;
                o.weight[cell] += 1.0;
                o.credited += 1;
            } else if let Some(nc) = next {
                for x in [cell, nc] {
                    o.val[x] += dt / 2.0;
                    o.weight[x] += 0.5;
                }
                o.credited += 1;
            } else {
                o.leaving += 1;
            }
        }
    }
    o.val /= o.total;
    o
}

fn occ_opts() -> Opts {
    let mut o = Opts::std();
    o.steps = (4, 10);
    o.particles = (1, 8);
    o.vary = false;
    o.shrink = true;
    o.nan_vel = false;
    o
}

/// a minimum speed that no generated speed is within rounding of, unless it is exact
fn min_speed(c: &mut Case, rec: &Recording) -> f64 {
    let all: Vec<&Pos> = rec.steps.iter().flat_map(|s| s.vel.iter()).collect();
    let ex: Vec<f64> = all.iter().filter(|v| exact(speed(v), v)).map(|v| speed(v)).collect();
    for _ in 0..10 {
        let m = match c.rng.below(4) {
            0 | 1 => 0.0,
            2 if !ex.is_empty() => *c.rng.pick(&ex),
            _ => c.rng.range(0.0, 4.0),
        };
        if !all.iter().any(|v| !exact(speed(v), v) && (speed(v) - m).abs() < 1e-9) {
            return m;
        }
    }
    0.0
}

pub fn c16(c: &mut Case) -> R {
    let mut o = occ_opts();
    if c.rng.chance(0.4) {
        o.outside = 0.0;
        o.nan_pos = false;
    }
    let mut s = setup(c, 4, &o);
    let min = min_speed(c, &s.rec);
    c.log(format!("minimum speed {min:?}"));
    let w = occupancy(&s, min);
    let r = s.mock.m().occupancyfield(s.g.build(), &s.psel, min);
    same_geometry(&s, &*r)?;
    cmp("value", &s.g, r.get_data(), &w.val, &zeros(&s.g))?;
    if w.total > 0.0 {
        let sum = r.get_data().sum();
        ensure!(r.get_data().iter().all(|x| *x >= 0.0), "negative", "negative occupancy");
        if w.leaving == 0 {
            ensure!((sum - 1.0).abs() < 1e-9, "sum", "no particle leaves the grid but the values sum to {sum:?}");
            c.seen("sums to one");
        } else {
            ensure!(sum < 1.0 + 1e-9, "sum", "values sum to {sum:?}");
        }
    }
    c.see("intervals credited", w.credited);
    c.see("intervals leaving the grid", w.leaving);
    c.see("below minimum speed", w.slow);
    c.see("intervals of vanishing particles", w.gone);
    c.see("particles with another place in the next step", s.rec.moved());
    c.nontrivial = w.credited > 0;
    Ok(())
}

pub fn c17(c: &mut Case) -> R {
    let mut o = same_instant();
    o.inf_vel = true;
    let mut s = setup(c, 3, &o);
    let (mut sum, mut n) = (0.0, 0u64);
    for (k, i, _) in sightings(&s) {
        let v = speed(&s.rec.steps[k].vel[i]);
        if !v.is_nan() {
            sum += v;
            n += 1;
        }
    }
    let want = sum / n as f64;
    c.see("speeds averaged", n);
    c.see("sightings left out", s.rec.sightings() - n);
    let a = s.mock.m().mean_velocity_showcase(&s.psel);
    ensure!(close(a, want, 0.0), "mean_velocity_showcase", "mean velocity {a:?}, expected {want:?}");
    let b = s.mock.m().mean_velocity(&s.psel);
    ensure!(close(b, want, 0.0), "mean_velocity", "mean velocity {b:?}, expected {want:?}");
    c.nontrivial = n > 0;
    Ok(())
}

/// stored step closest to time t (None outside the recording)
pub fn closest(times: &[f64], t: f64) -> Option<usize> {
    if times.is_empty() || t < times[0] || t > times[times.len() - 1] {
        return None;
    }
    (0..times.len()).min_by(|a, b| (times[*a] - t).abs().partial_cmp(&(times[*b] - t).abs()).unwrap())
}

/// the closest step to every time + lag is beyond doubt
fn lag_ok(times: &[f64], lag: f64) -> bool {
    if lag == 0.0 || times.len() < 2 {
        return true;
    }
    times.iter().all(|t0| {
        let t = t0 + lag;
        let last = times[times.len() - 1];
        let eps = 1e-9 * (last.abs() + lag.abs());
        if (t - last).abs() < eps || (t - times[0]).abs() < eps {
            return false;
        }
        times.windows(2).all(|w| {
            let mid = (w[0] + w[1]) / 2.0;
            (t - mid).abs() > 1e-6 * (w[1] - w[0])
        })
    })
}

fn lag(r: &mut Rng, times: &[f64]) -> f64 {
    let span = times[times.len() - 1] - times[0];
    let back = r.chance(0.06);
    for _ in 0..20 {
        let l = match r.below(6) {
            0 => 0.0,
            1 => span * 1.1,
            2 if times.len() > 1 => {
                // nearly exactly some number of steps
                let a = r.below(times.len() - 1);
                (times[r.int(a + 1, times.len() - 1)] - times[a]) * (1.0 + r.range(-1e-3, 1e-3))
            }
            _ => span * r.range(0.0, 0.9),
        };
        // looking back
        let l = if back { -l } else { l };
        if lag_ok(times, l) {
            return l;
        }
    }
    0.0
}

fn lag_opts(c: &mut Case) -> Opts {
    let mut o = Opts::std();
    o.steps = (1, 10);
    o.particles = (1, 8);
    o.vary = false;
    o.shrink = true;
    o.nan_pos = c.rng.chance(0.4);
    o
}

pub fn c18(c: &mut Case) -> R {
    let o = lag_opts(c);
    let mut s = setup(c, 3, &o);
    let times: Vec<f64> = s.rec.steps.iter().map(|x| x.t).collect();
    let tau = lag(&mut c.rng, &times);
    c.log(format!("dispersion time {tau:?}"));
    let mut later: std::collections::BTreeMap<Cell, Vec<Pos>> = Default::default();
    for (k, i, cell) in sightings(&s) {
        let cell = match cell {
            Some(x) => x,
            None => continue,
        };
        let m = match closest(&times, times[k] + tau) {
            Some(m) => m,
            None => {
                c.seen("beyond the recording");
                continue;
            }
        };
        match same_particle(&s.rec.steps[k], i, &s.rec.steps[m]) {
            Some(j) if has_nan(&s.rec.steps[m].pos[j]) => c.seen("later positions unknown"),
            Some(j) => {
                if i != j {
                    c.seen("particles found at another place");
                }
                later.entry(cell).or_default().push(s.rec.steps[m].pos[j])
            }
            None => c.seen("vanished particles"),
        }
    }
    let (mut val, mut w, mut mag) = (zeros(&s.g), zeros(&s.g), zeros(&s.g));
    for (cell, v) in &later {
        let n = v.len() as f64;
        if v.len() < 2 {
            c.seen("cells with one sighting");
            continue;
        }
        for a in 0..3 {
            let mean = v.iter().map(|p| p[a]).sum::<f64>() / n;
            val[*cell] += v.iter().map(|p| (p[a] - mean).powi(2)).sum::<f64>() / (n - 1.0);
            mag[*cell] += v.iter().map(|p| p[a] * p[a]).sum::<f64>() / (n - 1.0);
        }
        w[*cell] = 1.0;
        c.seen("cells with dispersion");
    }
    let (r, eff) = s.mock.m().dispersion(s.g.build(), &s.psel, tau);
    same_geometry(&s, &*r)?;
    cmp("value", &s.g, r.get_data(), &val, &mag)?;
    cmp("weight", &s.g, r.get_weights(), &w, &zeros(&s.g))?;
    let want = (&val * &w).sum() / w.sum();
    ensure!(close(eff, want, mag.sum()), "efficiency", "mixing efficiency {eff:?}, expected {want:?}");
    c.nontrivial = w.sum() > 0.0;
    Ok(())
}

pub fn c19(c: &mut Case) -> R {
    let g = GSpec::random(&mut c.rng, 3);
    let mut o = same_instant();
    o.particles = (1, 10);
    let mut rec = random_rec(&mut c.rng, &g, &o);
    // exact speeds, so that some can lie exactly on the edges
    for s in rec.steps.iter_mut() {
        for v in s.vel.iter_mut() {
            if c.rng.chance(0.35) && !has_nan(v) {
                *v = *c.rng.pick(&[
                    [0.0, 0.0, 0.0],
                    [1.0, 0.0, 0.0],
                    [0.0, -2.0, 0.0],
                    [1.0, 2.0, 2.0],
                    [2.0, -3.0, 6.0],
                    [0.0, 3.0, 4.0],
                    [0.0, 0.0, 9.0],
                    [-9.0, 0.0, 0.0],
                ]);
            }
        }
    }
    rec.finish();
    let sel = random_sel(&mut c.rng, &rec);
    let mut s = finish(c, g, rec, sel);
    let bins = *c.rng.pick(&[1, 2, 3, 4, 5, 8, 13, 50]);
    let lo = s.rec.vmag[0];
    let limit = match c.rng.below(4) {
        0 | 1 => 0.0,
        2 => *c.rng.pick(&[3.0, 5.0, 7.0, 9.0]),
        _ => c.rng.range(0.5, 12.0),
    };
    let hi = if limit == 0.0 { s.rec.vmag[2] } else { limit };
    c.log(format!("bins {bins} limit {limit:?} speeds {:?}", s.rec.vmag));
    if c.idx % 8 == 0 {
        let g = s.g.build();
        let bad = *c.rng.pick(&["", "speed", "Velocity", "radius"]);
        ensure!(
            refused(|| {
                s.mock.m().histogram(g, &s.psel, bad, limit, bins);
            }),
            "unknown-property",
            "unknown property {bad:?} was not refused"
        );
        c.seen("unknown properties refused");
    }
    if hi - lo < 1e-6 {
        return Ok(());
    }
    let w = (hi - lo) / bins as f64;
    let (mut sure, mut maybe) = (vec![0.0; bins], vec![0.0; bins]);
    let mut counted = 0;
    for (k, i, cell) in sightings(&s) {
        if cell.is_none() {
            continue;
        }
        let v = &s.rec.steps[k].vel[i];
        let x = speed(v);
        if x.is_nan() {
            c.seen("NaN left out");
            continue;
        }
        let eps = 1e-9 * (1.0 + hi.abs());
        let ex = exact(x, v);
        let t = (x - lo) / w;
        // bins the speed may be counted in, and whether it may also be left out
        let mut cands: Vec<Option<usize>> = vec![];
        if (x - hi).abs() < eps {
            if x <= hi || !ex {
                cands.push(Some(bins - 1));
            }
            if x > hi || !ex {
                cands.push(None);
            }
            if x == hi && ex {
                c.seen("speed on the last edge");
            }
        } else if (x - lo).abs() < eps {
            cands.push(Some(0)); // lo is the minimum of all speeds
            if !ex {
                cands.push(None);
            }
        } else if x > hi || x < lo {
            cands.push(None);
            c.seen("speeds outside the edges");
        } else {
            let n = t.round();
            if (t - n).abs() < 1e-7 && n >= 1.0 && n <= bins as f64 - 1.0 {
                cands.push(Some(n as usize - 1));
                cands.push(Some(n as usize));
                c.seen("speeds on an inner edge");
            } else {
                cands.push(Some((t.floor() as usize).min(bins - 1)));
            }
        }
        if cands.len() == 1 {
            if let Some(b) = cands[0] {
                sure[b] += 1.0;
                maybe[b] += 1.0;
                counted += 1;
            }
        } else {
            for b in cands.iter().flatten() {
                maybe[*b] += 1.0;
            }
        }
    }
    let (h, e) = s.mock.m().histogram(s.g.build(), &s.psel, "velocity", limit, bins);
    ensure!(h.len() == bins && e.len() == bins + 1, "shape", "{} bins and {} edges", h.len(), e.len());
    ensure!(e[0] == lo, "edges", "first edge {:?}, the minimum speed is {lo:?}", e[0]);
    ensure!(e[bins] == hi, "edges", "last edge {:?}, expected {hi:?}", e[bins]);
    for b in 0..=bins {
        let want = lo + w * b as f64;
        ensure!(close(e[b], want, hi.abs()), "edges", "edge {b} is {:?}, expected {want:?}", e[b]);
        ensure!(b == 0 || e[b] > e[b - 1], "edges", "edges not ascending at {b}");
    }
    for b in 0..bins {
        ensure!(
            h[b] >= sure[b] && h[b] <= maybe[b],
            "count",
            "bin {b} [{:?}, {:?}] holds {} of {}..{} speeds",
            e[b],
            e[b + 1],
            h[b],
            sure[b],
            maybe[b]
        );
    }
    c.see("speeds counted", counted);
    c.nontrivial = counted > 0;
    Ok(())
}

pub fn c20(c: &mut Case) -> R {
    let g = GSpec::random(&mut c.rng, 3);
    let o = same_instant();
    let mut rec = random_rec(&mut c.rng, &g, &o);
    let style = c.rng.below(4);
    let base = random_vel(&mut c.rng);
    let off = c.rng.range(20.0, 150.0);
    for st in rec.steps.iter_mut() {
        for v in st.vel.iter_mut() {
            match style {
                0 => *v = [base[0] + 0.1, base[1] * 1.7, base[2] - 0.3],
                1 => {
                    for a in 0..3 {
                        v[a] += off
                    }
                }
                _ => {}
            }
        }
    }
    rec.finish();
    let sel = random_sel(&mut c.rng, &rec);
    let mut s = finish(c, g, rec, sel);
    let mode = *c.rng.pick(&GMODES);
    c.log(format!("mode {mode}"));
    let axes: &[usize] = match mode {
        "x" => &[0],
        "y" => &[1],
        "z" => &[2],
        _ => &[0, 1, 2],
    };
    let mut per: std::collections::BTreeMap<Cell, Vec<Pos>> = Default::default();
    for (k, i, cell) in sightings(&s) {
        if let Some(x) = cell {
            if has_nan(&s.rec.steps[k].vel[i]) {
                c.seen("sightings without velocity");
                continue;
            }
            per.entry(x).or_default().push(s.rec.steps[k].vel[i]);
        }
    }
    let r = s.mock.m().granular_temperature_field(s.g.build(), &s.psel, mode);
    same_geometry(&s, &*r)?;
    let d = r.get_data();
    ensure!(d.shape() == s.g.cells, "shape", "shape {:?}", d.shape());
    let mut many = 0;
    for cell in s.g.all_cells() {
        let v = per.get(&cell).cloned().unwrap_or_default();
        let n = v.len() as f64;
        let w = r.get_weights()[cell];
        ensure!(w == n, "weight", "cell {cell:?}: weight {w:?}, {n} sightings");
        if v.is_empty() {
            ensure!(d[cell].is_nan(), "empty", "empty cell {cell:?} holds {:?}", d[cell]);
            c.seen("empty cells");
            continue;
        }
        let (mut var, mut sq) = (0.0, 0.0);
        for a in axes {
            let mean = v.iter().map(|p| p[*a]).sum::<f64>() / n;
            var += v.iter().map(|p| (p[*a] - mean).powi(2)).sum::<f64>() / n;
            sq += v.iter().map(|p| p[*a] * p[*a]).sum::<f64>() / n;
        }
        var /= axes.len() as f64;
        sq /= axes.len() as f64;
        let t = d[cell];
        ensure!(t >= 0.0, "negative", "cell {cell:?} with {n} sightings holds {t:?}");
        ensure!(
            (t * t - var).abs() <= 1e-9 * sq + 1e-9 * var,
            "value",
            "cell {cell:?}: granular temperature {t:?}, expected {:?}",
            var.sqrt()
        );
        if v.len() > 1 {
            many += 1;
            if v.iter().all(|p| *p == v[0]) {
                c.seen("uniform cells");
            } else {
                c.seen("cells with temperature");
            }
        }
    }
    if c.idx % 8 == 0 {
        let g = s.g.build();
        let bad = *c.rng.pick(&["", "xy", "absolute", "XYZ"]);
        ensure!(
            refused(|| {
                s.mock.m().granular_temperature_field(g, &s.psel, bad);
            }),
            "unknown-mode",
            "unknown mode {bad:?} was not refused"
        );
        c.seen("unknown modes refused");
    }
    c.nontrivial = many > 0;
    Ok(())
}

pub fn c21(c: &mut Case) -> R {
    let mut g = GSpec::random(&mut c.rng, 3);
    g.cells[2] = c.rng.int(1, 4);
    let mut o = occ_opts();
    o.particles = (3, 12);
    if c.rng.chance(0.02) {
        g.cells = [c.rng.int(1, 3), c.rng.int(1, 3), c.rng.int(8, 40)];
        o.particles = (200, 300);
        if c.rng.chance(0.3) {
            g.cells[2] = c.rng.int(65, 90);
            o.particles = (500, 600);
        }
    }
    o.steps = (5, 10);
    o.outside = 0.1;
    let mut s = setup_on(c, g, &o);
    let min = if c.rng.chance(0.6) { 0.0 } else { min_speed(c, &s.rec) };
    c.log(format!("minimum speed {min:?}"));
    let w = occupancy(&s, min);
    let n = s.g.cells[2];
    let mut prof = vec![];
    for k in 0..n {
        let d = w.val.slice(s![.., .., k]);
        let ww = w.weight.slice(s![.., .., k]);
        if ww.sum() == 0.0 || !(w.total > 0.0) {
            return Ok(()); // a layer without occupancy
        }
        prof.push((&d * &ww).sum() / ww.sum());
    }
    let mean = prof.iter().sum::<f64>() / n as f64;
    let want = (prof.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n as f64).sqrt();
    let got = s.mock.m().homogenity_index(s.g.build(), &s.psel, min);
    ensure!(got >= 0.0, "negative", "homogeneity index {got:?}");
    ensure!((got - want).abs() < 1e-9, "index", "homogeneity index {got:?}, expected {want:?} of profile {prof:?}");
    c.seen("profiles compared");
    if n > 64 {
        c.seen("profiles of more than 64 layers");
    }
    c.nontrivial = n > 1;
    Ok(())
}

fn type_setup(c: &mut Case) -> (Setup, usize, usize) {
    let mut g = GSpec::random(&mut c.rng, 3);
    if g.n() < 2 {
        g.cells[c.rng.below(3)] = 2;
    }
    let mut o = same_instant();
    o.types = c.rng.int(2, 4);
    o.kinds = false; // named below
    o.particles = (0, 14);
    let mut rec = random_rec(&mut c.rng, &g, &o);
    // types need not be small numbers
    let names = if c.rng.chance(0.1) { [0, 7, 256, 300, 65536] } else { [0, 1, 2, 3, 4] };
    for s in rec.steps.iter_mut() {
        for x in s.ptype.iter_mut() {
            *x = names[*x as usize] as f64;
        }
    }
    let sel = random_sel(&mut c.rng, &rec);
    let s = finish(c, g, rec, sel);
    let a = c.rng.below(4);
    let mut b = c.rng.below(5);
    if b == a {
        b = (a + 1) % 5;
    }
    let (a, b) = (names[a], names[b]);
    c.log(format!("types {a} and {b}"));
    (s, a, b)
}

/// moves the particles of all other types
fn scramble_others(s: &Setup, r: &mut Rng, a: usize, b: usize) -> Recording {
    let mut rec = s.rec.clone();
    for st in rec.steps.iter_mut() {
        for i in 0..st.pos.len() {
            let t = st.ptype[i] as usize;
            if t != a && t != b {
                st.pos[i] = s.g.point_inside(r);
                st.vel[i] = random_vel(r);
            }
        }
    }
    rec
}

pub fn c22(c: &mut Case) -> R {
    let (mut s, a, b) = type_setup(c);
    let thr = *c.rng.pick(&[0, 0, 1, 1, 2, 3, 5]);
    c.log(format!("threshold {thr}"));
    let n = s.g.n() as f64;
    let (time, idx) = s.mock.m().lacey_mixing(s.g.build(), &s.psel, a, b, thr);
    let steps = s.rec.steps.len();
    ensure!(
        time.len() == steps - 1 && idx.len() == steps - 1,
        "shape",
        "{} times and {} indices for {steps} steps",
        time.len(),
        idx.len()
    );
    for k in 0..steps - 1 {
        let st = &s.rec.steps[k];
        if !s.sel.at(st.t) {
            ensure!(time[k] == 0.0 && idx[k] == 0.0, "unselected", "unselected step {k}: time {:?} index {:?}", time[k], idx[k]);
            c.seen("unselected steps");
            continue;
        }
        ensure!(time[k] == st.t, "time", "step {k}: time {:?}, recorded {:?}", time[k], st.t);
        let (mut na, mut nb) = (0.0, 0.0);
        let (mut ca, mut cb) = (zeros(&s.g), zeros(&s.g));
        for i in 0..st.pos.len() {
            if !s.sel.of(st, i) {
                continue;
            }
            let t = st.ptype[i] as usize;
            let cell = s.g.cell(st.pos[i]);
            if t == a {
                na += 1.0;
                if let Some(x) = cell {
                    ca[x] += 1.0
                }
            } else if t == b {
                nb += 1.0;
                if let Some(x) = cell {
                    cb[x] += 1.0
                }
            }
        }
        let p = na / (na + nb);
        let mut sum = 0.0;
        for cell in s.g.all_cells() {
            let m = ca[cell] + cb[cell];
            if m < 1.0 {
                continue;
            }
            if m < thr as f64 {
                c.seen("below threshold cells");
                continue;
            }
            sum += (ca[cell] / m - p).powi(2);
        }
        let sv = sum / (n - 1.0);
        let s0 = p * (1.0 - p);
        let sr = s0 / n;
        let want = (s0 - sv) / (s0 - sr);
        ensure!(
            close(idx[k], want, (s0 + sv) / (s0 - sr)),
            "index",
            "step {k}: index {:?}, expected {want:?} (p = {p:?}, variance {sv:?})",
            idx[k]
        );
        c.seen("indices compared");
        if na > 0.0 && nb > 0.0 {
            c.nontrivial = true;
        }
    }
    let (_, ex) = s.mock.m().lacey_mixing(s.g.build(), &s.psel, b, a, thr);
    for k in 0..steps - 1 {
        ensure!(
            close(idx[k], ex[k], 10.0),
            "exchange",
            "step {k}: index {:?} becomes {:?} when the types are exchanged",
            idx[k],
            ex[k]
        );
        c.seen("exchanged");
    }
    let mut m2 = Mock::new(&scramble_others(&s, &mut c.rng, a, b));
    let (_, o) = m2.m().lacey_mixing(s.g.build(), &s.psel, a, b, thr);
    for k in 0..steps - 1 {
        ensure!(
            close(idx[k], o[k], 10.0),
            "other-types",
            "step {k}: index {:?} becomes {:?} when other types move",
            idx[k],
            o[k]
        );
    }
    Ok(())
}

pub fn c23(c: &mut Case) -> R {
    let (mut s, a, b) = type_setup(c);
    let last = s.rec.steps.len() - 1;
    let (mut ca, mut cb) = (zeros(&s.g), zeros(&s.g));
    for (k, i, cell) in sightings(&s) {
        if k == last {
            continue;
        }
        if let Some(x) = cell {
            let t = s.rec.steps[k].ptype[i] as usize;
            if t == a {
                ca[x] += 1.0
            } else if t == b {
                cb[x] += 1.0
            }
        }
    }
    let tot = &ca + &cb;
    let want = &ca / &tot;
    let r = s.mock.m().concentration_field(s.g.build(), &s.psel, a, b);
    same_geometry(&s, &*r)?;
    cmp("value", &s.g, r.get_data(), &want, &zeros(&s.g))?;
    cmp("weight", &s.g, r.get_weights(), &tot, &zeros(&s.g))?;
    let x = s.mock.m().concentration_field(s.g.build(), &s.psel, b, a);
    let mut m2 = Mock::new(&scramble_others(&s, &mut c.rng, a, b));
    let o = m2.m().concentration_field(s.g.build(), &s.psel, a, b);
    for cell in s.g.all_cells() {
        let v = r.get_data()[cell];
        if tot[cell] == 0.0 {
            c.seen("empty cells");
            ensure!(v.is_nan() && x.get_data()[cell].is_nan(), "empty", "empty cell {cell:?} holds {v:?}");
        } else {
            ensure!((0.0..=1.0).contains(&v), "range", "cell {cell:?} holds {v:?}");
            let sum = v + x.get_data()[cell];
            ensure!(close(sum, 1.0, 0.0), "exchange", "cell {cell:?}: exchanged concentrations add to {sum:?}");
            if ca[cell] > 0.0 && cb[cell] > 0.0 {
                c.seen("mixed cells");
                c.nontrivial = true;
            }
        }
        ensure!(close(v, o.get_data()[cell], 0.0), "other-types", "cell {cell:?} changes when other types move");
        c.seen("cells compared");
    }
    Ok(())
}

/// sum of squared displacements and number of sightings per cell
fn displacements(s: &Setup, times: &[f64], tau: f64) -> (Array3<f64>, Array3<f64>, u64, u64) {
    let (mut sum, mut n, mut beyond, mut unknown) = (zeros(&s.g), zeros(&s.g), 0, 0);
    for (k, i, cell) in sightings(s) {
        if k + 1 == times.len() {
            continue;
        }
        let cell = match cell {
            Some(x) => x,
            None => continue,
        };
        let m = match closest(times, times[k] + tau) {
            Some(m) => m,
            None => {
                beyond += 1;
                continue;
            }
        };
        match same_particle(&s.rec.steps[k], i, &s.rec.steps[m]) {
            Some(j) if has_nan(&s.rec.steps[m].pos[j]) => unknown += 1,
            Some(j) => {
                let (p, q) = (s.rec.steps[k].pos[i], s.rec.steps[m].pos[j]);
                sum[cell] += (0..3).map(|a| (p[a] - q[a]).powi(2)).sum::<f64>();
                n[cell] += 1.0;
            }
            None => {}
        }
    }
    (sum, n, beyond, unknown)
}

pub fn c24(c: &mut Case) -> R {
    let o = lag_opts(c);
    let mut s = setup(c, 3, &o);
    let times: Vec<f64> = s.rec.steps.iter().map(|x| x.t).collect();
    let tau = lag(&mut c.rng, &times);
    c.log(format!("lag {tau:?}"));
    let (sum, n, beyond, unknown) = displacements(&s, &times, tau);
    c.see("later positions unknown", unknown);
    c.see("particles with another place in the next step", s.rec.moved());
    c.see("beyond the recording", beyond);
    let mut want = zeros(&s.g);
    for cell in s.g.all_cells() {
        if n[cell] > 0.0 {
            want[cell] = sum[cell] / n[cell];
        }
        if n[cell] > 1.0 && tau > 0.0 {
            c.seen("cells with displacement");
            c.nontrivial = true;
        }
    }
    let r = s.mock.m().msd_field(s.g.build(), &s.psel, tau);
    same_geometry(&s, &*r)?;
    cmp("value", &s.g, r.get_data(), &want, &zeros(&s.g))?;
    cmp("weight", &s.g, r.get_weights(), &n, &zeros(&s.g))?;
    // the curve
    let span = times[times.len() - 1] - times[0];
    let k = c.rng.int(1, 5);
    let lo = if c.rng.chance(0.5) { 0.0 } else { span * c.rng.range(0.05, 0.3) };
    let hi = lo + span * c.rng.range(0.1, 0.9);
    let lags: Vec<f64> = (0..k)
        .map(|i| if k == 1 { lo } else { lo + (hi - lo) * i as f64 / (k - 1) as f64 })
        .collect();
    if lags.iter().any(|l| !lag_ok(&times, *l)) {
        return Ok(());
    }
    c.log(format!("{k} lags from {lo:?} to {hi:?}"));
    let (msd, t) = s.mock.m().msd(s.g.build(), &s.psel, lo, hi, k);
    if msd.len() != k || t.len() != k {
        fail!("curve", "{} values and {} lags for {k} requested lags", msd.len(), t.len());
    }
    for i in 0..k {
        ensure!(close(t[i], lags[i], hi.abs()), "lags", "lag {i} is {:?}, expected {:?}", t[i], lags[i]);
        let (sum, n, ..) = displacements(&s, &times, lags[i]);
        let w = sum.sum() / n.sum();
        ensure!(close(msd[i], w, 0.0), "curve", "mean squared displacement at lag {:?} is {:?}, expected {w:?}", lags[i], msd[i]);
        c.seen("curve points compared");
    }
    Ok(())
}
