//! C11, C28, C30.
use crate::data::*;
use crate::ensure;
use crate::rec::{close, Case, R};
use crate::rng::Rng;
use ndarray::prelude::*;
use upppp_rust::datamanager::verif;
use upppp_rust::utilities::maths::{flatten_2d, flatten_3d, meshgrid, meshgrid3d, minmax};
use upppp_rust::utilities::{nan_mean, nan_std};
use upppp_rust::{ParticleSelector, Selector};

fn crit(r: &mut Rng, vals: &[f64]) -> Vec<f64> {
    match r.below(8) {
        0 => {
            let mut v = vec![-1.0];
            for _ in 0..r.below(4) {
                v.push(*r.pick(vals));
            }
            v
        }
        1 | 2 => vec![*r.pick(vals)],
        3 | 4 => {
            let a = r.below(vals.len());
            vec![vals[a], vals[r.int(a, vals.len() - 1)]]
        }
        5 => vec![*r.pick(vals), *r.pick(vals)],
        _ => (0..r.int(3, 7)).map(|_| *r.pick(vals)).collect(),
    }
}

fn probe(r: &mut Rng, vals: &[f64], c: &[f64]) -> f64 {
    match r.below(6) {
        0 => *r.pick(vals),
        1 | 2 => *r.pick(c),
        3 if c.len() == 2 => (c[0] + c[1]) / 2.0,
        4 => *r.pick(c) + *r.pick(&[1e-9, -1e-9, 0.25, -0.25]),
        _ => *r.pick(vals) + r.range(-0.6, 0.6),
    }
}

pub fn c11(c: &mut Case) -> R {
    // overlapping value ranges, so that mixing up two criteria matters
    let vals = [0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 7.0, 1000.0];
    let ids: Vec<f64> = (1..9).map(|x| x as f64).collect();
    let idc: Vec<usize> = if c.rng.chance(0.35) {
        let mut v = vec![0];
        for _ in 0..c.rng.below(4) {
            v.push(c.rng.int(1, 8));
        }
        v
    } else {
        crit(&mut c.rng, &ids).iter().map(|x| x.max(1.0) as usize).collect()
    };
    // ids beyond the ranges of small integers
    let base = if c.rng.chance(0.2) { *c.rng.pick(&[250, 65530, 16777210, 4294967290]) } else { 0 };
    let idc: Vec<usize> = idc.iter().enumerate().map(|(i, x)| if i == 0 && *x == 0 { 0 } else { x + base }).collect();
    let (t0, t1) = (c.rng.range(-5.0, 5.0), c.rng.range(0.0, 10.0));
    let mut s = Sel {
        time: (t0, t1),
        radius: crit(&mut c.rng, &vals),
        cloud: crit(&mut c.rng, &vals),
        dens: crit(&mut c.rng, &vals),
        id: idc,
    };
    // often leave some criteria open, so that the others decide
    let open = c.rng.below(16);
    if open & 1 == 0 {
        s.radius = vec![-1.0];
    }
    if open & 2 == 0 {
        s.cloud = vec![-1.0];
    }
    if open & 4 == 0 {
        s.dens = vec![-1.0];
    }
    c.log(s.desc());
    let mut p = s.build();
    let (mut yes, mut no) = (0, 0);
    let d = ParticleSelector::default();
    for _ in 0..60 {
        let r = &mut c.rng;
        let rad = probe(r, &vals, &s.radius);
        let cl = probe(r, &vals, &s.cloud);
        let de = probe(r, &vals, &s.dens);
        let id = if r.chance(0.5) { *r.pick(&s.id) } else { base * r.below(2) + r.int(0, 9) };
        let want = s.particle(rad, cl, de, id as f64);
        let got = p.is_valid(rad, cl, de, id);
        ensure!(
            got == want,
            "particle",
            "particle radius {rad} cloud {cl} density {de} id {id} selected: {got}, expected {want}"
        );
        if want {
            yes += 1
        } else {
            no += 1
        }
        ensure!(d.is_valid(rad, cl, de, id), "default", "default selection rejects radius {rad} cloud {cl} density {de} id {id}");
    }
    c.see("selected", yes);
    c.see("unselected", no);
    let mut check = |c: &mut Case, p: &ParticleSelector, w: (f64, f64)| -> R {
        for t in [w.0, w.1, (w.0 + w.1) / 2.0, w.0 - 1e-9, w.1 + 1e-9, c.rng.range(-12.0, 12.0), f64::NAN] {
            let want = t >= w.0 && t <= w.1;
            let got = p.timestep_valid(t);
            ensure!(got == want, "time", "time {t:?} in window {w:?} selected: {got}");
            c.seen(if want { "times selected" } else { "times unselected" });
        }
        Ok(())
    };
    check(c, &p, s.time)?;
    let before = state(&p, &vals);
    let a = c.rng.range(-8.0, 4.0);
    let w = (a, a + c.rng.range(0.0, 6.0));
    p.set_time(w.0, w.1);
    c.log(format!("new window {w:?}"));
    check(c, &p, w)?;
    ensure!(state(&p, &vals) == before, "window", "replacing the time window changed another criterion");
    c.seen("window replaced");
    for t in [f64::MIN, -1e9, 0.0, 3.0, 1e300, f64::MAX] {
        ensure!(d.timestep_valid(t), "default", "default selection rejects time {t:?}");
    }
    c.nontrivial = yes > 0 && no > 0;
    Ok(())
}

fn state(p: &ParticleSelector, vals: &[f64]) -> Vec<bool> {
    let mut v = vec![];
    for a in vals {
        for b in vals {
            for id in 0..9 {
                v.push(p.is_valid(*a, *b, *a, id));
                v.push(p.is_valid(*b, *a, *b, id));
            }
        }
    }
    v
}

pub fn c28(c: &mut Case) -> R {
    let n = match c.rng.below(5) {
        0 => 1,
        1 => c.rng.int(2, 4),
        2 => c.rng.int(50, 200),
        _ => c.rng.int(2, 20),
    };
    let dt = *c.rng.pick(&[1e-12, 1e-9, 1e-6, 1e-4, 5e-3, 0.009, 0.02, 1.0, 60.0, 3600.0, 1e9]);
    let style = c.rng.below(3);
    let mut t = if dt < 1e-6 { 0.0 } else { *c.rng.pick(&[0.0, 0.0, -3.0, 1.5, 1000.0]) };
    let mut ts = vec![];
    for _ in 0..n {
        ts.push(t);
        t += match style {
            0 => dt,
            1 => dt * c.rng.range(0.05, 3.0),
            _ => dt * if c.rng.chance(0.2) { 50.0 } else { 0.5 },
        };
    }
    c.log(format!("times {:?}", ts));
    let g = verif::global_stats(
        Array2::zeros((2, 3)),
        1,
        n,
        ts[0],
        ts[n - 1],
        1.0,
        Array2::zeros((3, 3)),
        Array1::zeros(3),
        Array1::from(ts.clone()),
    );
    let (first, last) = (ts[0], ts[n - 1]);
    let mut asked = vec![first, last];
    for _ in 0..10 {
        let k = c.rng.below(n);
        let m = (k + 1).min(n - 1);
        asked.push(match c.rng.below(5) {
            0 => ts[k],
            1 => ts[k] + (ts[m] - ts[k]) * 0.5,
            2 => ts[k] + (ts[m] - ts[k]) * *c.rng.pick(&[0.01, 0.45, 0.55, 0.99]),
            _ => c.rng.range(first, last),
        });
    }
    for q in asked {
        let q = q.max(first).min(last);
        let best = ts.iter().map(|x| (x - q).abs()).fold(f64::INFINITY, f64::min);
        match g.timestep_at_seconds_closest(q) {
            Err(e) => ensure!(false, "inside", "time {q:?} within the recording refused: {e}"),
            Ok(k) => {
                ensure!(k < n, "index", "step {k} of {n}");
                let d = (ts[k] - q).abs();
                ensure!(
                    d <= best * (1.0 + 1e-9) + 1e-13 * (q.abs() + 1e-3),
                    "closest",
                    "time {q:?}: step {k} at {:?} returned, but another step is {best:?} away",
                    ts[k]
                );
                if best == 0.0 {
                    ensure!(d == 0.0, "closest", "time {q:?} is stored but step {k} at {:?} returned", ts[k]);
                    c.seen("exact hits");
                }
                c.seen("lookups inside");
            }
        }
    }
    let eps = dt * *c.rng.pick(&[1e-3, 0.4, 3.0, 100.0]);
    ensure!(g.timestep_at_seconds_closest(first - eps).is_err(), "before", "time {:?} before the first step {first:?} accepted", first - eps);
    c.seen("before the first");
    ensure!(g.timestep_at_seconds_closest(last + eps).is_err(), "after", "time {:?} after the last step {last:?} accepted", last + eps);
    c.seen("after the last");
    c.nontrivial = n > 1;
    Ok(())
}

fn values(r: &mut Rng, n: usize) -> Vec<f64> {
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => -r.range(0.5, 9.0),
            1 => r.range(0.5, 9.0),
            2 => r.value() * 1e200,
            _ => r.value(),
        })
        .collect()
}

pub fn c30(c: &mut Case) -> R {
    c.nontrivial = true;
    let n = c.rng.int(1, 12);
    let v = values(&mut c.rng, n);
    c.log(format!("{:?}", v));
    let (lo, hi) = minmax(&Array1::from(v.clone()));
    let want = v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, x| (a.0.min(*x), a.1.max(*x)));
    ensure!((lo, hi) == want, "minmax", "extremes of {v:?} reported as {lo:?}, {hi:?}");
    c.seen("extremes");
    let (a, b, d) = (c.rng.int(1, 5), c.rng.int(1, 5), c.rng.int(1, 5));
    let x = Array1::from(values(&mut c.rng, a));
    let y = Array1::from(values(&mut c.rng, b));
    let z = Array1::from(values(&mut c.rng, d));
    c.log(format!("{x:?} {y:?} {z:?}"));
    let (xx, yy) = meshgrid(&x, &y);
    ensure!(xx.shape() == [a, b] && yy.shape() == [a, b], "meshgrid", "shapes {:?} {:?}", xx.shape(), yy.shape());
    let (x3, y3, z3) = meshgrid3d(&x, &y, &z);
    for m in [&x3, &y3, &z3] {
        ensure!(m.shape() == [a, b, d], "meshgrid3d", "shape {:?} for {a}, {b}, {d} coordinates", m.shape());
    }
    for i in 0..a {
        for j in 0..b {
            ensure!(xx[[i, j]] == x[i] && yy[[i, j]] == y[j], "meshgrid", "index {i},{j} holds {:?}, {:?}", xx[[i, j]], yy[[i, j]]);
            for k in 0..d {
                let q = [i, j, k];
                ensure!(x3[q] == x[i] && y3[q] == y[j] && z3[q] == z[k], "meshgrid3d", "index {q:?} holds {:?}, {:?}, {:?}", x3[q], y3[q], z3[q]);
            }
        }
    }
    c.seen("mesh grids");
    // flattening: also of arrays stored in another order
    let m = Array2::from_shape_fn((a, b), |(i, j)| (i * 100 + j) as f64);
    let (m, sw) = if c.rng.chance(0.4) { (m.reversed_axes(), true) } else { (m, false) };
    let f = flatten_2d(&m);
    ensure!(f.len() == a * b, "flatten", "{} of {} elements", f.len(), a * b);
    let (p, q) = (m.shape()[0], m.shape()[1]);
    for i in 0..p {
        for j in 0..q {
            let w = if sw { j * 100 + i } else { i * 100 + j } as f64;
            ensure!(f[i * q + j] == w, "flatten", "2D element [{i},{j}] of shape [{p},{q}] not at {}", i * q + j);
        }
    }
    let m = Array3::from_shape_fn((a, b, d), |(i, j, k)| (i * 10000 + j * 100 + k) as f64);
    let (m, sw) = if c.rng.chance(0.4) { (m.reversed_axes(), true) } else { (m, false) };
    let f = flatten_3d(&m);
    let sh = m.shape().to_vec();
    ensure!(f.len() == a * b * d, "flatten", "{} of {} elements", f.len(), a * b * d);
    for i in 0..sh[0] {
        for j in 0..sh[1] {
            for k in 0..sh[2] {
                let w = if sw { k * 10000 + j * 100 + i } else { i * 10000 + j * 100 + k } as f64;
                ensure!(f[(i * sh[1] + j) * sh[2] + k] == w, "flatten", "3D element [{i},{j},{k}] of shape {sh:?} misplaced");
            }
        }
    }
    c.see("flattened elements", (a * b + a * b * d) as u64);
    // NaN-aware statistics
    let off = *c.rng.pick(&[0.0, 0.0, 50.0]);
    let pn = *c.rng.pick(&[0.0, 0.3, 0.8]);
    let m = Array3::from_shape_fn((a, b, d), |_| {
        let x = c.rng.range(-4.0, 4.0) + off;
        if c.rng.chance(pn) { f64::NAN } else { x }
    });
    c.log(format!("{m:?}"));
    let good: Vec<f64> = m.iter().copied().filter(|x| !x.is_nan()).collect();
    if !good.is_empty() {
        let mean = good.iter().sum::<f64>() / good.len() as f64;
        let std = (good.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / good.len() as f64).sqrt();
        let (gm, gs) = (nan_mean(&m), nan_std(&m));
        ensure!(close(gm, mean, 60.0), "nan_mean", "mean {gm:?}, expected {mean:?} of {good:?}");
        ensure!((gs - std).abs() < 1e-6, "nan_std", "standard deviation {gs:?}, expected {std:?} of {good:?}");
        c.seen("NaN-aware statistics");
    }
    Ok(())
}
