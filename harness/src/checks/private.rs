//! C29, C33: helpers that are private to the crate (cfg up4_verif_private).
use crate::checks::grids::filled;
use crate::data::*;
use crate::ensure;
use crate::geo::{GSpec, Pos};
use crate::rec::{close, Case, R};
use ndarray::prelude::*;
use std::f64::consts::PI;
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::comparison::verif as cmp;
use upppp_rust::datamanager::verif_utilities as rot;

type M = [[f64; 3]; 3];

/// right-handed rotation about a coordinate axis: e_b -> e_c by `a`
fn about(axis: usize, a: f64) -> M {
    let mut m = [[0.0; 3]; 3];
    let (b, c) = ((axis + 1) % 3, (axis + 2) % 3);
    m[axis][axis] = 1.0;
    m[b][b] = a.cos();
    m[c][b] = a.sin();
    m[b][c] = -a.sin();
    m[c][c] = a.cos();
    m
}

fn mul(m: &M, v: Pos) -> Pos {
    let mut o = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i] += m[i][j] * v[j];
        }
    }
    o
}

fn apply(ang: [f64; 3], v: Pos) -> Pos {
    mul(&about(2, ang[2]), mul(&about(1, ang[1]), mul(&about(0, ang[0]), v)))
}

fn sub(a: Pos, b: Pos) -> Pos {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}

fn norm(a: Pos) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}

fn angle(c: &mut Case) -> f64 {
    match c.rng.below(5) {
        0 => 0.0,
        1 => *c.rng.pick(&[PI / 2.0, -PI / 2.0, PI, PI / 4.0, 2.0 * PI]),
        2 if c.rng.chance(0.3) => {
            c.seen("angles of several turns");
            c.rng.range(-60.0, 60.0)
        }
        _ => c.rng.range(-7.0, 7.0),
    }
}

fn vec3(c: &mut Case) -> Pos {
    let s = *c.rng.pick(&[1.0, 1.0, 1e-3, 500.0]);
    [c.rng.range(-1.0, 1.0) * s, c.rng.range(-1.0, 1.0) * s, c.rng.range(-1.0, 1.0) * s]
}

pub fn c29(c: &mut Case) -> R {
    c.nontrivial = true;
    let (p, q, v) = (vec3(c), vec3(c), vec3(c));
    let a = if c.rng.chance(0.2) { [0.0; 3] } else { vec3(c) };
    let mut ang = [angle(c), angle(c), angle(c)];
    if c.rng.chance(0.3) {
        let keep = c.rng.below(3);
        for k in 0..3 {
            if k != keep {
                ang[k] = 0.0;
            }
        }
    }
    c.log(format!("p {p:?} q {q:?} v {v:?} anchor {a:?} angles {ang:?}"));
    let scale = norm(p) + norm(q) + norm(a);
    let rp = rot::rotate_position(p, ang, a);
    let rq = rot::rotate_position(q, ang, a);
    let w = apply(ang, sub(p, a));
    for k in 0..3 {
        ensure!(close(rp[k], w[k] + a[k], scale), "position", "{p:?} about {a:?} by {ang:?} gives {rp:?}, expected {:?}", [w[0] + a[0], w[1] + a[1], w[2] + a[2]]);
    }
    ensure!(close(norm(sub(rp, a)), norm(sub(p, a)), scale), "anchor-distance", "distance to the anchor changed");
    ensure!(close(norm(sub(rp, rq)), norm(sub(p, q)), scale), "distance", "distance between two points changed");
    let ra = rot::rotate_position(a, ang, a);
    ensure!(close(norm(sub(ra, a)), 0.0, scale), "anchor", "the anchor {a:?} moved to {ra:?}");
    let same = rot::rotate_position(p, [0.0; 3], a);
    ensure!(close(norm(sub(same, p)), 0.0, scale), "zero", "angle zero moved {p:?} to {same:?}");
    // back in reverse order, one axis at a time
    let mut back = rp;
    for k in [2usize, 1, 0] {
        let mut one = [0.0; 3];
        one[k] = -ang[k];
        back = rot::rotate_position(back, one, a);
    }
    ensure!(close(norm(sub(back, p)), 0.0, scale), "inverse", "{p:?} rotated and back gives {back:?}");
    c.seen("inverse rotations");
    let rv = rot::rotate_velocity(v, ang);
    let wv = apply(ang, v);
    for k in 0..3 {
        ensure!(close(rv[k], wv[k], norm(v)), "velocity", "velocity {v:?} by {ang:?} gives {rv:?}, expected {wv:?}");
    }
    c.see("rotations compared", 3);
    Ok(())
}

fn eq(what: &str, a: &[f64], b: &[f64]) -> R {
    ensure!(a.len() == b.len(), what, "{} values instead of {}", a.len(), b.len());
    for i in 0..a.len() {
        ensure!(close(a[i], b[i], 1.0), what, "element {i} is {:?}, analysed alone {:?}", a[i], b[i]);
    }
    Ok(())
}

pub fn c33(c: &mut Case) -> R {
    let s1 = GSpec::random(&mut c.rng, 3);
    let s2 = if c.rng.chance(0.4) { s1.clone() } else { GSpec::random(&mut c.rng, 3) };
    let mut o = Opts::std();
    o.particles = (1, 8);
    let r1 = random_rec(&mut c.rng, &s1, &o);
    let r2 = random_rec(&mut c.rng, &s2, &o);
    let mode = *c.rng.pick(&VMODES);
    let (lo, hi) = if c.rng.chance(0.5) { (-1e9, 1e9) } else { (c.rng.range(-3.0, 0.5), c.rng.range(0.6, 5.0)) };
    c.log(s1.desc());
    c.log(s2.desc());
    c.log(r1.desc());
    c.log(r2.desc());
    c.log(format!("{mode} {lo:?} {hi:?}"));
    let all = Sel::all().build();
    let own = |r: &Recording, s: &GSpec| -> Vec<f64> {
        let mut m = Mock::new(r);
        flat(m.m().velocityfield(s.build(), &all, mode, lo, hi).get_data())
    };
    let (w1, w2) = (own(&r1, &s1), own(&r2, &s2));
    let (g1, g2) = if c.rng.chance(0.5) {
        (s1.build(), s2.build())
    } else {
        (filled(&s1, &mut c.rng, false), filled(&s2, &mut c.rng, false))
    };
    let mut k = cmp::comparer(Box::new(Mock::new(&r1)), g1, Box::new(Mock::new(&r2)), g2);
    let (a, b) = cmp::velocityfield(&mut k, mode, lo, hi);
    eq("first", a.as_slice().unwrap(), &w1)?;
    eq("second", b.as_slice().unwrap(), &w2)?;
    let (a, b) = cmp::velocityfield(&mut k, mode, lo, hi);
    eq("first-again", a.as_slice().unwrap(), &w1)?;
    eq("second-again", b.as_slice().unwrap(), &w2)?;
    c.see("comparisons", 2);
    if w1.iter().any(|x| x.is_finite()) && w2.iter().any(|x| x.is_finite()) {
        c.nontrivial = true;
    }
    // thresholds
    let sh = [c.rng.int(1, 4), c.rng.int(1, 4), c.rng.int(1, 5)];
    let pz = *c.rng.pick(&[0.0, 0.2, 0.9]);
    let ints = c.rng.chance(0.5);
    let signed = c.rng.chance(0.3);
    let f = Array3::from_shape_fn(sh, |_| {
        if c.rng.chance(pz) {
            0.0
        } else if ints {
            c.rng.int(0, 5) as f64 - if signed { 3.0 } else { 0.0 }
        } else {
            c.rng.range(if signed { -9.0 } else { 0.0 }, 9.0)
        }
    });
    let q = match c.rng.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.01,
        _ => c.rng.range(0.0, 1.0),
    };
    c.log(format!("field {:?} quantile {q:?}", f.iter().collect::<Vec<_>>()));
    let mut v: Vec<f64> = f.iter().copied().filter(|x| *x != 0.0).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let r = cmp::binary_threshold(&f, q);
    ensure!(r.shape() == f.shape(), "threshold", "shape {:?}", r.shape());
    if v.is_empty() {
        ensure!(r.iter().all(|x| *x == 0.0), "threshold", "cells of an empty field marked");
    } else {
        let i = ((v.len() as f64 * q) as usize).min(v.len() - 1);
        for (x, m) in f.iter().zip(r.iter()) {
            let want = if *x > v[i] { 1.0 } else { 0.0 };
            ensure!(*m == want, "threshold", "value {x:?} marked {m:?}, threshold {:?} at quantile {q:?}", v[i]);
        }
    }
    c.seen("thresholds");
    for q in [-0.1, 1.1, f64::NAN] {
        ensure!(
            catch_unwind(AssertUnwindSafe(|| cmp::binary_threshold(&f, q))).is_err(),
            "quantile",
            "quantile {q:?} was not refused"
        );
        c.seen("quantiles refused");
    }
    Ok(())
}
