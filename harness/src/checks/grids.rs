//! C01-C08, C10: grids.
use crate::geo::{Cell, GSpec, Grid, Pos, Where};
use crate::rec::{close, Case, R};
use crate::rng::Rng;
use crate::{ensure, fail};
use ndarray::prelude::*;
use std::f64::consts::PI;
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::{GridFunctions3D, VectorGrid};

/// positions, limits and counts as reported by the code
fn positions(g: &dyn GridFunctions3D) -> [Vec<f64>; 3] {
    [
        g.get_xpositions().to_vec(),
        g.get_ypositions().to_vec(),
        g.get_zpositions().to_vec(),
    ]
}

fn check_reported(c: &mut Case, s: &GSpec, g: &dyn GridFunctions3D) -> R {
    ensure!(*g.get_cells() == s.cells, "cells", "cells {:?} reported as {:?}", s.cells, g.get_cells());
    let l = s.own_limits();
    let size = s.lim.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    for a in 0..3 {
        for e in 0..2 {
            let got = g.get_limits()[a][e];
            let ok = if s.cyl { close(got, l[a][e], size) } else { got == l[a][e] };
            ensure!(ok, "limits", "limit [{a}][{e}] is {got:?}, expected {:?}", l[a][e]);
        }
    }
    let p = positions(g);
    for a in 0..3 {
        ensure!(p[a].len() == s.cells[a], "positions", "axis {a}: {} positions", p[a].len());
        for i in 0..s.cells[a] {
            let want = s.mid(a, i);
            ensure!(
                close(p[a][i], want, size),
                "positions",
                "axis {a} position {i} is {:?}, the middle of its cell is {want:?}",
                p[a][i]
            );
            ensure!(i == 0 || p[a][i] > p[a][i - 1], "positions", "axis {a} not ascending at {i}");
        }
        c.see("positions checked", s.cells[a] as u64);
    }
    ensure!(g.is_cylindrical() == s.cyl, "kind", "is_cylindrical() = {}", g.is_cylindrical());
    Ok(())
}

fn check_located(c: &mut Case, s: &GSpec, g: &dyn GridFunctions3D, p: Pos) -> R {
    let want = s.locate(p);
    let got = g.cell_id(p);
    match want {
        Where::In(cell) => {
            c.seen("located points");
            match got {
                Ok(id) => ensure!(id == cell, "locate", "point {p:?} located to {id:?}, lies in {cell:?}"),
                Err(e) => fail!("locate", "inside point {p:?} not located: {e}"),
            }
        }
        Where::AnyOf(v) => {
            c.seen("located points on shared faces");
            match got {
                Ok(id) => ensure!(v.contains(&id), "locate", "point {p:?} located to {id:?}, allowed {v:?}"),
                Err(e) => fail!("locate", "inside point {p:?} not located: {e}"),
            }
        }
        Where::Unknown => {
            c.seen("rim points within rounding of the radius");
            if let Ok(id) = got {
                ensure!(
                    (0..3).all(|a| id[a] < s.cells[a]) && id[0] == s.cells[0] - 1,
                    "locate",
                    "rim point {p:?} located to {id:?}"
                );
            } else {
                ensure!(!g.is_inside(p), "locate", "rim point {p:?} is inside but not located");
            }
        }
        Where::Outside => {}
    }
    Ok(())
}

/// points of every flavour that are (at least nominally) inside
fn inside_points(s: &GSpec, r: &mut Rng, n: usize) -> Vec<Pos> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(match r.below(5) {
            0 => s.point_on_limit(r),
            1 => {
                // exactly on (or next to) a shared face
                let cell = s.random_cell(r);
                let a = r.below(3);
                let mut o = [s.mid(0, cell[0]), s.mid(1, cell[1]), s.mid(2, cell[2])];
                let (lo, hi) = s.range(a, cell[a]);
                o[a] = if r.chance(0.5) { lo } else { hi };
                s.from_own(o)
            }
            2 => {
                let mut p = [0.0; 3];
                for a in 0..3 {
                    p[a] = r.range(s.lim[a][0], s.lim[a][1]);
                }
                p
            }
            _ => s.point_inside(r),
        });
    }
    v
}

fn geometry(c: &mut Case, cyl: bool) -> R {
    let max = if c.idx % 7 == 0 { 24 } else { 6 };
    let mut s = GSpec::random_kind(&mut c.rng, max, cyl);
    if c.rng.chance(0.0006) {
        // more cells than two bytes can count
        s.cells = [1; 3];
        s.cells[c.rng.below(3)] = c.rng.int(65537, 70000);
        c.seen("axes of more than 65536 cells");
    }
    c.log(s.desc());
    let g = s.build();
    check_reported(c, &s, &*g)?;
    let every = if s.n() > 60000 { s.n() / 200 } else { 1 };
    for cell in s.all_cells().into_iter().step_by(every) {
        let own = [s.mid(0, cell[0]), s.mid(1, cell[1]), s.mid(2, cell[2])];
        check_located(c, &s, &*g, s.from_own(own))?;
        c.seen("cell centres located");
    }
    // the centre the grid itself reports must locate to its own index
    let p = positions(&*g);
    let cell = s.random_cell(&mut c.rng);
    let own = [p[0][cell[0]], p[1][cell[1]], p[2][cell[2]]];
    match g.cell_id(s.from_own(own)) {
        Ok(id) => ensure!(id == cell, "locate", "reported centre of {cell:?} located to {id:?}"),
        Err(e) => fail!("locate", "reported centre of {cell:?} not located: {e}"),
    }
    let pts = inside_points(&s, &mut c.rng, 40);
    c.log(format!("points {:?}..", &pts[..3]));
    for q in pts {
        check_located(c, &s, &*g, q)?;
    }
    c.nontrivial = s.n() > 1;
    Ok(())
}

pub fn c01(c: &mut Case) -> R {
    geometry(c, false)?;
    // all eight corners and face centres of the limits
    let s = GSpec::random_kind(&mut c.rng, 6, false);
    let g = s.build();
    for m in 0..27usize {
        let mut p = [0.0; 3];
        for (a, d) in [m % 3, (m / 3) % 3, m / 9].into_iter().enumerate() {
            p[a] = match d {
                0 => s.lim[a][0],
                1 => s.lim[a][1],
                _ => s.mid(a, s.cells[a] / 2),
            };
        }
        check_located(c, &s, &*g, p)?;
        c.seen("corners, edges and faces of the limits");
    }
    Ok(())
}

pub fn c02(c: &mut Case) -> R {
    geometry(c, true)?;
    let max = 12;
    let mut s = GSpec::random_kind(&mut c.rng, max, true);
    if c.idx % 3 == 0 {
        // whole-number limits, so that the rim can be hit exactly
        for a in 0..2 {
            let m = c.rng.int(0, 8) as f64 - 4.0;
            let h = c.rng.int(1, 5) as f64;
            s.lim[a] = [m - h, m + h];
        }
    }
    c.log(s.desc());
    let g = s.build_cyl();
    let rr = s.radius();
    let ctr = s.axis();
    // shells
    let rp = g.rpositions();
    ensure!(rp.len() == s.cells[0], "shells", "{} shells", rp.len());
    for i in 0..s.cells[0] {
        let (lo, hi) = s.range(0, i);
        ensure!(
            close(rp[i][0], lo, rr) && close(rp[i][1], hi, rr),
            "shells",
            "shell {i} is {:?}, equal volumes need [{lo:?}, {hi:?}]",
            rp[i]
        );
        ensure!(rp[i][0] <= rp[i][1], "shells", "shell {i} inverted");
        c.seen("shells checked");
    }
    // conversion
    for _ in 0..10 {
        let th = match c.rng.below(4) {
            0 => [0.0, PI / 2.0, -PI / 2.0, PI / 4.0][c.rng.below(4)],
            _ => c.rng.range(-3.14, 3.14),
        };
        let r = rr * c.rng.range(0.001, 3.0);
        let z = c.rng.value();
        let p = [ctr[0] + r * th.cos(), ctr[1] + r * th.sin(), z];
        let got = g.to_cylindrical(p);
        let dth = (got[1] - th + PI).rem_euclid(2.0 * PI) - PI;
        let scale = ctr[0].abs() + ctr[1].abs() + r;
        ensure!(
            close(got[0], r, scale) && dth.abs() <= 1e-9 * (1.0 + scale / r) && got[2] == z,
            "conversion",
            "point {p:?} converted to {got:?}, expected {:?}",
            [r, th, z]
        );
        c.seen("conversions");
    }
    // rim: exactly the radius away along the coordinate axes
    if c.idx % 3 == 0 {
        let z = s.mid(2, 0);
        for d in [[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]] {
            let p = [ctr[0] + rr * d[0], ctr[1] + rr * d[1], z];
            ensure!(g.is_inside(p), "rim", "rim point {p:?} is not inside (radius {rr})");
            match g.cell_id(p) {
                Ok(id) => ensure!(id[0] == s.cells[0] - 1, "rim", "rim point {p:?} located to {id:?}"),
                Err(e) => fail!("rim", "rim point {p:?} not located: {e}"),
            }
            c.seen("rim points");
        }
    }
    for q in inside_points(&s, &mut c.rng, 10) {
        check_located(c, &s, &g, q)?;
    }
    Ok(())
}

/// a grid already holding something
pub fn filled(s: &GSpec, r: &mut Rng, nan: bool) -> Grid {
    let mut g = s.build();
    let d = Array3::from_shape_fn(s.cells, |_| if nan && r.chance(0.1) { f64::NAN } else { r.value() });
    let w = Array3::from_shape_fn(s.cells, |_| r.int(0, 5) as f64 * if r.chance(0.3) { 0.5 } else { 1.0 });
    g.set_data(d);
    g.set_weights(w);
    g
}

pub fn same(a: &Array3<f64>, b: &Array3<f64>) -> bool {
    a.shape() == b.shape()
        && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits() || x == y || (x.is_nan() && y.is_nan()))
}

pub fn c03(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 5);
    c.log(s.desc());
    let mut g = filled(&s, &mut c.rng, false);
    let (d0, w0) = (g.get_data().clone(), g.get_weights().clone());
    let mut pts: Vec<(Pos, bool)> = vec![];
    for _ in 0..6 {
        pts.push((s.point_outside(&mut c.rng), false));
        pts.push((s.point_broken(&mut c.rng), false));
        pts.push((s.point_inside(&mut c.rng), true));
        pts.push((s.point_on_limit(&mut c.rng), true));
    }
    // one representable step outside each face (vertical faces only for cylinders)
    for a in 0..3 {
        if s.cyl && a < 2 {
            continue;
        }
        for (e, x) in [(0, s.lim[a][0].next_down()), (1, s.lim[a][1].next_up())] {
            let mut p = s.point_inside(&mut c.rng);
            p[a] = x;
            pts.push((p, false));
            p[a] = s.lim[a][e];
            pts.push((p, true));
        }
    }
    c.log(format!("points {:?}", &pts[..4]));
    for (p, inside) in pts {
        if s.locate(p) == Where::Unknown {
            continue;
        }
        // infinite coordinates along the axis the cylinder ignores do not exist: any infinity is outside
        ensure!(g.is_inside(p) == inside, "inside", "is_inside({p:?}) = {}", g.is_inside(p));
        if inside {
            c.seen("inside points");
            ensure!(g.cell_id(p).is_ok(), "inside", "inside point {p:?} not located");
            ensure!(!g.get_value(p).is_nan(), "inside", "value at inside point {p:?} is NaN");
            continue;
        }
        c.seen(if p.iter().any(|x| x.is_nan()) { "NaN points" } else { "outside points" });
        ensure!(g.cell_id(p).is_err(), "outside-located", "outside point {p:?} located to {:?}", g.cell_id(p));
        ensure!(g.get_value(p).is_nan(), "outside-value", "value at outside point {p:?} is {}", g.get_value(p));
        let inner = s.point_inside(&mut c.rng);
        let other = s.point_outside(&mut c.rng);
        match c.rng.below(4) {
            0 => g.add_value(p, 7.5),
            1 => g.insert(p, 7.5),
            2 => g.add_trajectory_value(p, if c.rng.chance(0.5) { inner } else { other }, 7.5),
            _ => {
                if s.cyl {
                    g.add_trajectory_value(p, inner, 7.5)
                } else {
                    g.add_trajectory_value(inner, p, 7.5)
                }
            }
        }
        c.seen("refused insertions");
        ensure!(same(g.get_data(), &d0), "outside-effect", "values changed by an operation at outside point {p:?}");
        ensure!(same(g.get_weights(), &w0), "outside-effect", "weights changed by an operation at outside point {p:?}");
    }
    c.nontrivial = true;
    Ok(())
}

fn compare(s: &GSpec, g: &dyn GridFunctions3D, d: &Array3<f64>, w: &Array3<f64>, mag: f64, what: &str) -> R {
    for cell in s.all_cells() {
        let (gd, gw) = (g.get_data()[cell], g.get_weights()[cell]);
        ensure!(close(gd, d[cell], mag), "values", "{what}: value of cell {cell:?} is {gd:?}, expected {:?}", d[cell]);
        ensure!(close(gw, w[cell], 1.0), "weights", "{what}: weight of cell {cell:?} is {gw:?}, expected {:?}", w[cell]);
    }
    Ok(())
}

pub fn c04(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 4);
    c.log(s.desc());
    let mut g = if c.rng.chance(0.3) { filled(&s, &mut c.rng, false) } else { s.build() };
    let mut d = g.get_data().clone();
    let mut w = g.get_weights().clone();
    let mut mag = d.iter().fold(0.0, |a: f64, b| a + b.abs());
    let n = c.rng.int(1, 40);
    let mut ins = 0;
    for step in 0..n {
        let v = c.rng.value();
        mag += v.abs();
        let cell = s.random_cell(&mut c.rng);
        let p = s.point_in(&mut c.rng, cell);
        let op = c.rng.below(6);
        let what;
        match op {
            0 => {
                what = format!("op {step} add_value({p:?}, {v:?})");
                g.add_value(p, v);
                d[cell] += v;
                w[cell] += 1.0;
                c.seen("add at point");
            }
            1 => {
                what = format!("op {step} add_to_cell({cell:?}, {v:?})");
                g.add_to_cell(cell, v);
                d[cell] += v;
                w[cell] += 1.0;
                c.seen("add to cell");
            }
            2 => {
                what = format!("op {step} insert({p:?}, {v:?})");
                g.insert(p, v);
                d[cell] = v;
                c.seen("insert");
            }
            3 => {
                let q = s.point_outside(&mut c.rng);
                what = format!("op {step} add_value outside({q:?}, {v:?})");
                g.add_value(q, v);
                c.seen("add outside");
            }
            _ => {
                let same_cell = c.rng.chance(0.3);
                let cell2 = if same_cell { cell } else { s.random_cell(&mut c.rng) };
                let q = s.point_in(&mut c.rng, cell2);
                let out = c.rng.chance(0.1);
                let q = if out { s.point_outside(&mut c.rng) } else { q };
                what = format!("op {step} add_trajectory_value({p:?}, {q:?}, {v:?})");
                g.add_trajectory_value(p, q, v);
                if s.cyl {
                    d[cell] += v;
                    w[cell] += 1.0;
                    c.seen("trajectory add (cylindrical)");
                } else if !out {
                    d[cell] += v * 0.5;
                    w[cell] += 0.5;
                    d[cell2] += v * 0.5;
                    w[cell2] += 0.5;
                    c.seen(if cell == cell2 { "trajectory add within one cell" } else { "trajectory add across cells" });
                }
            }
        }
        ins += 1;
        if step < 2 {
            c.log(&what);
        }
        compare(&s, &*g, &d, &w, mag, &what)?;
        let got = g.get_value(p);
        ensure!(close(got, d[cell], mag), "read", "{what}: reading at {p:?} gives {got:?}, cell holds {:?}", d[cell]);
    }
    let (sd, sw) = (g.get_data().sum(), g.get_weights().sum());
    ensure!(close(sd, d.sum(), mag) && close(sw, w.sum(), n as f64), "total", "totals {sd} {sw}");
    c.nontrivial = ins >= 3 && s.n() > 1;
    Ok(())
}

fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn c05(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 4);
    c.log(s.desc());
    let mut g = filled(&s, &mut c.rng, true);
    let (d, w) = (g.get_data().clone(), g.get_weights().clone());
    match c.idx % 5 {
        0 => {
            // means of added values
            let mut g = s.build();
            let mut lists: std::collections::BTreeMap<Cell, Vec<f64>> = Default::default();
            for _ in 0..c.rng.int(1, 40) {
                let cell = s.random_cell(&mut c.rng);
                let v = c.rng.value();
                g.add_value(s.point_in(&mut c.rng, cell), v);
                lists.entry(cell).or_default().push(v);
            }
            c.log(format!("{lists:?}"));
            let w = g.get_weights().clone();
            g.divide_by_weight();
            for cell in s.all_cells() {
                let want = lists.get(&cell).map(|l| l.iter().sum::<f64>() / l.len() as f64).unwrap_or(f64::NAN);
                let mag = lists.get(&cell).map(|l| l.iter().map(|x| x.abs()).sum::<f64>()).unwrap_or(0.0);
                let got = g.get_data()[cell];
                ensure!(close(got, want, mag), "mean", "cell {cell:?}: {got:?} is not the mean {want:?} of what was added");
                ensure!(g.get_weights()[cell] == w[cell], "weights", "weight of {cell:?} changed");
                c.seen("cell means");
            }
        }
        1 => {
            c.log(format!("divide_by_weight {:?} {:?}", d.iter().take(4).collect::<Vec<_>>(), w.iter().take(4).collect::<Vec<_>>()));
            g.divide_by_weight();
            for cell in s.all_cells() {
                let got = g.get_data()[cell];
                ensure!(close(got, d[cell] / w[cell], 0.0), "divide", "cell {cell:?}: {} / {} gave {got}", d[cell], w[cell]);
                c.seen("divisions by weight");
            }
            ensure!(same(g.get_weights(), &w), "weights", "weights changed by dividing by them");
        }
        2 => {
            let r = &mut c.rng;
            let o = Array3::from_shape_fn(s.cells, |_| r.value());
            c.log(format!("divide_by_array {:?}", o.iter().take(4).collect::<Vec<_>>()));
            g.divide_by_array(&o);
            for cell in s.all_cells() {
                let got = g.get_data()[cell];
                ensure!(close(got, d[cell] / o[cell], 0.0), "divide", "cell {cell:?}: {} / {} gave {got}", d[cell], o[cell]);
                c.seen("divisions by array");
            }
            ensure!(same(g.get_weights(), &w), "weights", "weights changed by dividing by an array");
        }
        3 => {
            let x = *c.rng.pick(&[2.0, -0.5, 1e-3, 7.25, 0.0]);
            c.log(format!("divide_by_scalar {x}"));
            g.divide_by_scalar(x);
            for cell in s.all_cells() {
                let got = g.get_data()[cell];
                ensure!(close(got, d[cell] / x, 0.0), "divide", "cell {cell:?}: {} / {x} gave {got}", d[cell]);
                c.seen("divisions by scalar");
            }
            ensure!(same(g.get_weights(), &w), "weights", "weights changed by dividing by a scalar");
        }
        _ => {
            let r = &mut c.rng;
            let nd = Array3::from_shape_fn(s.cells, |_| if r.chance(0.1) { f64::NAN } else { r.value() });
            let nw = Array3::from_shape_fn(s.cells, |_| r.int(0, 9) as f64 + 0.25);
            g.set_data(nd.clone());
            ensure!(same(g.get_data(), &nd), "setter", "data read back differ from data set");
            ensure!(same(g.get_weights(), &w), "setter", "setting data changed weights");
            g.set_weights(nw.clone());
            ensure!(same(g.get_weights(), &nw), "setter", "weights read back differ from weights set");
            ensure!(same(g.get_data(), &nd), "setter", "setting weights changed data");
            let cell = s.random_cell(&mut c.rng);
            let p = s.point_in(&mut c.rng, cell);
            let got = g.get_value(p);
            ensure!(got == nd[cell] || (got.is_nan() && nd[cell].is_nan()), "setter", "value at {p:?} is {got}, set {}", nd[cell]);
            c.seen("exact set and read back");
            let mut sh = s.cells;
            let a = c.rng.below(3);
            sh[a] = if sh[a] > 1 && c.rng.chance(0.5) { sh[a] - 1 } else { sh[a] + 1 };
            let [x, y, z] = s.cells;
            let shapes = [sh, [y, x, z], [x * y, 1, z], [x, z, y], [z, y, x], [y, z, x], [x, y * z, 1], [1, y, x * z]];
            for sh in shapes {
                if sh == s.cells {
                    continue;
                }
                c.log(format!("wrong shape {sh:?}"));
                let bad = Array3::<f64>::ones(sh);
                ensure!(refused(|| g.set_data(bad.clone())), "shape", "data of shape {sh:?} accepted for {:?}", s.cells);
                ensure!(refused(|| g.set_weights(bad.clone())), "shape", "weights of shape {sh:?} accepted for {:?}", s.cells);
                c.seen("wrong shapes refused");
            }
            ensure!(same(g.get_data(), &nd) && same(g.get_weights(), &nw), "shape", "a refused array changed the grid");
        }
    }
    c.nontrivial = s.n() > 1;
    Ok(())
}

pub fn c06(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 5);
    c.log(s.desc());
    let nan = c.rng.chance(0.6);
    let mut g = filled(&s, &mut c.rng, nan);
    if c.rng.chance(0.3) {
        // whole lines without any weight
        let mut w = g.get_weights().clone();
        let (i, j) = (c.rng.below(s.cells[0]), c.rng.below(s.cells[1]));
        w.slice_mut(s![i, j, ..]).fill(0.0);
        g.set_weights(w);
    }
    let (d, w) = (g.get_data().clone(), g.get_weights().clone());
    c.log(format!("values {:?} weights {:?}", d.iter().take(6).collect::<Vec<_>>(), w.iter().take(6).collect::<Vec<_>>()));
    for axis in 0..3 {
        let rest: Vec<usize> = (0..3).filter(|a| *a != axis).collect();
        let (v, vw) = (g.collapse(axis), g.collapse_weight(axis));
        let dim = [s.cells[rest[0]], s.cells[rest[1]]];
        ensure!(v.shape() == dim && vw.shape() == dim, "shape", "collapse({axis}) has shape {:?}", v.shape());
        for i in 0..dim[0] {
            for j in 0..dim[1] {
                let (mut sum, mut wt, mut mag) = (0.0, 0.0, 0.0);
                for k in 0..s.cells[axis] {
                    let mut cell = [0; 3];
                    cell[axis] = k;
                    cell[rest[0]] = i;
                    cell[rest[1]] = j;
                    let x = if d[cell].is_nan() { 0.0 } else { d[cell] };
                    sum += x * w[cell];
                    mag += (x * w[cell]).abs();
                    wt += w[cell];
                }
                ensure!(close(vw[[i, j]], wt, wt), "weights", "collapse_weight({axis})[{i},{j}] = {}, sum is {wt}", vw[[i, j]]);
                ensure!(
                    close(v[[i, j]], sum / wt, mag / wt),
                    "values",
                    "collapse({axis})[{i},{j}] = {}, weighted average is {}",
                    v[[i, j]],
                    sum / wt
                );
                c.seen(if wt == 0.0 { "collapsed cells without weight" } else { "collapsed cells" });
            }
        }
    }
    for a in 0..3 {
        for b in 0..3 {
            if a == b {
                ensure!(refused(|| { g.collapse_two(a, b); }), "same-axis", "collapse_two({a},{b}) accepted");
                ensure!(refused(|| { g.collapse_two_weight(a, b); }), "same-axis", "collapse_two_weight({a},{b}) accepted");
                c.seen("same axis refused");
                continue;
            }
            let rest = 3 - a - b;
            let (v, vw) = (g.collapse_two(a, b), g.collapse_two_weight(a, b));
            ensure!(v.len() == s.cells[rest] && vw.len() == s.cells[rest], "shape", "collapse_two({a},{b}) has {} elements", v.len());
            for i in 0..s.cells[rest] {
                let (mut sum, mut wt, mut mag) = (0.0, 0.0, 0.0);
                for cell in s.all_cells() {
                    if cell[rest] != i {
                        continue;
                    }
                    let x = if d[cell].is_nan() { 0.0 } else { d[cell] };
                    sum += x * w[cell];
                    mag += (x * w[cell]).abs();
                    wt += w[cell];
                }
                ensure!(close(vw[i], wt, wt), "weights2", "collapse_two_weight({a},{b})[{i}] = {}, sum is {wt}", vw[i]);
                ensure!(close(v[i], sum / wt, mag / wt), "values2", "collapse_two({a},{b})[{i}] = {}, weighted average is {}", v[i], sum / wt);
                c.seen("doubly collapsed cells");
            }
        }
    }
    ensure!(same(g.get_data(), &d) && same(g.get_weights(), &w), "mutated", "collapsing changed the grid");
    c.nontrivial = s.n() > 1;
    Ok(())
}

pub fn c07(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 6);
    c.log(s.desc());
    let mut g = s.build();
    // every cell has its own value, so a plane identifies itself
    let mut k = 0.0;
    let d = Array3::from_shape_fn(s.cells, |_| {
        k += 1.0;
        k
    });
    g.set_data(d.clone());
    let plane = |axis: usize, i: usize| -> Array2<f64> { d.index_axis(Axis(axis), i).to_owned() };
    for axis in 0..3 {
        for i in 0..s.cells[axis] {
            let got = g.slice_idx(axis, i);
            ensure!(got == plane(axis, i), "by-index", "slice_idx({axis},{i}) = {got:?}");
            let (lo, hi) = s.range(axis, i);
            for f in [0.5, 0.01, 0.99] {
                let x = lo + (hi - lo) * f;
                let got = g.slice(axis, x);
                ensure!(got == plane(axis, i), "by-position", "slice({axis},{x:?}) is not plane {i}: {got:?}");
                c.seen("slices by position");
            }
            c.seen("slices by index");
        }
        let l = s.own_limits()[axis];
        ensure!(g.slice(axis, l[0]) == plane(axis, 0), "by-position", "slice({axis},{:?}) at the lower limit is not the first plane", l[0]);
        ensure!(
            g.slice(axis, l[1]) == plane(axis, s.cells[axis] - 1),
            "by-position",
            "slice({axis},{:?}) at the upper limit is not the last plane",
            l[1]
        );
        c.see("slices at the limits", 2);
        // shared faces: either neighbour
        for i in 1..s.cells[axis] {
            let x = s.range(axis, i).0;
            let got = g.slice(axis, x);
            ensure!(got == plane(axis, i) || got == plane(axis, i - 1), "by-position", "slice({axis},{x:?}) on the face between {} and {i}", i - 1);
            c.seen("slices on shared faces");
        }
    }
    // consistency with where a point with that coordinate is located
    for _ in 0..6 {
        let p = s.point_inside(&mut c.rng);
        if !matches!(s.locate(p), Where::In(_)) {
            continue;
        }
        let o = s.own(p);
        if let Ok(id) = g.cell_id(p) {
            for axis in 0..3 {
                ensure!(
                    g.slice(axis, o[axis]) == g.slice_idx(axis, id[axis]),
                    "consistency",
                    "point {p:?} is in plane {} of axis {axis}, slicing there gives another plane",
                    id[axis]
                );
                c.seen("slice/locate agreements");
            }
        }
    }
    ensure!(same(g.get_data(), &d), "mutated", "slicing changed the grid");
    c.nontrivial = s.n() > 1;
    Ok(())
}

/// reference outlier removal
fn ref_outlier(s: &GSpec, d: &Array3<f64>, w: &Array3<f64>, t: f64, mode: usize) -> (Array3<f64>, Array3<f64>, Vec<Cell>) {
    let (mut rd, mut rw) = (d.clone(), w.clone());
    let mut undefined = vec![];
    for cell in s.all_cells() {
        if !(d[cell] > t) {
            continue;
        }
        match mode {
            0 => rd[cell] = 0.0,
            1 => rd[cell] = t,
            _ => {
                let (mut sum, mut ws, mut n) = (0.0, 0.0, 0.0);
                for nb in s.all_cells() {
                    let near = (0..3).all(|a| (nb[a] as i64 - cell[a] as i64).abs() <= 1);
                    if !near || nb == cell || d[nb] > t {
                        continue;
                    }
                    sum += d[nb];
                    ws += w[nb];
                    n += 1.0;
                }
                if n == 0.0 {
                    undefined.push(cell);
                } else {
                    rd[cell] = sum / n;
                    rw[cell] = ws / n;
                }
            }
        }
    }
    (rd, rw, undefined)
}

pub fn c08(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 5);
    c.log(s.desc());
    let mut g = filled(&s, &mut c.rng, false);
    // plant outliers at corners, borders, interior, and next to each other
    let mut d = g.get_data().clone();
    d.mapv_inplace(|x| x.clamp(-5.0, 5.0));
    let t = *c.rng.pick(&[5.0, 2.0, 0.0, -1.0, 20.0]);
    for _ in 0..c.rng.int(1, 5) {
        let mut cell = s.random_cell(&mut c.rng);
        for a in 0..3 {
            if c.rng.chance(0.4) {
                cell[a] = if c.rng.chance(0.5) { 0 } else { s.cells[a] - 1 };
            }
        }
        d[cell] = *c.rng.pick(&[100.0, 21.0, 1e6]);
        if c.rng.chance(0.5) {
            let a = c.rng.below(3);
            if cell[a] + 1 < s.cells[a] {
                cell[a] += 1;
                d[cell] = 50.0;
            }
        }
    }
    let eq = s.random_cell(&mut c.rng);
    if c.rng.chance(0.5) {
        d[eq] = t; // exactly the threshold: not an outlier
    }
    g.set_data(d.clone());
    let w = g.get_weights().clone();
    let mode = c.idx as usize % 3;
    c.log(format!("threshold {t} mode {mode} values {:?}", d.iter().take(12).collect::<Vec<_>>()));
    let (rd, rw, undef) = ref_outlier(&s, &d, &w, t, mode);
    g.outlier_removal(t, mode);
    for cell in s.all_cells() {
        if undef.contains(&cell) {
            c.seen("outliers without any regular neighbour (unspecified)");
            continue;
        }
        let out = d[cell] > t;
        let (gd, gw) = (g.get_data()[cell], g.get_weights()[cell]);
        let ok = if out { close(gd, rd[cell], 30.0) } else { gd == rd[cell] };
        ensure!(ok, "values", "cell {cell:?} ({}outlier, was {}) became {gd}, expected {}", if out { "" } else { "no " }, d[cell], rd[cell]);
        ensure!(close(gw, rw[cell], 1.0), "weights", "cell {cell:?}: weight {} became {gw}, expected {}", w[cell], rw[cell]);
        if out {
            c.seen(["outliers zeroed", "outliers capped", "outliers averaged"][mode]);
            if mode == 2 && (0..3).any(|a| cell[a] == 0 || cell[a] + 1 == s.cells[a]) {
                c.seen("outliers averaged at the border");
            }
        } else {
            c.seen("regular values untouched");
        }
    }
    let m = c.rng.int(3, 9);
    let before = g.get_data().clone();
    ensure!(refused(|| g.outlier_removal(t, m)), "mode", "mode {m} accepted");
    ensure!(same(g.get_data(), &before), "mode", "refused mode changed the grid");
    c.nontrivial = s.n() > 1;
    Ok(())
}

pub fn c10(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 4);
    c.log(s.desc());
    let base = if c.rng.chance(0.5) { s.build() } else { filled(&s, &mut c.rng, false) };
    let mut v = VectorGrid::new(base.clone());
    let mut m: Vec<Grid> = vec![base.clone(), base.clone(), base.clone()];
    check_reported(c, &s, &v)?;
    // components differ from here on
    for k in 0..3 {
        let r = &mut c.rng;
        let d = Array3::from_shape_fn(s.cells, |_| r.value());
        v.data[k].set_data(d.clone());
        m[k].set_data(d);
    }
    for step in 0..c.rng.int(2, 14) {
        let x = c.rng.value();
        let p = if c.rng.chance(0.15) { s.point_outside(&mut c.rng) } else { s.point_inside(&mut c.rng) };
        let q = if c.rng.chance(0.15) { s.point_outside(&mut c.rng) } else { s.point_inside(&mut c.rng) };
        let cell = s.random_cell(&mut c.rng);
        let arr = Array3::from_elem(s.cells, x.abs() + 0.5);
        let op = c.rng.below(9);
        let each = |f: &dyn Fn(&mut dyn GridFunctions3D), m: &mut Vec<Grid>| m.iter_mut().for_each(|g| f(&mut **g));
        let name = ["add_value", "add_to_cell", "insert", "trajectory", "divide_by_weight", "divide_by_array", "divide_by_scalar", "set_weights", "outlier_removal"][op];
        match op {
            0 => { v.add_value(p, x); each(&|g| g.add_value(p, x), &mut m) }
            1 => { v.add_to_cell(cell, x); each(&|g| g.add_to_cell(cell, x), &mut m) }
            2 => { v.insert(p, x); each(&|g| g.insert(p, x), &mut m) }
            3 => { v.add_trajectory_value(p, q, x); each(&|g| g.add_trajectory_value(p, q, x), &mut m) }
            4 => { v.divide_by_weight(); each(&|g| g.divide_by_weight(), &mut m) }
            5 => { v.divide_by_array(&arr); each(&|g| g.divide_by_array(&arr), &mut m) }
            6 => { v.divide_by_scalar(2.5); each(&|g| g.divide_by_scalar(2.5), &mut m) }
            7 => { v.set_weights(arr.clone()); each(&|g| g.set_weights(arr.clone()), &mut m) }
            _ => {
                let mode = c.rng.below(3);
                v.outlier_removal(1.0, mode);
                each(&|g| g.outlier_removal(1.0, mode), &mut m)
            }
        }
        c.log(name);
        c.seen(name);
        for k in 0..3 {
            let (a, b) = (v.data[k].get_data(), m[k].get_data());
            ensure!(same(a, b), "component", "step {step} {name}: component {k} differs from a scalar grid: {:?} / {:?}",
                a.iter().take(8).collect::<Vec<_>>(), b.iter().take(8).collect::<Vec<_>>());
            ensure!(same(v.data[k].get_weights(), m[k].get_weights()), "component", "step {step} {name}: weights of component {k} differ from a scalar grid");
        }
        ensure!(v.is_inside(p) == m[0].is_inside(p), "geometry", "is_inside differs from the base grid at {p:?}");
        ensure!(v.cell_id(p).ok() == m[0].cell_id(p).ok(), "geometry", "cell_id differs from the base grid at {p:?}");
    }
    let z = v.new_zeros();
    let z = z.as_any().downcast_ref::<VectorGrid>();
    match z {
        None => fail!("empty-copy", "empty copy of a vector grid is not a vector grid"),
        Some(z) => {
            for k in 0..3 {
                ensure!(
                    z.data[k].get_data().iter().all(|x| *x == 0.0) && z.data[k].get_weights().iter().all(|x| *x == 0.0),
                    "empty-copy",
                    "component {k} of the empty copy is not empty"
                );
            }
            check_reported(c, &s, z)?;
        }
    }
    // velocity components
    for _ in 0..6 {
        let p = s.point_inside(&mut c.rng);
        let vel = crate::data::random_vel(&mut c.rng);
        let got = v.velocity_calculation(p, array![vel[0], vel[1], vel[2]]);
        let want;
        let mut scale = 1.0;
        if s.cyl {
            let ctr = s.axis();
            let (x, y) = (p[0] - ctr[0], p[1] - ctr[1]);
            let r = x.hypot(y);
            if r < 1e-4 * s.radius() {
                continue;
            }
            want = [
                (x * vel[0] + y * vel[1]) / r,
                (x * vel[1] - y * vel[0]) / (r * r),
                vel[2],
            ];
            scale = (1.0 + (ctr[0].abs() + ctr[1].abs()) / r) * (1.0 + 1.0 / r) * 20.0;
            c.seen("velocity decompositions (cylindrical)");
        } else {
            want = vel;
            c.seen("velocity decompositions (cartesian)");
        }
        for k in 0..3 {
            ensure!(close(got[k], want[k], scale), "velocity", "velocity {vel:?} at {p:?}: component {k} is {}, expected {}", got[k], want[k]);
        }
    }
    c.nontrivial = true;
    Ok(())
}
