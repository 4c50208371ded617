//! C09, C12, C31, C32: relations between runs of every analysis.
use crate::checks::grids::{filled, same};
use crate::data::*;
use crate::geo::{GSpec, Grid};
use crate::rec::{Case, R};
use crate::rng::Rng;
use crate::{ensure, fail};
use ndarray::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::{GridFunctions3D, VectorGrid};

/// an analysis that crashes is C32's business: here its result is "crashed"
fn guarded(an: &An, m: &mut Mock, g: Grid, p: &upppp_rust::ParticleSelector) -> Option<Out> {
    catch_unwind(AssertUnwindSafe(|| run(an, m, g, p))).ok()
}

/// tolerance when two runs of the same analysis must agree: the same additions in the same order
const SAME: f64 = 1e-9;

fn empty_copy(c: &mut Case, s: &GSpec) -> R {
    let mut g = filled(s, &mut c.rng, true);
    if c.rng.chance(0.3) {
        odd_weights(s, &mut g, &mut c.rng);
    }
    let (d, w) = (g.get_data().clone(), g.get_weights().clone());
    let z = g.new_zeros();
    check_empty(s, &*g, &*z)?;
    ensure!(same(g.get_data(), &d) && same(g.get_weights(), &w), "empty-copy", "making an empty copy changed the original");
    c.seen("empty copies");
    let v = VectorGrid::new(g.clone());
    let z = v.new_zeros();
    let z = match z.as_any().downcast_ref::<VectorGrid>() {
        Some(z) => z,
        None => fail!("empty-copy", "the empty copy of a vector grid is not a vector grid"),
    };
    for k in 0..3 {
        check_empty(s, &*g, &*z.data[k])?;
    }
    ensure!(same(v.data[0].get_data(), &d), "empty-copy", "making an empty copy changed the original vector grid");
    c.seen("empty copies");
    Ok(())
}

/// weights that no accumulation gives, but dividing by zero or set_weights does
fn odd_weights(s: &GSpec, g: &mut Grid, r: &mut Rng) {
    let w = Array3::from_shape_fn(s.cells, |_| *r.pick(&[f64::NAN, f64::INFINITY, -1.0, 1e300, 0.0]));
    g.set_weights(w);
}

fn check_empty(s: &GSpec, g: &dyn GridFunctions3D, z: &dyn GridFunctions3D) -> R {
    ensure!(
        z.get_data().shape() == s.cells && z.get_weights().shape() == s.cells && *z.get_cells() == s.cells,
        "empty-copy",
        "empty copy has shape {:?}",
        z.get_data().shape()
    );
    ensure!(z.is_cylindrical() == s.cyl, "empty-copy", "empty copy is of another kind");
    ensure!(z.get_limits() == g.get_limits(), "empty-copy", "limits {:?} instead of {:?}", z.get_limits(), g.get_limits());
    ensure!(
        z.get_xpositions() == g.get_xpositions()
            && z.get_ypositions() == g.get_ypositions()
            && z.get_zpositions() == g.get_zpositions(),
        "empty-copy",
        "positions differ"
    );
    ensure!(z.get_data().iter().all(|x| *x == 0.0), "empty-copy", "empty copy holds values {:?}", z.get_data().iter().take(6).collect::<Vec<_>>());
    ensure!(z.get_weights().iter().all(|x| *x == 0.0), "empty-copy", "empty copy holds weights {:?}", z.get_weights().iter().take(6).collect::<Vec<_>>());
    Ok(())
}

pub fn c09(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 3);
    empty_copy(c, &s)?;
    let mut o = Opts::std();
    o.off_axis = true;
    o.vary = false;
    o.shrink = true;
    o.particles = (1, 8);
    let rec = random_rec(&mut c.rng, &s, &o);
    let sel = random_sel(&mut c.rng, &rec);
    c.log(s.desc());
    c.log(sel.desc());
    c.log(rec.desc());
    let psel = sel.build();
    for an in An::all(&mut c.rng, &rec) {
        if !an.takes_grid() {
            continue;
        }
        let mut m = Mock::new(&rec);
        let a = match guarded(&an, &mut m, s.build(), &psel) {
            Some(a) => a,
            None => continue,
        };
        for content in 0..2 {
            let mut g = filled(&s, &mut c.rng, content == 1);
            if content == 0 {
                // weights only
                g.set_data(Array3::zeros(s.cells));
            }
            if c.rng.chance(0.2) {
                odd_weights(&s, &mut g, &mut c.rng);
            }
            let mut m = Mock::new(&rec);
            match guarded(&an, &mut m, g, &psel) {
                None => fail!(an.name(), "{an:?} crashes on a grid that already holds something"),
                Some(b) => {
                    if let Some(d) = a.diff(&b, SAME) {
                        fail!(an.name(), "{an:?} on a grid with previous content: {d}");
                    }
                }
            }
            c.seen("analysis pairs compared");
        }
        if a.finite_nonzero() {
            c.seen("non-zero results");
            c.nontrivial = true;
        }
    }
    Ok(())
}

/// changes positions, velocities and types of unselected particles
fn scramble(rec: &Recording, s: &GSpec, sel: &Sel, r: &mut Rng) -> (Recording, u64) {
    let mut out = rec.clone();
    let mut n = 0;
    for st in out.steps.iter_mut() {
        for i in 0..st.pos.len() {
            if sel.of(st, i) {
                continue;
            }
            st.pos[i] = match r.below(5) {
                0 => [f64::NAN; 3],
                1 => s.point_outside(r),
                _ => s.point_inside(r),
            };
            st.vel[i] = match r.below(5) {
                0 => [f64::NAN; 3],
                1 => [50.0, -70.0, 3.0],
                _ => random_vel(r),
            };
            st.ptype[i] = r.below(4) as f64;
            n += 1;
        }
    }
    (out, n)
}

/// replaces the content of unselected steps (their times stay)
fn scramble_steps(rec: &Recording, s: &GSpec, sel: &Sel, r: &mut Rng) -> (Recording, u64) {
    let mut o = Opts::std();
    o.steps = (rec.steps.len(), rec.steps.len());
    o.off_axis = true;
    let other = random_rec(r, s, &o);
    let mut out = rec.clone();
    let mut n = 0;
    for (k, st) in out.steps.iter_mut().enumerate() {
        if !sel.at(st.t) {
            let t = st.t;
            *st = other.steps[k].clone();
            st.t = t;
            n += 1;
        }
    }
    (out, n)
}

pub fn c12(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 3);
    let mut o = Opts::std();
    o.off_axis = true;
    o.vary = false;
    o.shrink = true;
    o.particles = (2, 8);
    o.steps = (2, 8);
    // the position a particle is followed to counts, whether it is still selected there or not
    o.drift = c.rng.chance(0.5);
    let instants = o.drift;
    let rec = random_rec(&mut c.rng, &s, &o);
    let mut sel = random_sel(&mut c.rng, &rec);
    for _ in 0..20 {
        if !sel.is_all() {
            break;
        }
        sel = random_sel(&mut c.rng, &rec);
    }
    c.log(s.desc());
    c.log(sel.desc());
    c.log(rec.desc());
    let psel = sel.build();
    let (a, na) = scramble(&rec, &s, &sel, &mut c.rng);
    let (b, nb) = scramble_steps(&rec, &s, &sel, &mut c.rng);
    c.see("scrambled particles", na);
    c.see("scrambled steps", nb);
    let mut nonzero = false;
    for an in An::all(&mut c.rng, &rec) {
        if matches!(an, An::Extract(..)) || (instants && !an.same_instant()) {
            continue;
        }
        let mut m = Mock::new(&rec);
        let want = match guarded(&an, &mut m, s.build(), &psel) {
            Some(x) => x,
            None => continue,
        };
        for (what, other, n) in [("unselected particles", &a, na), ("unselected time steps", &b, nb)] {
            if n == 0 || (what == "unselected time steps" && !an.within_window()) {
                continue;
            }
            let mut m = Mock::new(other);
            match guarded(&an, &mut m, s.build(), &psel) {
                None => fail!(an.name(), "{an:?} crashes after changing {what}"),
                Some(got) => {
                    if let Some(d) = want.diff(&got, SAME) {
                        fail!(an.name(), "{an:?} depends on {what}: {d}");
                    }
                }
            }
            c.seen("analysis pairs compared");
        }
        if want.finite_nonzero() {
            c.seen("non-zero results");
            nonzero = true;
        }
    }
    c.nontrivial = nonzero && na + nb > 0;
    Ok(())
}

pub fn c31(c: &mut Case) -> R {
    let s = GSpec::random(&mut c.rng, 3);
    let mut o = Opts::std();
    o.off_axis = true;
    o.particles = (1, 8);
    o.vary = c.rng.chance(0.3);
    o.shrink = true;
    let rec = random_rec(&mut c.rng, &s, &o);
    let sel = random_sel(&mut c.rng, &rec);
    c.log(s.desc());
    c.log(sel.desc());
    c.log(rec.desc());
    let psel = sel.build();
    let before = selector_state(&psel);
    let mut m = Mock::new(&rec);
    let grid = filled(&s, &mut c.rng, false);
    let (gd, gw) = (grid.get_data().clone(), grid.get_weights().clone());
    let pool = An::all(&mut c.rng, &rec);
    let mut useful = 0;
    for _ in 0..c.rng.int(4, 12) {
        let an = c.rng.pick(&pool).clone();
        c.log(format!("{an:?}"));
        let got = catch_unwind(AssertUnwindSafe(|| run(&an, &mut m, grid.clone(), &psel)));
        let mut fresh = Mock::new(&rec);
        let want = guarded(&an, &mut fresh, s.build(), &psel);
        match (got, want) {
            (Ok(a), Some(b)) => {
                if let Some(d) = b.diff(&a, SAME) {
                    fail!(an.name(), "{an:?} after other analyses: {d}");
                }
                if a.finite_nonzero() {
                    useful += 1;
                }
            }
            (Err(e), _) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("MONITOR") {
                    fail!("access", "{an:?}: {msg}");
                }
                fail!(an.name(), "{an:?} crashes: {msg}");
            }
            (Ok(_), None) => fail!(an.name(), "{an:?} crashes on a fresh data source only"),
        }
        let again = guarded(&an, &mut m, grid.clone(), &psel);
        let third = guarded(&an, &mut m, grid.clone(), &psel);
        match (again, third) {
            (Some(a), Some(b)) => {
                if let Some(d) = a.diff(&b, 0.0) {
                    fail!(an.name(), "{an:?} repeated: {d}");
                }
            }
            _ => fail!(an.name(), "{an:?} crashes when repeated"),
        }
        c.seen("analyses");
        c.seen("repeated analyses compared");
        ensure!(same(grid.get_data(), &gd) && same(grid.get_weights(), &gw), "grid", "{an:?} changed the caller's grid");
        ensure!(selector_state(&psel) == before, "selection", "{an:?} changed the selection");
    }
    ensure!(m.unchanged(), "recording", "the recording was changed");
    let l = m.log.borrow().clone();
    c.see("time steps served", l.gets + l.unbuffered);
    c.see("second-channel reads", l.buffered);
    c.see("second-channel setups", l.setups);
    c.nontrivial = useful >= 3;
    Ok(())
}

pub fn c32(c: &mut Case) -> R {
    let max = if c.rng.chance(0.3) { 1 } else { 3 };
    let s = GSpec::random(&mut c.rng, max);
    let mut o = Opts::std();
    o.inf = c.rng.chance(0.5);
    o.nan_pos = c.rng.chance(0.7);
    o.steps = if c.rng.chance(0.6) { (1, 4) } else { (1, 12) };
    o.particles = if c.rng.chance(0.3) { (0, 2) } else { (0, 7) };
    o.outside = *c.rng.pick(&[0.2, 0.6, 1.0]);
    o.types = c.rng.int(1, 4);
    let mut rec = random_rec(&mut c.rng, &s, &o);
    if c.rng.chance(0.3) {
        // shrinking or growing
        let n = rec.steps.len();
        for k in 0..n {
            let cut = c.rng.int(0, 3);
            let st = &mut rec.steps[k];
            let keep = st.pos.len().saturating_sub(cut);
            st.pos.truncate(keep);
            st.vel.truncate(keep);
            st.rad.truncate(keep);
            st.cloud.truncate(keep);
            st.dens.truncate(keep);
            st.ptype.truncate(keep);
            st.id.truncate(keep);
        }
        rec.finish();
    }
    let mut sel = random_sel(&mut c.rng, &rec);
    if c.rng.chance(0.1) {
        sel.radius = vec![77.0]; // nothing selected
    }
    if c.rng.chance(0.1) {
        sel.time = (1e8, 2e8);
    }
    c.log(s.desc());
    c.log(sel.desc());
    c.log(rec.desc());
    let counts: Vec<usize> = rec.steps.iter().map(|x| x.pos.len()).collect();
    if rec.steps.len() < 4 {
        c.seen("recordings with fewer than four steps");
    }
    if counts.iter().any(|x| *x == 0) {
        c.seen("recordings with empty steps");
    }
    if counts.iter().any(|x| *x != counts[0]) {
        c.seen("recordings with varying particle counts");
    }
    c.nontrivial = rec.steps.len() < 4
        || counts.iter().any(|x| *x == 0 || *x != counts[0])
        || o.inf
        || o.nan_pos
        || s.n() == 1;
    let psel = sel.build();
    let mut list = An::all(&mut c.rng, &rec);
    list.push(An::Lacey(3, 7, 0));
    list.push(An::Lacey(9, 0, 1));
    list.push(An::Conc(5, 6));
    list.push(An::Dispersion(1e9));
    list.push(An::MsdField(1e9));
    list.push(An::Hist(0.0, 1));
    for an in list {
        let mut m = Mock::new(&rec);
        let grid = if c.rng.chance(0.5) { s.build() } else { filled(&s, &mut c.rng, true) };
        let r = catch_unwind(AssertUnwindSafe(|| run(&an, &mut m, grid, &psel)));
        if let Err(e) = r {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            fail!(an.name(), "{an:?} crashes: {msg}");
        }
        c.seen("analyses completed");
    }
    Ok(())
}
