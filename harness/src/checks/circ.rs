//! C25-C27: circulation times and extraction.
use crate::data::*;
use crate::ensure;
use crate::geo::GSpec;
use crate::rec::{Case, R};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// a recording whose particles have the given coordinates along `axis`; particles may be missing
/// from some steps and change their place in the order
fn from_paths(c: &mut Case, axis: usize, paths: &[Vec<f64>]) -> Recording {
    let n = paths[0].len();
    let ts = times(&mut c.rng, n);
    let first = if c.rng.chance(0.1) { 65530.0 } else { 1.0 };
    // particles that cannot be told apart by id keep their places
    let ids = if c.rng.chance(0.12) { *c.rng.pick(&[1, 1, 2, 3]) } else { paths.len() };
    if ids < paths.len() {
        c.seen("recordings whose particles share ids");
    }
    let steady = ids < paths.len();
    let gone = if !steady && c.rng.chance(0.35) { *c.rng.pick(&[0.0, 0.03, 0.15]) } else { 0.0 };
    let swaps = if !steady && c.rng.chance(0.35) { *c.rng.pick(&[0.05, 0.3, 0.9]) } else { 0.0 };
    let attrs: Vec<_> = paths
        .iter()
        .map(|_| (*c.rng.pick(&RADII), *c.rng.pick(&CLOUDS), *c.rng.pick(&DENS), c.rng.below(3) as f64))
        .collect();
    let mut order: Vec<usize> = (0..paths.len()).collect();
    let steps = (0..n)
        .map(|k| {
            let mut s = Step { t: ts[k], ..Default::default() };
            if order.len() > 1 && c.rng.chance(swaps) {
                let (a, b) = (c.rng.below(order.len()), c.rng.below(order.len()));
                order.swap(a, b);
            }
            for &i in &order {
                if c.rng.chance(gone) {
                    continue;
                }
                let mut pos = [c.rng.range(-5.0, 5.0), c.rng.range(-5.0, 5.0), c.rng.range(-5.0, 5.0)];
                pos[axis] = paths[i][k];
                s.pos.push(pos);
                s.vel.push(random_vel(&mut c.rng));
                s.rad.push(attrs[i].0);
                s.cloud.push(attrs[i].1);
                s.dens.push(attrs[i].2);
                s.ptype.push(attrs[i].3);
                s.id.push((i % ids.max(1)) as f64 + first);
            }
            s
        })
        .collect();
    let mut rec = Recording { steps, dims: [[0.0; 3]; 2], vmag: [0.0; 3] };
    rec.finish();
    c.see("particles with another place in the next step", rec.moved());
    rec
}

/// the coordinate of each selected particle at each used step that holds it
fn tracks(rec: &Recording, sel: &Sel, axis: usize) -> Vec<Vec<(f64, Option<f64>)>> {
    let u = used(rec, sel);
    // particles of the same id are told apart by their order among these
    let numbered = |s: &Step| -> Vec<(f64, usize)> {
        (0..s.id.len()).map(|i| (s.id[i], s.id[..i].iter().filter(|x| **x == s.id[i]).count())).collect()
    };
    let names: Vec<Vec<(f64, usize)>> = u.iter().map(|k| numbered(&rec.steps[*k])).collect();
    let mut ids: Vec<(f64, usize)> = names.iter().flatten().cloned().collect();
    ids.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ids.dedup();
    ids.iter()
        .map(|id| {
            u.iter()
                .zip(&names)
                .map(|(k, names)| {
                    let s = &rec.steps[*k];
                    let i = names.iter().position(|x| x == id).filter(|i| sel.of(s, *i));
                    (s.t, i.map(|i| s.pos[i][axis]))
                })
                .collect()
        })
        .collect()
}

/// selection whose time window (if any) is not too short
fn selection(c: &mut Case, rec: &Recording) -> Sel {
    let mut sel = random_sel(&mut c.rng, rec);
    let n = rec.steps.len();
    sel.time = if c.rng.chance(0.7) {
        (f64::MIN, f64::MAX)
    } else {
        let j = if c.rng.chance(0.5) { 0 } else { c.rng.int(0, n / 2) };
        let k = c.rng.int(j.max(n / 2), n - 1);
        if j > 0 {
            c.seen("windows that start within the recording");
        }
        let before = if j == 0 { *c.rng.pick(&[0.0, 1.0]) } else { 0.0 };
        (rec.steps[j].t - before, rec.steps[k].t)
    };
    sel
}

/// the steps an analysis looks at: those of the window, without the last stored step
fn used(rec: &Recording, sel: &Sel) -> Vec<usize> {
    (0..rec.steps.len() - 1).filter(|k| sel.at(rec.steps[*k].t)).collect()
}

/// events grouped by closing time must agree as multisets and come in ascending order
fn same_events(what: &str, got: &[(f64, f64)], want: &[(f64, f64)]) -> R {
    ensure!(
        got.len() == want.len(),
        what,
        "{} reported, expected {}: {:?} / {:?}",
        got.len(),
        want.len(),
        &got[..got.len().min(8)],
        &want[..want.len().min(8)]
    );
    let mut a = got.to_vec();
    let mut b = want.to_vec();
    let ord = |x: &(f64, f64), y: &(f64, f64)| x.1.partial_cmp(&y.1).unwrap().then(x.0.partial_cmp(&y.0).unwrap());
    a.sort_by(ord);
    b.sort_by(ord);
    for i in 0..a.len() {
        ensure!(a[i] == b[i], what, "reported {:?}, expected {:?}", a[i], b[i]);
    }
    for w in got.windows(2) {
        ensure!(w[0].1 <= w[1].1, "order", "not ordered by closing time: {:?} before {:?}", w[0], w[1]);
    }
    Ok(())
}

/// now and then a particle is exactly on a plane, or its position is unknown
fn mark(c: &mut Case, x: f64, planes: &[f64]) -> f64 {
    if c.rng.chance(0.04) {
        c.seen("positions exactly on a plane");
        return *c.rng.pick(planes);
    }
    if c.rng.chance(0.01) {
        c.seen("unknown positions");
        return f64::NAN;
    }
    x
}

fn path(c: &mut Case, n: usize, plane: f64) -> Vec<f64> {
    let style = c.rng.below(4);
    let marked = c.rng.chance(0.4);
    let mut x = plane + c.rng.range(-2.0, 2.0);
    let (per, ph, am) = (c.rng.range(2.0, 9.0), c.rng.range(0.0, 6.3), c.rng.range(0.5, 4.0));
    (0..n)
        .map(|k| {
            x = match style {
                0 => x + c.rng.range(-1.5, 1.5),
                1 => plane + am * (ph + k as f64 * 6.2832 / per).sin(),
                2 => plane + c.rng.range(-3.0, 3.0),
                _ => if c.rng.chance(0.4) { 2.0 * plane - x } else { x },
            };
            if marked { mark(c, x, &[plane]) } else { x }
        })
        .collect()
}

/// numbers of steps and of particles, now and then beyond what a byte can count
fn size(c: &mut Case) -> (usize, usize) {
    let n = if c.rng.chance(0.15) { c.rng.int(1, 4) } else { c.rng.int(5, 40) };
    let k = c.rng.int(1, 5);
    match c.rng.below(250) {
        0 => {
            c.seen("recordings of more than 256 steps");
            (c.rng.int(257, 700), k.min(3))
        }
        1 => {
            c.seen("recordings of more than 256 particles");
            (n.min(20), c.rng.int(257, 300))
        }
        _ => (n, k),
    }
}

/// recordings may be in metres or in micrometres
fn length_unit(c: &mut Case) -> f64 {
    if c.rng.chance(0.2) {
        c.seen("tiny or huge lengths");
        *c.rng.pick(&[1e-6, 1e-9, 1e6])
    } else {
        1.0
    }
}

pub fn c25(c: &mut Case) -> R {
    let (n, k) = size(c);
    let axis = c.rng.below(3);
    let unit = length_unit(c);
    let plane = *c.rng.pick(&[0.0, 1.0, -2.5, 40.0]);
    let paths: Vec<Vec<f64>> = (0..k).map(|_| path(c, n, plane).iter().map(|x| x * unit).collect()).collect();
    let plane = plane * unit;
    let rec = from_paths(c, axis, &paths);
    let sel = selection(c, &rec);
    c.log(sel.desc());
    c.log(format!("axis {axis} plane {plane} paths {:?}", paths));
    c.log(format!("times {:?}", rec.steps.iter().map(|s| s.t).collect::<Vec<_>>()));
    let mut mock = Mock::new(&rec);
    let psel = sel.build();
    let d = rec.dims;
    for out in [d[1][axis] + 0.5 * unit, d[0][axis] - 0.5 * unit, f64::INFINITY] {
        if c.idx % 4 == 0 {
            ensure!(
                refused(|| {
                    mock.m().circulation_time(&psel, axis, out);
                }),
                "plane-outside",
                "plane {out:?} outside {:?}..{:?} was not refused",
                d[0][axis],
                d[1][axis]
            );
            c.seen("plane outside refused");
        }
    }
    if plane < d[0][axis] || plane > d[1][axis] {
        return Ok(());
    }
    let mut want: Vec<(f64, f64)> = vec![]; // (first crossing, closing)
    for tr in tracks(&rec, &sel, axis) {
        let mut cross = vec![];
        for w in tr.windows(2) {
            let (a, b) = match (w[0].1, w[1].1) {
                (Some(a), Some(b)) if !a.is_nan() && !b.is_nan() => (a, b),
                _ => continue,
            };
            if (a > plane) != (b > plane) {
                cross.push(w[1].0);
            }
        }
        c.see("crossings", cross.len() as u64);
        for g in cross.chunks_exact(3) {
            want.push((g[0], g[2]));
        }
    }
    want.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
    let got = mock.m().circulation_time(&psel, axis, plane);
    // only durations are reported: group the expected ones by closing time
    ensure!(got.len() == want.len(), "durations", "{} durations reported, expected {}", got.len(), want.len());
    let mut i = 0;
    while i < want.len() {
        let j = want[i..].iter().take_while(|x| x.1 == want[i].1).count() + i;
        let mut a: Vec<f64> = got[i..j].to_vec();
        let mut b: Vec<f64> = want[i..j].iter().map(|x| x.1 - x.0).collect();
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        b.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for (x, y) in a.iter().zip(b.iter()) {
            ensure!(
                (x - y).abs() <= 1e-9 * (1.0 + y.abs()),
                "durations",
                "closing at {:?}: durations {a:?}, expected {b:?}",
                want[i].1
            );
        }
        i = j;
    }
    c.see("circulations", want.len() as u64);
    c.nontrivial = !want.is_empty();
    Ok(())
}

/// a path through the zones below lo, between, above hi, now and then jumping across both planes
fn zone_path(c: &mut Case, n: usize, lo: f64, hi: f64) -> Vec<f64> {
    let mut zone = c.rng.below(3);
    let lively = c.rng.range(0.3, 0.95);
    let mut dir_up = c.rng.chance(0.5);
    let persist = c.rng.range(0.4, 1.0);
    let marked = c.rng.chance(0.4);
    let jumpy = if c.rng.chance(0.4) { *c.rng.pick(&[0.05, 0.3, 0.8]) } else { 0.0 };
    (0..n)
        .map(|_| {
            if c.rng.chance(lively) {
                zone = match zone {
                    0 | 2 if c.rng.chance(jumpy) => 2 - zone,
                    0 | 2 => 1,
                    _ => {
                        if c.rng.chance(persist) {
                            // keep going
                        } else {
                            dir_up = !dir_up
                        }
                        let z = if dir_up { 2 } else { 0 };
                        dir_up = !dir_up;
                        z
                    }
                };
            }
            let x = match zone {
                0 => lo - c.rng.range(0.01, 3.0),
                1 => c.rng.range(lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo)),
                _ => hi + c.rng.range(0.01, 3.0),
            };
            if marked { mark(c, x, &[lo, hi]) } else { x }
        })
        .collect()
}

pub fn c26(c: &mut Case) -> R {
    let (n, k) = size(c);
    let axis = c.rng.below(3);
    let lo = *c.rng.pick(&[0.0, 1.0, -2.5, 40.0]);
    let hi = lo + c.rng.range(0.2, 3.0);
    let unit = length_unit(c);
    let paths: Vec<Vec<f64>> = (0..k).map(|_| zone_path(c, n, lo, hi).iter().map(|x| x * unit).collect()).collect();
    let (lo, hi) = (lo * unit, hi * unit);
    let rec = from_paths(c, axis, &paths);
    let sel = selection(c, &rec);
    c.log(sel.desc());
    c.log(format!("axis {axis} planes {lo} {hi} paths {:?}", paths));
    c.log(format!("times {:?}", rec.steps.iter().map(|s| s.t).collect::<Vec<_>>()));
    let mut mock = Mock::new(&rec);
    let psel = sel.build();
    let d = rec.dims;
    if c.idx % 4 == 0 {
        let mid = (d[0][axis] + d[1][axis]) / 2.0;
        for b in [
            (mid, d[1][axis] + 0.5 * unit),
            (d[0][axis] - 0.5 * unit, mid),
            (d[1][axis] + 0.1 * unit, d[1][axis] + 0.5 * unit),
            (d[0][axis] - unit, d[0][axis] - 0.5 * unit),
        ] {
            ensure!(
                refused(|| {
                    mock.m().circulation_time_two_boundary(&psel, axis, b);
                }),
                "plane-outside",
                "planes {b:?} outside {:?}..{:?} were not refused",
                d[0][axis],
                d[1][axis]
            );
            c.seen("plane outside refused");
        }
    }
    if lo < d[0][axis] || hi > d[1][axis] {
        return Ok(());
    }
    let zone = |x: f64| if x < lo { -1 } else if x > hi { 1 } else { 0 };
    let mut want: Vec<(f64, f64)> = vec![];
    for tr in tracks(&rec, &sel, axis) {
        let mut home = 0;
        let (mut clock, mut visited) = (0.0, false);
        for w in tr.windows(2) {
            let (a, b) = match (w[0].1, w[1].1) {
                (Some(a), Some(b)) if !a.is_nan() && !b.is_nan() => (zone(a), zone(b)),
                _ => continue,
            };
            let now = w[1].0;
            if a == b {
                continue;
            }
            if a * b == -1 {
                c.seen("jumps across both planes");
            }
            if a != 0 {
                c.seen("exits");
                if home == 0 {
                    home = a;
                    clock = now;
                } else if home == a {
                    if visited {
                        want.push((clock, now));
                    } else {
                        c.seen("restarts without visit");
                    }
                    visited = false;
                    clock = now;
                }
            }
            if b != 0 && home != 0 && b != home {
                visited = true;
            }
        }
    }
    let got = mock.m().circulation_time_two_boundary(&psel, axis, (lo, hi));
    for (s, e) in &got {
        ensure!(s < e, "order", "circulation from {s:?} to {e:?}");
    }
    same_events("circulations", &got, &want)?;
    c.see("circulations", want.len() as u64);
    c.nontrivial = !want.is_empty();
    Ok(())
}

pub fn c27(c: &mut Case) -> R {
    let g = GSpec::random(&mut c.rng, 3);
    let mut o = Opts::std();
    o.particles = (1, 6);
    o.steps = (1, 9);
    o.inf = c.rng.chance(0.2);
    let rec = random_rec(&mut c.rng, &g, &o);
    let n = rec.steps.len();
    let a = c.rng.below(n);
    let b = c.rng.int(a, n - 1);
    let k = rec.steps[a..b.max(a + 1)].iter().map(|s| s.pos.len()).min().unwrap();
    let i = c.rng.below(k);
    c.log(rec.desc());
    c.log(format!("particle {i} steps {a}..{b}"));
    let mut mock = Mock::new(&rec);
    let m = mock.m().extract(i, (a, b));
    ensure!(m.shape() == [b - a, 7], "shape", "shape {:?} for steps {a}..{b}", m.shape());
    for (row, k) in (a..b).enumerate() {
        let s = &rec.steps[k];
        let want = [s.t, s.pos[i][0], s.pos[i][1], s.pos[i][2], s.vel[i][0], s.vel[i][1], s.vel[i][2]];
        for j in 0..7 {
            let x = m[[row, j]];
            ensure!(
                x == want[j] || (x.is_nan() && want[j].is_nan()),
                "row",
                "row {row} column {j} is {x:?}, recorded {:?}",
                want[j]
            );
        }
        c.seen("rows compared");
    }
    for (x, y) in [(0, n), (n, n), (0, n + c.rng.int(1, 5)), (n + 2, n + 3)] {
        ensure!(
            refused(|| {
                mock.m().extract(0, (x, y));
            }),
            "range",
            "steps {x}..{y} of {n} were not refused"
        );
        c.seen("ranges refused");
    }
    // a particle that a step of the range does not hold
    if b > a {
        let i = k + c.rng.below(3);
        ensure!(
            refused(|| {
                mock.m().extract(i, (a, b));
            }),
            "particle",
            "particle {i} extracted from steps {a}..{b}, one of which holds {k} particles"
        );
        c.seen("absent particles refused");
    }
    c.nontrivial = b - a >= 2;
    Ok(())
}
