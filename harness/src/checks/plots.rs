//! C46-C48: what the two-dimensional plots show.
use crate::geo::{GSpec, Grid};
use crate::rec::{close, Case, R};
use crate::rng::Rng;
use crate::{ensure, fail};
use colorous::Gradient;
use ndarray::prelude::*;
use ndarray::ShapeBuilder;
use plotly::common::ColorScale;
use plotly::{Contour, HeatMap, Layout, Scatter, Trace};
use upppp_rust::plotting::parity_contour::ParityContour;
use upppp_rust::plotting::parity_map::ParityMap;
use upppp_rust::plotting::parity_plot::ParityPlot;
use upppp_rust::plotting::quiver::QuiverPlot;
use upppp_rust::plotting::scalar_contour::ScalarContour;
use upppp_rust::plotting::scalar_map::ScalarMap;
use upppp_rust::plotting::unit_vector::UnitVectorPlot;
use upppp_rust::{GridFunctions3D, VectorGrid};

/// one field per component and their common weights
struct Field {
    d: Vec<Array3<f64>>,
    w: Array3<f64>,
}

/// the same elements, the memory laid out differently
fn relaid(a: Array3<f64>, column_major: bool) -> Array3<f64> {
    if !column_major {
        return a;
    }
    let mut o = Array3::zeros(a.dim().f());
    o.assign(&a);
    o
}

impl Field {
    fn random(s: &GSpec, r: &mut Rng, components: usize) -> Field {
        let zeros = r.chance(0.2);
        let empty = r.chance(0.4);
        let hole = r.chance(0.2);
        let axis = r.below(3);
        let plane = r.below(s.cells[axis]);
        // a cell without sightings holds nothing and weighs nothing
        let w = Array3::from_shape_fn(s.cells, |(i, j, k)| {
            let out = hole && [i, j, k][axis] == plane;
            if out || (empty && r.chance(0.3)) { 0.0 } else { r.int(1, 5) as f64 * if r.chance(0.3) { 0.5 } else { 1.0 } }
        });
        let nan = r.chance(0.7);
        let d = (0..components)
            .map(|_| {
                Array3::from_shape_fn(s.cells, |c| {
                    if w[c] == 0.0 { if nan { f64::NAN } else { 0.0 } } else if zeros && r.chance(0.5) { 0.0 } else { r.value() }
                })
            })
            .collect();
        Field { d, w }
    }
    /// the field made of other values with the same gaps
    fn altered(&self, r: &mut Rng) -> Field {
        let f = *r.pick(&[0.5, 1.0, 2.0]);
        Field { d: self.d.iter().map(|a| a.mapv(|x| f * x + if r.chance(0.5) { r.value() } else { 0.0 })).collect(), w: self.w.clone() }
    }
    fn grid(&self, s: &GSpec, i: usize, column_major: bool) -> Grid {
        let mut g = s.build();
        g.set_weights(relaid(self.w.clone(), column_major));
        g.set_data(relaid(self.d[i].clone(), column_major));
        g
    }
    fn vector(&self, s: &GSpec, column_major: bool) -> VectorGrid {
        let mut v = VectorGrid::new(s.build());
        for i in 0..3 {
            v.data[i] = self.grid(s, i, column_major);
        }
        v
    }
    /// values of one component on a plane, or averaged along the axis, and the magnitude of their terms
    fn plane(&self, s: &GSpec, i: usize, axis: usize, index: Option<usize>) -> (Array2<f64>, f64) {
        let d = &self.d[i];
        let mut mag = 0.0f64;
        if let Some(k) = index {
            let p = d.index_axis(Axis(axis), k).to_owned();
            return (p, 0.0);
        }
        let rest = rest(axis);
        let p = Array2::from_shape_fn((s.cells[rest.0], s.cells[rest.1]), |(a, b)| {
            let (mut sum, mut wt, mut m) = (0.0, 0.0, 0.0);
            for k in 0..s.cells[axis] {
                let mut c = [0; 3];
                c[axis] = k;
                c[rest.0] = a;
                c[rest.1] = b;
                if !d[c].is_nan() {
                    sum += d[c] * self.w[c];
                    m += (d[c] * self.w[c]).abs();
                }
                wt += self.w[c];
            }
            if wt > 0.0 {
                mag = mag.max(m / wt);
            }
            sum / wt
        });
        (p, mag)
    }
    /// in-plane components of a vector field
    fn in_plane(&self, s: &GSpec, axis: usize, index: Option<usize>) -> (Array2<f64>, Array2<f64>, f64) {
        let rest = rest(axis);
        let (u, m) = self.plane(s, rest.0, axis, index);
        let (v, n) = self.plane(s, rest.1, axis, index);
        (u, v, m.max(n))
    }
}

fn rest(axis: usize) -> (usize, usize) {
    [(1, 2), (0, 2), (0, 1)][axis]
}
fn norm(u: &Array2<f64>, v: &Array2<f64>) -> Array2<f64> {
    Array2::from_shape_fn(u.dim(), |c| (u[c] * u[c] + v[c] * v[c]).sqrt())
}
fn size(s: &GSpec) -> f64 {
    s.lim.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()))
}
/// index of the cell whose middle is at v
fn at(s: &GSpec, axis: usize, v: f64) -> Option<usize> {
    (0..s.cells[axis]).find(|i| close(v, s.mid(axis, *i), size(s)))
}

fn gradient(r: &mut Rng) -> Option<Gradient> {
    let all = [colorous::VIRIDIS, colorous::TURBO, colorous::INFERNO, colorous::SPECTRAL, colorous::BLUES, colorous::CUBEHELIX];
    if r.chance(0.3) { None } else { Some(*r.pick(&all)) }
}
fn channels(s: &str) -> Option<[i32; 3]> {
    let h = s.strip_prefix('#').filter(|h| h.len() == 6)?;
    let c = |i| i32::from_str_radix(&h[i..i + 2], 16).ok();
    Some([c(0)?, c(2)?, c(4)?])
}
fn same_colour(got: &str, g: &Gradient, t: f64) -> bool {
    let want = g.eval_continuous(t);
    let want = [want.r as i32, want.g as i32, want.b as i32];
    channels(got).is_some_and(|c| (0..3).all(|i| (c[i] - want[i]).abs() <= 2))
}
fn check_scale(scale: &Option<ColorScale>, g: Option<Gradient>) -> R {
    let Some(ColorScale::Vector(v)) = scale else { fail!("scale", "no colour scale") };
    let g = g.unwrap_or(colorous::PLASMA);
    ensure!(v.len() > 1 && v[0].0 == 0.0 && v[v.len() - 1].0 == 1.0, "scale", "the colour scale does not span 0 to 1: {v:?}");
    for (i, e) in v.iter().enumerate() {
        ensure!(i == 0 || e.0 > v[i - 1].0, "scale", "the colour scale does not ascend: {v:?}");
        ensure!(same_colour(&e.1, &g, e.0), "scale", "the colour scale has {} at {}, {g:?} is {:x} there", e.1, e.0, g.eval_continuous(e.0));
    }
    Ok(())
}

/// flat x, y, z: every cell of the plane exactly once, at its middle, with its value
fn check_flat(c: &mut Case, s: &GSpec, axis: usize, x: &[f64], y: &[f64], z: &[f64], want: &Array2<f64>, mag: f64, what: &str) -> R {
    let (a, b) = rest(axis);
    ensure!(x.len() == want.len() && y.len() == want.len() && z.len() == want.len(), "entries",
        "{what}, axis {axis}: {} x, {} y and {} values for a plane of {:?} cells", x.len(), y.len(), z.len(), want.dim());
    let mut seen = Array2::from_elem(want.dim(), false);
    for k in 0..x.len() {
        let (Some(i), Some(j)) = (at(s, a, x[k]), at(s, b, y[k])) else {
            fail!("position", "{what}, axis {axis}: entry {k} at ({}, {}), no cell of the plane has its middle there", x[k], y[k])
        };
        ensure!(!seen[[i, j]], "position", "{what}, axis {axis}: two entries for cell {i},{j}");
        seen[[i, j]] = true;
        let w = want[[i, j]];
        if w == f64::INFINITY || w == f64::NEG_INFINITY {
            continue;
        }
        ensure!(close(z[k], w, mag), "value", "{what}, axis {axis}: cell {i},{j} at ({}, {}) shown with {}, its value is {w}", x[k], y[k], z[k]);
        c.seen(if w.is_nan() { "empty plane cells" } else { "plane cells compared" });
    }
    Ok(())
}

fn spec(r: &mut Rng, min: usize) -> GSpec {
    let mut s = GSpec::random(r, 6);
    for n in s.cells.iter_mut() {
        *n = (*n).max(min);
    }
    s
}

pub fn c46(c: &mut Case) -> R {
    let s = spec(&mut c.rng, 1);
    let vector = c.rng.chance(0.5);
    let f = Field::random(&s, &mut c.rng, if vector { 3 } else { 1 });
    let cm = c.rng.chance(0.3);
    c.log(format!("{} {} column major {cm} values {:?}", s.desc(), if vector { "vector" } else { "scalar" }, f.d[0].iter().take(6).collect::<Vec<_>>()));
    let g = gradient(&mut c.rng);
    let o = f.altered(&mut c.rng);
    let value = |f: &Field, axis: usize, index: Option<usize>| {
        if vector {
            let (u, v, m) = f.in_plane(&s, axis, index);
            (norm(&u, &v), m)
        } else {
            f.plane(&s, 0, axis, index)
        }
    };
    for axis in 0..3 {
        let (a, b) = rest(axis);
        let plane = c.rng.below(s.cells[axis]);
        for index in [None, Some(plane)] {
            c.seen(if index.is_some() { "single planes" } else { "depth averages" });
            c.seen(if s.cyl { "cylindrical planes" } else { "cartesian planes" });
            c.seen(if vector { "vector fields" } else { "scalar fields" });
            if cm {
                c.seen("column-major fields");
            }
            let (want, mag) = value(&f, axis, index);
            // map
            let m = match (vector, index) {
                (true, None) => ScalarMap::from_vector_grid_depth_averaged(f.vector(&s, cm), axis),
                (true, Some(k)) => ScalarMap::from_vector_grid_single_plane(f.vector(&s, cm), axis, k),
                (false, None) => ScalarMap::from_grid_depth_averaged(f.grid(&s, 0, cm), axis),
                (false, Some(k)) => ScalarMap::from_grid_single_plane(f.grid(&s, 0, cm), axis, k),
            };
            let t = m.create_scalar_map(g);
            ensure!(t.len() == 1, "entries", "scalar map of {} traces", t.len());
            let h: &HeatMap<f64, f64, f64> = &t[0];
            check_flat(c, &s, axis, h.x.as_deref().unwrap_or(&[]), h.y.as_deref().unwrap_or(&[]), &h.z, &want, mag, "scalar map")?;
            check_scale(&h.color_scale, g)?;
            let n = h.z.len();
            let p = upppp_rust::plotting::plot(t.into_iter().map(|t| t as Box<dyn Trace>).collect(), Layout::new());
            ensure!(p.traces.len() == 1 && p.traces[0].as_any().downcast_ref::<HeatMap<f64, f64, f64>>().is_some_and(|h| h.z.len() == n), "entries", "the plot does not hold the map");
            // contour
            let m = match (vector, index) {
                (true, None) => ScalarContour::from_vector_grid_depth_averaged(f.vector(&s, cm), axis),
                (true, Some(k)) => ScalarContour::from_vector_grid_single_plane(f.vector(&s, cm), axis, k),
                (false, None) => ScalarContour::from_grid_depth_averaged(f.grid(&s, 0, cm), axis),
                (false, Some(k)) => ScalarContour::from_grid_single_plane(f.grid(&s, 0, cm), axis, k),
            };
            let t = m.create_scalar_contour(g);
            ensure!(t.len() == 1, "entries", "scalar contour of {} traces", t.len());
            let k: &Contour<Vec<f64>> = &t[0];
            check_scale(&k.color_scale, g)?;
            let (x, y) = (k.x.clone().unwrap_or_default(), k.y.clone().unwrap_or_default());
            ensure!(x.len() == s.cells[a] && y.len() == s.cells[b] && k.z.len() == y.len() && k.z.iter().all(|r| r.len() == x.len()), "entries",
                "scalar contour, axis {axis}: {} x, {} y, {} rows of {:?} values for a plane of {:?} cells", x.len(), y.len(), k.z.len(), k.z.first().map(|r| r.len()), want.dim());
            let (mut fx, mut fy, mut fz) = (vec![], vec![], vec![]);
            for (j, row) in k.z.iter().enumerate() {
                for (i, z) in row.iter().enumerate() {
                    fx.push(x[i]);
                    fy.push(y[j]);
                    fz.push(*z);
                }
            }
            let flip = k.transpose == Some(true);
            ensure!(!flip, "entries", "transposed contour");
            check_flat(c, &s, axis, &fx, &fy, &fz, &want, mag, "scalar contour")?;
            c.seen("contours");
            // differences
            let (other, m2) = value(&o, axis, index);
            let mag = mag.max(m2);
            let mode = c.rng.below(4);
            let delta = Array2::from_shape_fn(want.dim(), |i| {
                let d = want[i] - other[i];
                match mode {
                    2 => d / want[i] * 100.0,
                    3 => d.abs(),
                    _ => d,
                }
            });
            let scale = match mode {
                2 => want.iter().zip(other.iter()).fold(0.0f64, |m, (w, o)| if *w != 0.0 && w.is_finite() { m.max(100.0 * (o / w).abs()).max(100.0 * mag / w.abs()) } else { m }),
                _ => want.iter().chain(other.iter()).fold(mag, |m, v| m.max(v.abs())),
            };
            macro_rules! parity {
                ($t:ident, $make:ident, $name:expr) => {{
                    let p = match (vector, index) {
                        (true, None) => $t::from_vector_grids_depth_averaged(f.vector(&s, cm), o.vector(&s, cm), axis),
                        (true, Some(k)) => $t::from_vector_grids_single_plane(f.vector(&s, cm), o.vector(&s, cm), axis, k),
                        (false, None) => $t::from_grids_depth_averaged(f.grid(&s, 0, cm), o.grid(&s, 0, cm), axis),
                        (false, Some(k)) => $t::from_grids_single_plane(f.grid(&s, 0, cm), o.grid(&s, 0, cm), axis, k),
                    };
                    let p = match mode {
                        0 => p,
                        1 => p.delta_as_percent().delta_as_difference(),
                        2 => p.delta_as_percent(),
                        _ => p.delta_as_absolute_difference(),
                    };
                    let t = p.$make();
                    ensure!(t.len() == 1, "entries", "{} of {} traces", $name, t.len());
                    let h: &HeatMap<f64, f64, f64> = &t[0];
                    check_flat(c, &s, axis, h.x.as_deref().unwrap_or(&[]), h.y.as_deref().unwrap_or(&[]), &h.z, &delta, scale, $name)?;
                }};
            }
            parity!(ParityMap, create_parity_map, "parity map");
            parity!(ParityContour, create_parity_contour, "parity contour");
            c.seen(["differences", "differences", "relative differences", "absolute differences"][mode]);
        }
    }
    c.nontrivial = s.n() > 1;
    Ok(())
}

/// the arrows of the model
struct Arrows {
    u: Array2<f64>,
    v: Array2<f64>,
    /// magnitude of the field before any scaling
    true_norm: Array2<f64>,
}
impl Arrows {
    fn norm(&self) -> Array2<f64> {
        norm(&self.u, &self.v)
    }
    fn scale(&mut self, f: impl Fn(f64) -> f64) {
        let n = self.norm();
        for (i, n) in n.indexed_iter() {
            let k = f(*n);
            self.u[i] *= k;
            self.v[i] *= k;
        }
    }
    fn longest(&self) -> f64 {
        self.norm().iter().fold(f64::NAN, |m, n| m.max(*n))
    }
    fn has_zero(&self) -> bool {
        self.norm().iter().any(|n| *n == 0.0)
    }
}

/// arrows in any order, one per cell of the plane
fn check_arrows(c: &mut Case, s: &GSpec, axis: usize, a: &Arrows, ratio: f64, t: &[Box<dyn Trace>], colours: Option<Option<Gradient>>, mag: f64, what: &str) -> R {
    let rs = rest(axis);
    ensure!(t.len() == a.u.len(), "arrows", "{what}, axis {axis}: {} arrows for {} cells", t.len(), a.u.len());
    let n = a.norm();
    let (lo, hi) = a.true_norm.iter().fold((f64::NAN, f64::NAN), |(l, h), v| (l.min(*v), h.max(*v)));
    let mut seen = Array2::from_elem(n.dim(), false);
    for t in t {
        let Some(t) = t.as_any().downcast_ref::<Scatter<f64, f64>>() else { fail!("arrows", "{what}: not a line") };
        ensure!(t.x.len() == 5 && t.y.len() == 5, "arrows", "{what}: arrow of {} points", t.x.len());
        let (Some(i), Some(j)) = (at(s, rs.0, t.x[0]), at(s, rs.1, t.y[0])) else {
            fail!("base", "{what}, axis {axis}: an arrow starts at ({}, {}), no cell of the plane has its middle there", t.x[0], t.y[0])
        };
        let e = [i, j];
        ensure!(!seen[e], "base", "{what}, axis {axis}: two arrows for cell {e:?}");
        seen[e] = true;
        let (u, v) = (a.u[e] * ratio, a.v[e]);
        let len = u.hypot(v);
        let here = mag.max(size(s)).max(len);
        ensure!(close(t.x[1] - t.x[0], u, here) && close(t.y[1] - t.y[0], v, here), "shaft",
            "{what}, axis {axis}: the arrow of cell {e:?} is ({}, {}), should be ({u}, {v})", t.x[1] - t.x[0], t.y[1] - t.y[0]);
        if !u.is_finite() || !v.is_finite() {
            c.seen("empty plane cells");
        } else {
            ensure!(close(t.x[4], t.x[1], here) && close(t.y[4], t.y[1], here), "head", "{what}: the head is not closed");
            if len > 1e-6 * here {
                // the head: both barbs reach back from the tip, 20 degrees to either side of the shaft
                let head = 0.3 * n[e];
                let ang = std::f64::consts::PI / 9.0;
                let barb = |k: f64| {
                    let (cs, sn) = ((k * ang).cos(), (k * ang).sin());
                    let (du, dv) = (u / len, v / len);
                    (t.x[1] - head * (du * cs - dv * sn), t.y[1] - head * (du * sn + dv * cs))
                };
                let is = |k: usize, b: (f64, f64)| close(t.x[k], b.0, here.max(head)) && close(t.y[k], b.1, here.max(head));
                let (l, r) = (barb(1.0), barb(-1.0));
                ensure!((is(2, l) && is(3, r)) || (is(2, r) && is(3, l)), "head",
                    "{what}, axis {axis}, ratio {ratio}: arrow ({u}, {v}) from ({}, {}) has its head at ({}, {}) and ({}, {}), should be {l:?} and {r:?}",
                    t.x[0], t.y[0], t.x[2], t.y[2], t.x[3], t.y[3]);
                c.seen("arrow heads");
            }
            c.seen("arrows compared");
        }
        let fill = t.fill_color.as_ref().map(|f| f.0.clone()).unwrap_or_default();
        let line = t.line.as_ref().and_then(|l| l.color.as_ref()).map(|f| f.0.clone()).unwrap_or_default();
        match colours {
            Some(Some(g)) if hi - lo > 1e-6 * hi && a.true_norm[e].is_finite() => {
                let k = (a.true_norm[e] - lo) / (hi - lo);
                ensure!(same_colour(&fill, &g, k) && same_colour(&line, &g, k), "colour",
                    "{what}, axis {axis}: the arrow of a vector of {} (of {lo} to {hi}) is drawn {fill}/{line}, {g:?} is {:x} at {k}", a.true_norm[e], g.eval_continuous(k));
                c.seen("arrow colours");
            }
            Some(Some(_)) => {}
            _ => ensure!(fill.to_lowercase() == "black" && line.to_lowercase() == "black", "colour", "{what}: arrow drawn {fill}/{line}"),
        }
    }
    Ok(())
}

/// applies random scalings to the plot and to the model
macro_rules! scalings {
    ($c:expr, $p:ident, $m:ident, $s:expr, $axis:expr, $done:ident) => {
        for _ in 0..$c.rng.below(4) {
            let longest = $m.longest();
            if !(longest > 0.0) {
                break;
            }
            let (a, b) = (longest * $c.rng.range(0.05, 0.5), longest * $c.rng.range(0.5, 1.2));
            let (dx, dy) = ($c.rng.range(0.1, 3.0), $c.rng.range(0.1, 3.0));
            let op = $c.rng.below(7);
            let zero = $m.has_zero();
            match op {
                0 => {
                    $p = $p.scale_global(a);
                    $m.scale(|_| a);
                }
                1 => {
                    let k = Array2::from_shape_fn($m.u.dim(), |_| $c.rng.range(0.2, 3.0));
                    $p = $p.scale_elementwise(k.clone());
                    $m.u *= &k;
                    $m.v *= &k;
                }
                2 if !zero => {
                    $p = $p.bound_min(a);
                    $m.scale(|n| if n < a { a / n } else { 1.0 });
                    ensure!($m.norm().iter().all(|n| n.is_nan() || *n > a * 0.999), "model", "MONITOR");
                }
                3 => {
                    $p = $p.bound_max(b);
                    $m.scale(|n| if n > b { b / n } else { 1.0 });
                }
                4 if !zero => {
                    $p = $p.bound_min_max(a, b);
                    $m.scale(|n| if n > b { b / n } else if n < a { a / n } else { 1.0 });
                }
                5 => {
                    $p = $p.bound_half_node(dx, dy);
                    $m.u.mapv_inplace(|u| u * 0.5 * dx / longest);
                    $m.v.mapv_inplace(|v| v * 0.5 * dy / longest);
                }
                6 => {
                    $p = $p.bound_full_node(dx, dy);
                    $m.u.mapv_inplace(|u| u * dx / longest);
                    $m.v.mapv_inplace(|v| v * dy / longest);
                }
                _ => continue,
            }
            let name = ["scale_global", "scale_elementwise", "bound_min", "bound_max", "bound_min_max", "bound_half_node", "bound_full_node"][op];
            $c.seen(name);
            $done.push(name);
            let n = $m.norm();
            let big = $m.longest();
            for (i, want) in n.indexed_iter() {
                ensure!(close($p.norm()[i], *want, big) && close($p.u()[i], $m.u[i], big) && close($p.v()[i], $m.v[i], big), "scaling",
                    "after {:?} (min {a}, max {b}, node {dx} x {dy}) cell {i:?} has ({}, {}) of length {}, should be ({}, {}) of length {want}",
                    $done, $p.u()[i], $p.v()[i], $p.norm()[i], $m.u[i], $m.v[i]);
            }
        }
    };
}

pub fn c47(c: &mut Case) -> R {
    let s = spec(&mut c.rng, 2);
    let mut f = Field::random(&s, &mut c.rng, 3);
    if c.rng.chance(0.15) {
        // a uniform stream
        let v = [c.rng.value(), c.rng.value(), c.rng.value()];
        for i in 0..3 {
            f.d[i].mapv_inplace(|x| if x.is_nan() { x } else { v[i] });
        }
    }
    let cm = c.rng.chance(0.3);
    c.log(format!("{} column major {cm} values {:?}", s.desc(), f.d.iter().map(|d| d.iter().take(4).cloned().collect::<Vec<_>>()).collect::<Vec<_>>()));
    let g = gradient(&mut c.rng);
    for axis in 0..3 {
        let (a, b) = rest(axis);
        let plane = c.rng.below(s.cells[axis]);
        for index in [None, Some(plane)] {
            c.seen(if index.is_some() { "single planes" } else { "depth averages" });
            let (u, v, mag) = f.in_plane(&s, axis, index);
            let n = norm(&u, &v);
            let ratio = *c.rng.pick(&[1.0, 1.0, 0.5, 2.5]);
            // quiver
            let mut q = match index {
                None => QuiverPlot::from_vector_grid_depth_averaged(f.vector(&s, cm), axis),
                Some(k) => QuiverPlot::from_vector_grid_single_plane(f.vector(&s, cm), axis, k),
            };
            let mut m = Arrows { u: u.clone(), v: v.clone(), true_norm: n.clone() };
            let mut done: Vec<&str> = vec![];
            scalings!(c, q, m, &s, axis, done);
            c.log(format!("axis {axis} plane {index:?} {done:?} ratio {ratio}"));
            let t = q.create_quiver_traces(ratio, g);
            ensure!(t.len() == n.len() + 1, "arrows", "{} traces for {} cells and the colour bar", t.len(), n.len());
            let (bar, arrows) = t.split_last().unwrap();
            check_arrows(c, &s, axis, &m, ratio, arrows, Some(g), mag, "quiver plot")?;
            let Some(bar) = bar.as_any().downcast_ref::<Scatter<f64, f64>>() else { fail!("bar", "no colour bar") };
            let Some(k) = &bar.marker else { fail!("bar", "no colour bar") };
            let (lo, hi) = n.iter().fold((f64::NAN, f64::NAN), |(l, h), v| (l.min(*v), h.max(*v)));
            ensure!(close(k.cmin.unwrap_or(f64::NAN), lo, mag) && close(k.cmax.unwrap_or(f64::NAN), hi, mag), "bar",
                "the colour bar goes from {:?} to {:?}, the field from {lo} to {hi}", k.cmin, k.cmax);
            ensure!(k.show_scale == Some(g.is_some()), "bar", "colour bar shown: {:?}, with a colour map: {}", k.show_scale, g.is_some());
            check_scale(&k.color_scale, g)?;
            c.seen("colour bars");
            // unit vectors
            let mut q = match index {
                None => UnitVectorPlot::from_vector_grid_depth_averaged(f.vector(&s, cm), axis),
                Some(k) => UnitVectorPlot::from_vector_grid_single_plane(f.vector(&s, cm), axis, k),
            };
            // a direction in units of half a cell; radial cells differ in size, the first two set the scale
            let cell = |axis: usize| s.mid(axis, 1) - s.mid(axis, 0);
            let (dx, dy) = (cell(a), cell(b));
            let part = |c: f64, n: f64, d: f64| if n > 0.0 { c / n * d / 2.0 } else { f64::NAN };
            let mut m = Arrows {
                u: Array2::from_shape_fn(n.dim(), |i| part(u[i], n[i], dx)),
                v: Array2::from_shape_fn(n.dim(), |i| part(v[i], n[i], dy)),
                true_norm: n.clone(),
            };
            // a small vector that is the average of large ones has no certain direction
            if n.iter().any(|n| *n > 0.0 && *n < 1e-4 * mag) {
                c.seen("uncertain directions");
                continue;
            }
            let mut done: Vec<&str> = vec![];
            scalings!(c, q, m, &s, axis, done);
            let t = q.create_quiver_traces(ratio, g);
            ensure!(t.len() == n.len() + 1, "arrows", "{} traces for {} cells and the background", t.len(), n.len());
            let (map, arrows) = t.split_last().unwrap();
            check_arrows(c, &s, axis, &m, ratio, arrows, None, m.longest().max(0.0), "unit vector plot")?;
            let Some(h) = map.as_any().downcast_ref::<HeatMap<f64, f64, f64>>() else { fail!("background", "no background") };
            check_flat(c, &s, axis, h.x.as_deref().unwrap_or(&[]), h.y.as_deref().unwrap_or(&[]), &h.z, &n, mag, "background of unit vectors")?;
            check_scale(&h.color_scale, g)?;
            c.seen("unit vector plots");
            c.nontrivial |= n.iter().any(|n| *n > 0.0);
        }
    }
    Ok(())
}

pub fn c48(c: &mut Case) -> R {
    let s = spec(&mut c.rng, 1);
    let vector = c.rng.chance(0.6);
    let f = Field::random(&s, &mut c.rng, if vector { 3 } else { 1 });
    let o = f.altered(&mut c.rng);
    let cm = [c.rng.chance(0.3), c.rng.chance(0.3)];
    c.log(format!("{} {} column major {cm:?} values {:?} / {:?}", s.desc(), if vector { "vector" } else { "scalar" }, f.d[0].iter().take(4).collect::<Vec<_>>(), o.d[0].iter().take(4).collect::<Vec<_>>()));
    for axis in 0..3 {
        let plane = c.rng.below(s.cells[axis]);
        for sel in 0..3 {
            let index = if sel == 2 { Some(plane) } else { None };
            let (r, k) = (f.vector_or(&s, cm[0]), o.vector_or(&s, cm[1]));
            let p = match (r, k) {
                (Kind::V(r), Kind::V(k)) => match sel {
                    0 => ParityPlot::from_vector_grids(r, k),
                    1 => ParityPlot::from_vector_grids_depth_averaged(r, k, axis),
                    _ => ParityPlot::from_vector_grids_single_plane(r, k, axis, plane),
                },
                (Kind::S(r), Kind::S(k)) => match sel {
                    0 => ParityPlot::from_grids(r, k),
                    1 => ParityPlot::from_grids_depth_averaged(r, k, axis),
                    _ => ParityPlot::from_grids_single_plane(r, k, axis, plane),
                },
                _ => unreachable!(),
            };
            // every pair of values of the same cell
            let mut want: Vec<(f64, f64)> = vec![];
            let mut mag = 0.0f64;
            let (ra, rb) = rest(axis);
            let comps: Vec<usize> = match (vector, sel) {
                (false, _) => vec![0],
                (true, 0) => vec![0, 1, 2],
                _ => vec![ra, rb],
            };
            for i in comps {
                if sel == 0 {
                    want.extend(f.d[i].iter().cloned().zip(o.d[i].iter().cloned()));
                } else {
                    let (a, m) = f.plane(&s, i, axis, index);
                    let (b, n) = o.plane(&s, i, axis, index);
                    mag = mag.max(m).max(n);
                    want.extend(a.iter().cloned().zip(b.iter().cloned()));
                }
            }
            let what = ["whole grid", "depth average", "single plane"][sel];
            let t = p.create_parity_scatter();
            ensure!(t.len() == 2, "traces", "{} traces, should be the line and the points", t.len());
            let (line, pts) = (&t[0], &t[1]);
            ensure!(pts.x.len() == want.len() && pts.y.len() == want.len(), "pairs", "{what}, axis {axis}: {} x and {} y for {} pairs", pts.x.len(), pts.y.len(), want.len());
            let mut left: Vec<(f64, f64)> = want.clone();
            for k in 0..pts.x.len() {
                let hit = left.iter().position(|(a, b)| close(pts.x[k], *a, mag) && close(pts.y[k], *b, mag));
                let Some(h) = hit else {
                    fail!("pairs", "{what}, axis {axis}: point ({}, {}) is no pair of values of one cell", pts.x[k], pts.y[k])
                };
                left.remove(h);
            }
            c.see("pairs compared", want.len() as u64);
            c.seen(what);
            c.seen(if vector { "vector fields" } else { "scalar fields" });
            // the line of equal values, as long as the values reach
            ensure!(line.x.len() == 2 && line.y.len() == 2, "line", "parity line of {} points", line.x.len());
            let all: Vec<f64> = want.iter().flat_map(|p| [p.0, p.1]).filter(|v| v.is_finite()).collect();
            if !all.is_empty() {
                ensure!(line.x[0] == line.y[0] && line.x[1] == line.y[1], "line", "the parity line goes from ({}, {}) to ({}, {})", line.x[0], line.y[0], line.x[1], line.y[1]);
                let (lo, hi) = all.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(*v), h.max(*v)));
                let tol = 1e-9 * mag.max(lo.abs()).max(hi.abs());
                ensure!(line.x[0] <= lo + tol && line.x[1] >= hi - tol, "line",
                    "{what}, axis {axis}: the parity line covers {} to {}, the values {lo} to {hi}", line.x[0], line.x[1]);
                c.seen("parity lines");
            }
        }
    }
    c.nontrivial = s.n() > 1;
    Ok(())
}

enum Kind {
    V(VectorGrid),
    S(Grid),
}
impl Field {
    fn vector_or(&self, s: &GSpec, cm: bool) -> Kind {
        if self.d.len() == 3 { Kind::V(self.vector(s, cm)) } else { Kind::S(self.grid(s, 0, cm)) }
    }
}
