//! Runs the Rust API on request, so that check.py can compare what the Python layer gives.
//! One request per line, fields separated by tabs; the answer is a number of lines ended by "end".
use ndarray::{ArrayBase, Data, Dimension};
use plotly::Trace;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use upppp_rust::converter::*;
use upppp_rust::datamanager::{Manager, PData, TData};
use upppp_rust::grid::{CartesianGrid3D, CylindricalGrid3D, Dim, GridFunctions3D, VectorGrid};
use upppp_rust::parity_contour::ParityContour;
use upppp_rust::parity_map::ParityMap;
use upppp_rust::parity_plot::ParityPlot;
use upppp_rust::particleselector::{ParticleSelector, Selector};
use upppp_rust::quiver::QuiverPlot;
use upppp_rust::scalar_contour::ScalarContour;
use upppp_rust::scalar_map::ScalarMap;
use upppp_rust::unit_vector::UnitVectorPlot;

type Boxed = Box<dyn GridFunctions3D>;

enum Field {
    Scalar(Boxed),
    Vector(VectorGrid),
}

#[derive(Default)]
struct State {
    data: Option<Box<dyn Manager>>,
    selector: ParticleSelector,
    grid: Option<Boxed>,
    /// results of the last field analyses, for plots: the reference, and what it is compared with
    fields: Vec<Field>,
}

fn hex<'a>(v: impl Iterator<Item = &'a f64>) -> String {
    v.map(|x| format!("{:x}", if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })).collect::<Vec<_>>().join(" ")
}
fn arr<S: Data<Elem = f64>, D: Dimension>(out: &mut Vec<String>, a: &ArrayBase<S, D>) {
    let shape: Vec<String> = a.shape().iter().map(|n| n.to_string()).collect();
    out.push(format!("arr\t{}\t{}", shape.join(","), hex(a.iter())));
}
fn num(out: &mut Vec<String>, x: f64) {
    out.push(format!("arr\t\t{}", hex([x].iter())));
}
fn field(out: &mut Vec<String>, g: &Boxed) {
    arr(out, g.get_data());
    arr(out, g.get_weights());
}
fn f(s: &str) -> f64 {
    s.parse().unwrap_or_else(|_| panic!("REQUEST number {s:?}"))
}
fn u(s: &str) -> usize {
    s.parse().unwrap_or_else(|_| panic!("REQUEST count {s:?}"))
}
fn floats(s: &str) -> Vec<f64> {
    s.split(',').filter(|x| !x.is_empty()).map(f).collect()
}

fn call(s: &mut State, a: &[&str], out: &mut Vec<String>) {
    let g = || s.grid.clone().expect("REQUEST no grid");
    let sel = &s.selector;
    let d = s.data.as_mut().expect("REQUEST no data");
    match a[0] {
        "vectorfield" => {
            let v = d.vectorfield(g(), sel);
            v.data.iter().for_each(|c| field(out, c));
            s.fields.push(Field::Vector(v));
        }
        "velocityfield" => {
            let v = d.velocityfield(g(), sel, a[1], f(a[2]), f(a[3]));
            field(out, &v);
            s.fields.push(Field::Scalar(v));
        }
        "numberfield" => {
            let v = d.numberfield(g(), sel);
            field(out, &v);
            s.fields.push(Field::Scalar(v));
        }
        "occupancyfield" => {
            let v = d.occupancyfield(g(), sel, f(a[1]));
            field(out, &v);
            s.fields.push(Field::Scalar(v));
        }
        "granular_temperature" => {
            let v = d.granular_temperature_field(g(), sel, a[1]);
            field(out, &v);
            s.fields.push(Field::Scalar(v));
        }
        "concentration_field" => field(out, &d.concentration_field(g(), sel, u(a[1]), u(a[2]))),
        "msd_field" => field(out, &d.msd_field(g(), sel, f(a[1]))),
        "mean_velocity" => num(out, d.mean_velocity(sel)),
        "homogenity_index" => num(out, d.homogenity_index(g(), sel, f(a[1]))),
        "dispersion" => {
            let (v, e) = d.dispersion(g(), sel, f(a[1]));
            field(out, &v);
            num(out, e);
        }
        "histogram" => {
            let (h, e) = d.histogram(g(), sel, a[1], f(a[3]), u(a[2]));
            arr(out, &h);
            arr(out, &e);
        }
        "lacey_mixing_index" => {
            let (t, m) = d.lacey_mixing(g(), sel, u(a[1]), u(a[2]), u(a[3]));
            arr(out, &t);
            arr(out, &m);
        }
        "msd" => {
            let (m, t) = d.msd(g(), sel, f(a[1]), f(a[2]), u(a[3]));
            arr(out, &m);
            arr(out, &t);
        }
        "circulation_time" => arr(out, &ndarray::Array1::from(d.circulation_time(sel, u(a[2]), f(a[1])))),
        "circulation_time_two_boundary" => {
            let v = d.circulation_time_two_boundary(sel, u(a[3]), (f(a[1]), f(a[2])));
            let flat: Vec<f64> = v.iter().flat_map(|p| [p.0, p.1]).collect();
            arr(out, &ndarray::Array2::from_shape_vec((v.len(), 2), flat).unwrap());
        }
        "extract" => arr(out, &d.extract(u(a[1]), (u(a[2]), u(a[3])))),
        _ => panic!("REQUEST unknown analysis {}", a[0]),
    }
}

fn gradient(name: &str) -> Option<colorous::Gradient> {
    Some(match name {
        "turbo" => colorous::TURBO,
        "viridis" => colorous::VIRIDIS,
        "inferno" => colorous::INFERNO,
        "spectral" => colorous::SPECTRAL,
        "magma" => colorous::MAGMA,
        "plasma" => colorous::PLASMA,
        "cividis" => colorous::CIVIDIS,
        "warm" => colorous::WARM,
        "cool" => colorous::COOL,
        "cubehelix" => colorous::CUBEHELIX,
        "blue_green" => colorous::BLUE_GREEN,
        "blue_purple" => colorous::BLUE_PURPLE,
        "green_blue" => colorous::GREEN_BLUE,
        "orange_red" => colorous::ORANGE_RED,
        "purple_blue_green" => colorous::PURPLE_BLUE_GREEN,
        "purple_blue" => colorous::PURPLE_BLUE,
        "purple_red" => colorous::PURPLE_RED,
        "red_purple" => colorous::RED_PURPLE,
        "yellow_green_blue" => colorous::YELLOW_GREEN_BLUE,
        "yellow_green" => colorous::YELLOW_GREEN,
        "yellow_orange_brown" => colorous::YELLOW_ORANGE_BROWN,
        "yellow_orange_red" => colorous::YELLOW_ORANGE_RED,
        "blues" => colorous::BLUES,
        "greens" => colorous::GREENS,
        "greys" => colorous::GREYS,
        "oranges" => colorous::ORANGES,
        "purples" => colorous::PURPLES,
        "reds" => colorous::REDS,
        "brown_green" => colorous::BROWN_GREEN,
        "purple_green" => colorous::PURPLE_GREEN,
        "pink_green" => colorous::PINK_GREEN,
        "purple_orange" => colorous::PURPLE_ORANGE,
        "red_blue" => colorous::RED_BLUE,
        "red_grey" => colorous::RED_GREY,
        "red_yellow_blue" => colorous::RED_YELLOW_BLUE,
        "red_yellow_green" => colorous::RED_YELLOW_GREEN,
        "-" => return None,
        _ => panic!("REQUEST colour map {name}"),
    })
}

/// kind, axis, plane index or "-", then for arrows: scaling mode, smallest, largest size; colour map
fn plot(s: &State, a: &[&str], out: &mut Vec<String>) {
    let axis = u(a[1]);
    let at = (a[2] != "-").then(|| u(a[2]));
    let mut traces: Vec<Box<dyn Trace>> = vec![];
    macro_rules! each {
        ($v:expr) => {
            for t in $v {
                traces.push(t)
            }
        };
    }
    macro_rules! arrows {
        ($plotter:ident) => {{
            let Field::Vector(v) = &s.fields[0] else { panic!("REQUEST scalar field") };
            let p = match at {
                None => $plotter::from_vector_grid_depth_averaged(v.clone(), axis),
                Some(i) => $plotter::from_vector_grid_single_plane(v.clone(), axis, i),
            };
            let step = |c: &ndarray::Array1<f64>| c[1] - c[0];
            let p = match a[3] {
                "min" => p.bound_min(f(a[4])),
                "max" => p.bound_max(f(a[5])),
                "minmax" => p.bound_min_max(f(a[4]), f(a[5])),
                "half_node" => {
                    let (dx, dy) = (step(p.x()), step(p.y()));
                    p.bound_half_node(dx, dy)
                }
                "full_node" => {
                    let (dx, dy) = (step(p.x()), step(p.y()));
                    p.bound_full_node(dx, dy)
                }
                _ => p,
            };
            each!(p.create_quiver_traces(1.0, gradient(a[6])));
        }};
    }
    macro_rules! single {
        ($plotter:ident) => {
            match (&s.fields[0], at) {
                (Field::Vector(v), None) => $plotter::from_vector_grid_depth_averaged(v.clone(), axis),
                (Field::Vector(v), Some(i)) => $plotter::from_vector_grid_single_plane(v.clone(), axis, i),
                (Field::Scalar(g), None) => $plotter::from_grid_depth_averaged(g.clone(), axis),
                (Field::Scalar(g), Some(i)) => $plotter::from_grid_single_plane(g.clone(), axis, i),
            }
        };
    }
    macro_rules! pair {
        ($plotter:ident) => {
            match (&s.fields[0], &s.fields[1], at) {
                (Field::Vector(v), Field::Vector(w), None) => $plotter::from_vector_grids_depth_averaged(v.clone(), w.clone(), axis),
                (Field::Vector(v), Field::Vector(w), Some(i)) => $plotter::from_vector_grids_single_plane(v.clone(), w.clone(), axis, i),
                (Field::Scalar(g), Field::Scalar(h), None) => $plotter::from_grids_depth_averaged(g.clone(), h.clone(), axis),
                (Field::Scalar(g), Field::Scalar(h), Some(i)) => $plotter::from_grids_single_plane(g.clone(), h.clone(), axis, i),
                _ => panic!("REQUEST mixed fields"),
            }
        };
    }
    match a[0] {
        "quiver_plot" => arrows!(QuiverPlot),
        "unit_vector_plot" => arrows!(UnitVectorPlot),
        "scalar_map" => each!(single!(ScalarMap).create_scalar_map(gradient(a[3]))),
        "scalar_contour" => each!(single!(ScalarContour).create_scalar_contour(gradient(a[3]))),
        "parity_plot" => each!(pair!(ParityPlot).create_parity_scatter()),
        "parity_map" => each!(pair!(ParityMap).create_parity_map()),
        "parity_contour" => each!(pair!(ParityContour).create_parity_contour()),
        _ => panic!("REQUEST unknown plot {}", a[0]),
    }
    out.push(format!("json\t[{}]", traces.iter().map(|t| t.to_json()).collect::<Vec<_>>().join(",")));
}

fn convert(a: &[&str]) {
    let list = |s: &'_ str| -> Vec<String> { s.split('|').map(|x| x.to_string()).collect() };
    let cols = |s: &str| -> Vec<i64> { s.split(',').map(|x| x.parse().expect("REQUEST column")).collect() };
    let yes = |s: &str| s == "true";
    match a[0] {
        "csv" => csv_converter(a[1], a[2], cols(a[3]), a[4], yes(a[5]), a[6], yes(a[7]), yes(a[8]), f(a[9]), u(a[10])),
        "csv_multi" => csv_multi_converter(a[1], a[2], cols(a[3]), a[4], yes(a[5]), a[6], yes(a[7]), yes(a[8]), f(a[9]), a[10]),
        "csv_multi_files" => {
            let names = list(a[1]);
            let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            csv_multi_file_time_step(names, a[2], cols(a[3]), floats(a[10]), a[4], yes(a[5]), a[6], yes(a[7]), yes(a[8]), f(a[9]))
        }
        // files or folder, out, time step, filter, velocity, radius, id, type, diameter
        "vtk" | "vtk_from_folder" => {
            let names = list(a[1]);
            let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            macro_rules! go {
                ($c:expr) => {{
                    let c = $c.add_velocity_field(a[5]).add_id_field(a[7]).add_type_field(a[8]);
                    let c = if a[9] == "-" { c.add_radius_field(a[6]) } else { c.add_diameter_field(a[9]) };
                    if a[0] == "vtk" {
                        c.write_hdf5_from_files(names, f(a[3]), a[2], a[4])
                    } else {
                        c.write_hdf5_from_folder(a[1], f(a[3]), a[2], a[4])
                    }
                }};
            }
            if a[4].contains(".vtk") {
                go!(LegacyVTKConverter::new())
            } else if a[4].contains(".vtu") {
                go!(XMLVTKConverter::new(VTKType::UnstructuredGrid))
            } else {
                go!(XMLVTKConverter::new(VTKType::PolyData))
            }
        }
        _ => panic!("REQUEST unknown converter {}", a[0]),
    }
    hdf5::stub::dump(a[2]).expect("REQUEST dump");
}

fn request(s: &mut State, a: &[&str], out: &mut Vec<String>) {
    match a[0] {
        "open" => {
            s.data = Some(if a[1] == "p" { Box::new(PData::new(a[2])) } else { Box::new(TData::new(a[2])) });
            s.selector = ParticleSelector::default();
            s.fields.clear();
        }
        "time" => s.selector.set_time(f(a[1]), f(a[2])),
        "grid" => {
            let n = [u(a[2]), u(a[3]), u(a[4])];
            let l = Dim::ThreeD([[f(a[5]), f(a[6])], [f(a[7]), f(a[8])], [f(a[9]), f(a[10])]]);
            s.grid = Some(if a[1] == "cartesian" { Box::new(CartesianGrid3D::new(n, l)) } else { Box::new(CylindricalGrid3D::new(n, l, "volume")) });
            let g = s.grid.as_ref().unwrap();
            arr(out, g.get_xpositions());
            arr(out, g.get_ypositions());
            arr(out, g.get_zpositions());
            arr(out, &ndarray::arr2(g.get_limits()));
        }
        "call" => call(s, &a[1..], out),
        "fields" => s.fields.clear(),
        // how the last field prints
        "show" => {
            for text in match s.fields.last() {
                Some(Field::Scalar(g)) => [format!("{g}"), format!("{g:?}")],
                Some(Field::Vector(g)) => [format!("{g}"), format!("{g:?}")],
                None => panic!("REQUEST no field"),
            } {
                out.push(text.replace('\n', "\u{1f}"));
            }
        }
        "plot" => plot(s, &a[1..], out),
        "convert" => convert(&a[1..].iter().map(|x| if *x == "TAB" { "\t" } else { *x }).collect::<Vec<_>>()),
        "forget" => {
            hdf5::stub::forget(a[1]);
        }
        "free" => *s = State::default(),
        _ => panic!("REQUEST unknown {}", a[0]),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("peer: {i}")));
    // the code under test prints to stdout: answers go to the file given as argument
    let path = std::env::args().nth(1).expect("answer file");
    let mut answers = std::fs::OpenOptions::new().write(true).open(path).expect("answer file");
    let mut s = State::default();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("request");
        let a: Vec<&str> = line.split('\t').collect();
        let mut out = vec![];
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| request(&mut s, &a, &mut out))) {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            out = vec![format!("panic\t{}", m.replace(['\n', '\t'], " "))];
        }
        out.push("end\n".into());
        answers.write_all(out.join("\n").as_bytes()).expect("answer");
    }
}
