//! Recordings as files of the stand-in HDF5 library, and the reference of what reading them must give.
use crate::data::{Recording, Step};
use crate::rec::R;
use crate::{ensure, fail};
use hdf5::File;
use ndarray::prelude::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use upppp_rust::datamanager::{GlobalStats, Timestep};

static N: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed (with the registry entries of its files) when dropped.
pub struct Scratch {
    pub dir: PathBuf,
    made: std::cell::RefCell<Vec<String>>,
}
impl Scratch {
    pub fn new() -> Scratch {
        let n = N.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("up4verif-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Scratch { dir, made: Default::default() }
    }
    pub fn path(&self, name: &str) -> String {
        let p = self.dir.join(name).to_str().unwrap().to_string();
        self.made.borrow_mut().push(p.clone());
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for p in self.made.borrow().iter() {
            hdf5::stub::forget(p);
            vtkio::stub::forget(p);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// What a file of either layout may lack or how it may store things.
#[derive(Clone, Debug)]
pub struct Layout {
    pub radius: bool,
    pub ptype: bool,
    pub density: bool,
    /// ids and types as unsigned integers instead of floats
    pub ints: bool,
    pub sample_rate: f64,
}
impl Layout {
    pub fn full() -> Layout {
        Layout { radius: true, ptype: true, density: true, ints: false, sample_rate: 1.0 }
    }
}

pub fn velocity_stats(rec: &Recording) -> Array2<f64> {
    let mut m = Array2::<f64>::zeros((3, 3));
    for a in 0..3 {
        let v: Vec<f64> = rec.steps.iter().flat_map(|s| s.vel.iter().map(move |v| v[a])).filter(|x| x.is_finite()).collect();
        if !v.is_empty() {
            m[[a, 0]] = v.iter().cloned().fold(f64::INFINITY, f64::min);
            m[[a, 1]] = v.iter().sum::<f64>() / v.len() as f64;
            m[[a, 2]] = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        }
    }
    m
}

fn attributes(f: &File, rec: &Recording, n: usize, kind: i32, sample_rate: f64) {
    let d = rec.dims;
    let t: Vec<f64> = rec.steps.iter().map(|s| s.t).collect();
    f.new_attr::<u8>().create("hdf5_up4_type").unwrap().write_scalar(&kind).unwrap();
    let dims = array![[d[0][0], d[0][1], d[0][2]], [d[1][0], d[1][1], d[1][2]]];
    f.new_attr_builder().with_data(&dims).create("dimensions").unwrap();
    f.new_attr::<u64>().create("particle number").unwrap().write_scalar(&(n as u64)).unwrap();
    f.new_attr::<u64>().create("timesteps").unwrap().write_scalar(&(t.len() as u64)).unwrap();
    f.new_attr::<f64>().create("sample rate").unwrap().write_scalar(&sample_rate).unwrap();
    let range = array![t.first().copied().unwrap_or(0.0), t.last().copied().unwrap_or(0.0)];
    f.new_attr_builder().with_data(&range).create("time").unwrap();
    f.new_attr_builder().with_data(&velocity_stats(rec)).create("velocity").unwrap();
    f.new_attr_builder().with_data(&Array1::from(rec.vmag.to_vec())).create("velocity magnitude").unwrap();
    f.new_dataset_builder().with_data(&Array1::from(t)).create("time array").unwrap();
}

fn rows(v: &[[f64; 3]]) -> Array2<f64> {
    let mut a = Array2::<f64>::zeros((v.len(), 3));
    for (i, x) in v.iter().enumerate() {
        for k in 0..3 {
            a[[i, k]] = x[k];
        }
    }
    a
}

fn put(g: &hdf5::Group, name: &str, v: Vec<f64>, ints: bool) {
    if ints {
        let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
        g.new_dataset_builder().with_data(&Array1::from(u)).create(name).unwrap();
    } else {
        g.new_dataset_builder().with_data(&Array1::from(v)).create(name).unwrap();
    }
}

/// one group per time step
pub fn write_tdata(path: &str, rec: &Recording, l: &Layout) {
    let f = File::create(path).unwrap();
    for (i, s) in rec.steps.iter().enumerate() {
        let g = f.create_group(&format!("timestep {i}")).unwrap();
        g.new_dataset_builder().with_data(&rows(&s.pos)).create("position").unwrap();
        g.new_dataset_builder().with_data(&rows(&s.vel)).create("velocity").unwrap();
        put(&g, "radius", s.rad.clone(), false);
        put(&g, "ppcloud", s.cloud.clone(), l.ints);
        put(&g, "particletype", s.ptype.clone(), l.ints);
        put(&g, "id", s.id.clone(), l.ints);
        if l.density {
            put(&g, "density", s.dens.clone(), false);
        }
        g.new_dataset::<f64>().create("time").unwrap().write_scalar(&s.t).unwrap();
    }
    attributes(&f, rec, rec.max_particles(), 1, l.sample_rate);
}

/// one group per particle; every step must hold the same number of particles
pub fn write_pdata(path: &str, rec: &Recording, l: &Layout) {
    let f = File::create(path).unwrap();
    let n = rec.max_particles();
    assert!(rec.steps.iter().all(|s| s.pos.len() == n));
    for p in 0..n {
        let g = f.create_group(&format!("particle {p}")).unwrap();
        let pos: Vec<[f64; 3]> = rec.steps.iter().map(|s| s.pos[p]).collect();
        let vel: Vec<[f64; 3]> = rec.steps.iter().map(|s| s.vel[p]).collect();
        let col = |h: fn(&Step) -> &Vec<f64>| -> Vec<f64> { rec.steps.iter().map(|s| h(s)[p]).collect() };
        g.new_dataset_builder().with_data(&rows(&pos)).create("position").unwrap();
        g.new_dataset_builder().with_data(&rows(&vel)).create("velocity").unwrap();
        if l.radius {
            put(&g, "radius", col(|s| &s.rad), false);
        }
        if l.ptype {
            put(&g, "particletype", col(|s| &s.ptype), l.ints);
        }
        if l.density {
            put(&g, "density", col(|s| &s.dens), false);
        }
        put(&g, "id", col(|s| &s.id), l.ints);
        put(&g, "ppcloud", col(|s| &s.cloud), l.ints);
        put(&g, "time", rec.steps.iter().map(|s| s.t).collect(), false);
    }
    attributes(&f, rec, n, 2, l.sample_rate);
}

/// what a file of the particle layout stands for when it is read back
pub fn as_pdata(rec: &Recording, l: &Layout) -> Recording {
    let mut r = rec.clone();
    for s in r.steps.iter_mut() {
        for i in 0..s.pos.len() {
            s.id[i] = i as f64;
            s.cloud[i] = 1.0;
            if !l.radius {
                s.rad[i] = 0.0;
            }
            if !l.ptype {
                s.ptype[i] = 0.0;
            }
            if !l.density {
                s.dens[i] = 1.0;
            }
        }
    }
    r
}
pub fn as_tdata(rec: &Recording, l: &Layout) -> Recording {
    let mut r = rec.clone();
    if !l.density {
        for s in r.steps.iter_mut() {
            s.dens.iter_mut().for_each(|d| *d = 1.0);
        }
    }
    r
}

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// the time step holds exactly what the file holds
pub fn check_step(key: &str, what: &str, got: &Timestep, s: &Step) -> R {
    ensure!(eq(*got.time(), s.t), key, "{what}: time {:?} instead of {:?}", got.time(), s.t);
    let n = s.pos.len();
    ensure!(
        got.position().len() == n && got.velocity().shape() == [n, 3],
        key,
        "{what}: {} positions and velocities of shape {:?} for {n} particles",
        got.position().len(),
        got.velocity().shape()
    );
    for i in 0..n {
        for k in 0..3 {
            ensure!(eq(got.position()[i][k], s.pos[i][k]), key, "{what}: position of row {i} is {:?} instead of {:?}", got.position()[i], s.pos[i]);
            ensure!(eq(got.velocity()[[i, k]], s.vel[i][k]), key, "{what}: velocity of row {i} is {:?} instead of {:?}", got.velocity().row(i).to_vec(), s.vel[i]);
        }
    }
    for (name, a, b) in [
        ("radius", got.radius(), &s.rad),
        ("id", got.particleid(), &s.id),
        ("cloud", got.clouds(), &s.cloud),
        ("density", got.density(), &s.dens),
        ("type", got.ptype(), &s.ptype),
    ] {
        ensure!(a.len() == n, key, "{what}: {} entries of {name} for {n} particles", a.len());
        for i in 0..n {
            ensure!(eq(a[i], b[i]), key, "{what}: {name} of row {i} is {:?} instead of {:?}", a[i], b[i]);
        }
    }
    Ok(())
}

/// the summary is what the file's attributes hold
pub fn check_stats(key: &str, g: &GlobalStats, rec: &Recording, n: usize, sample_rate: f64) -> R {
    let t: Vec<f64> = rec.steps.iter().map(|s| s.t).collect();
    for a in 0..3 {
        for k in 0..2 {
            ensure!(eq(g.dimensions()[[k, a]], rec.dims[k][a]), key, "dimensions {:?} instead of {:?}", g.dimensions(), rec.dims);
        }
        ensure!(eq(g.velocity_mag()[a], rec.vmag[a]), key, "speeds {:?} instead of {:?}", g.velocity_mag(), rec.vmag);
    }
    let v = velocity_stats(rec);
    ensure!(g.velocity().shape() == [3, 3] && g.velocity().iter().zip(v.iter()).all(|(a, b)| eq(*a, *b)), key, "velocities {:?} instead of {:?}", g.velocity(), v);
    ensure!(*g.nparticles() == n, key, "{} particles instead of {n}", g.nparticles());
    ensure!(*g.timesteps() == t.len(), key, "{} time steps instead of {}", g.timesteps(), t.len());
    ensure!(eq(*g.min_time(), t[0]), key, "starts at {:?} instead of {:?}", g.min_time(), t[0]);
    ensure!(eq(*g.max_time(), *t.last().unwrap()), key, "ends at {:?} instead of {:?}", g.max_time(), t.last());
    ensure!(eq(*g.sample_rate(), sample_rate), key, "sample rate {:?} instead of {:?}", g.sample_rate(), sample_rate);
    if g.time_array().to_vec() != t {
        fail!(key, "time array {:?} instead of {:?}", g.time_array(), t);
    }
    Ok(())
}
