//! C34-C38: the two file-backed data sources.
use crate::data::*;
use crate::geo::GSpec;
use crate::h5::*;
use crate::rec::{Case, R};
use crate::rng::Rng;
use crate::{ensure, fail};
use upppp_rust::datamanager::{DataManager, Manager, PData, TData};

/// the read buffer of the build under test holds this many steps
#[cfg(up4_verif_small_buffer)]
pub const BUF: usize = 8;
#[cfg(not(up4_verif_small_buffer))]
pub const BUF: usize = 20000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Particle,
    Time,
}

pub enum Src {
    P(PData),
    T(TData),
}
impl Src {
    pub fn open(kind: Kind, path: &str) -> Src {
        match kind {
            Kind::Particle => Src::P(PData::new(path)),
            Kind::Time => Src::T(TData::new(path)),
        }
    }
    pub fn d(&mut self) -> &mut dyn Manager {
        match self {
            Src::P(p) => p,
            Src::T(t) => t,
        }
    }
}

/// a recording that can be stored in the layout, of `n` steps
fn recording(r: &mut Rng, kind: Kind, n: usize, particles: (usize, usize)) -> Recording {
    let g = GSpec::random(r, 3);
    let mut o = Opts::std();
    o.steps = (n, n);
    o.big = 300;
    o.particles = particles;
    o.vary = kind == Kind::Time;
    if kind == Kind::Particle {
        o.particles.0 = o.particles.0.max(1);
    }
    random_rec(r, &g, &o)
}

fn layout(r: &mut Rng, kind: Kind) -> Layout {
    let mut l = Layout::full();
    l.ints = r.chance(0.4);
    l.density = r.chance(0.6);
    l.sample_rate = *r.pick(&[0.5, 1.0, 3.25]);
    if kind == Kind::Particle {
        l.radius = r.chance(0.8);
        l.ptype = r.chance(0.8);
    }
    l
}

struct Made {
    kind: Kind,
    lay: Layout,
    /// what reading must give
    want: Recording,
    path: String,
}

fn make(c: &mut Case, sc: &Scratch, name: &str, n: usize, particles: (usize, usize)) -> Made {
    let kind = *c.rng.pick(&[Kind::Particle, Kind::Time]);
    let rec = recording(&mut c.rng, kind, n, particles);
    let lay = layout(&mut c.rng, kind);
    let path = sc.path(name);
    let want = match kind {
        Kind::Particle => {
            write_pdata(&path, &rec, &lay);
            as_pdata(&rec, &lay)
        }
        Kind::Time => {
            write_tdata(&path, &rec, &lay);
            as_tdata(&rec, &lay)
        }
    };
    c.log(format!("{kind:?} layout {lay:?}"));
    c.log(rec.desc());
    c.seen(if kind == Kind::Particle { "particle-based files" } else { "time-based files" });
    if !lay.density {
        c.seen("files without density");
    }
    Made { kind, lay, want, path }
}

fn length(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => r.int(1, BUF),
        1 => *r.pick(&[BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 1, 3 * BUF - 1]),
        _ => r.int(1, 5 * BUF),
    }
}

/// a sequence of step numbers: sweeps, jumps, and steps around the ends of the read buffer
fn walk(r: &mut Rng, n: usize, len: usize) -> Vec<usize> {
    let mut v = vec![];
    while v.len() < len {
        let here = v.last().copied().unwrap_or(0);
        match r.below(6) {
            0 => v.push(r.below(n)),
            1 => {
                for _ in 0..r.int(1, 2 * BUF) {
                    let h = v.last().copied().unwrap_or(0);
                    v.push((h + 1) % n);
                }
            }
            2 => {
                for _ in 0..r.int(1, 2 * BUF) {
                    let h: usize = v.last().copied().unwrap_or(0);
                    v.push(if h == 0 { n - 1 } else { h - 1 });
                }
            }
            3 => {
                let b = (r.int(0, n / BUF) * BUF + r.below(3)).saturating_sub(1);
                v.push(b.min(n - 1));
            }
            4 => v.push((here + r.int(1, BUF)).min(n - 1)),
            _ => v.push(*r.pick(&[0, n - 1, here])),
        }
    }
    v
}

/// C34: any order of reads through the main buffer
pub fn c34(c: &mut Case) -> R {
    let sc = Scratch::new();
    let n = length(&mut c.rng);
    let m = make(c, &sc, "a.hdf5", n, (0, 5));
    let mut d = Src::open(m.kind, &m.path);
    // a second, different recording open at the same time
    let other = if c.rng.chance(0.2) { Some(make(c, &sc, "b.hdf5", length(&mut c.rng.clone()), (0, 4))) } else { None };
    let mut e = other.as_ref().map(|o| Src::open(o.kind, &o.path));
    let order = walk(&mut c.rng, n, 30);
    c.log(format!("reads {order:?}"));
    let mut last_chunk = 0;
    for (k, t) in order.iter().enumerate() {
        let got = d.d().get_timestep(*t);
        check_step("buffered", &format!("read {k}, step {t} of {n} ({:?})", m.kind), got, &m.want.steps[*t])?;
        c.seen("steps read");
        if t / BUF != last_chunk {
            c.seen(if t / BUF > last_chunk { "reads beyond the buffer" } else { "reads before the buffer" });
            last_chunk = t / BUF;
            c.nontrivial = true;
        }
        if let (Some(o), Some(e)) = (&other, &mut e) {
            let u = c.rng.below(o.want.steps.len());
            check_step("two-files", &format!("second file, step {u}"), e.d().get_timestep(u), &o.want.steps[u])?;
            c.seen("interleaved reads of a second file");
        }
    }
    Ok(())
}

/// C35: second read channels
pub fn c35(c: &mut Case) -> R {
    let sc = Scratch::new();
    let n = length(&mut c.rng);
    let m = make(c, &sc, "a.hdf5", n, (0, 4));
    let mut d = Src::open(m.kind, &m.path);
    let names: Vec<usize> = match c.rng.below(4) {
        0 => vec![0],
        1 => vec![0, 1],
        2 => vec![1, 0, 2],
        _ => {
            let a = c.rng.int(3, 9);
            vec![a, a - 2]
        }
    };
    let mut up: Vec<usize> = vec![];
    c.log(format!("channels {names:?}"));
    let order = walk(&mut c.rng, n, 24);
    for (k, t) in order.iter().enumerate() {
        let t = *t;
        if up.is_empty() || c.rng.chance(0.15) {
            let name = if up.len() < names.len() { names[up.len()] } else { *c.rng.pick(&names) };
            d.d().setup_buffer(name);
            if up.contains(&name) {
                c.seen("channels set up again");
            } else {
                up.push(name);
                c.seen("channels set up");
            }
        }
        match c.rng.below(3) {
            0 => {
                check_step("main", &format!("read {k} of the main buffer, step {t} of {n} ({:?})", m.kind), d.d().get_timestep(t), &m.want.steps[t])?;
                c.seen("main reads");
            }
            1 => {
                // look ahead of the main buffer, as the displacement analyses do
                let a = c.rng.below(n);
                check_step("main", &format!("read {k} of the main buffer, step {a} of {n} ({:?})", m.kind), d.d().get_timestep(a), &m.want.steps[a])?;
                let b = (a + c.rng.below(2 * BUF)).min(n - 1);
                let ch = *c.rng.pick(&up);
                check_step("channel", &format!("read {k} of channel {ch}, step {b} of {n}, main at {a} ({:?})", m.kind), d.d().get_timestep_buffer(b, ch), &m.want.steps[b])?;
                c.seen("channel reads");
                if a / BUF != b / BUF {
                    c.seen("channel and main buffer apart");
                    c.nontrivial = true;
                }
            }
            _ => {
                let ch = *c.rng.pick(&up);
                check_step("channel", &format!("read {k} of channel {ch}, step {t} of {n} ({:?})", m.kind), d.d().get_timestep_buffer(t, ch), &m.want.steps[t])?;
                c.seen("channel reads");
            }
        }
    }
    Ok(())
}

/// C36: reading a step without the buffer
pub fn c36(c: &mut Case) -> R {
    let sc = Scratch::new();
    let n = length(&mut c.rng).min(2 * BUF + 3);
    let m = make(c, &sc, "a.hdf5", n, (0, 4));
    let mut d = Src::open(m.kind, &m.path);
    let start = c.rng.below(n);
    let _ = d.d().get_timestep(start);
    for k in 0..6 {
        let t = c.rng.below(n);
        let got = d.d().get_timestep_unbuffered(t);
        check_step("unbuffered", &format!("unbuffered read {k}, step {t} of {n} ({:?})", m.kind), &got, &m.want.steps[t])?;
        c.seen(if m.kind == Kind::Particle { "particle-based unbuffered reads" } else { "time-based unbuffered reads" });
        if m.kind == Kind::Particle && m.want.max_particles() > 1 {
            c.seen("unbuffered reads of several particles");
            c.nontrivial = true;
        }
        c.nontrivial |= m.kind == Kind::Time;
        // and the buffer is not disturbed
        let u = c.rng.below(n);
        check_step("after-unbuffered", &format!("step {u} of {n} after an unbuffered read"), d.d().get_timestep(u), &m.want.steps[u])?;
    }
    Ok(())
}

/// C37: summaries
pub fn c37(c: &mut Case) -> R {
    let sc = Scratch::new();
    let n = c.rng.int(1, 12);
    let m = make(c, &sc, "a.hdf5", n, (0, 6));
    let mut d = Src::open(m.kind, &m.path);
    let np = m.want.max_particles();
    check_stats("stats", &d.d().global_stats(), &m.want, np, m.lay.sample_rate)?;
    for _ in 0..c.rng.below(4) {
        let t = c.rng.below(n);
        let _ = d.d().get_timestep(t);
    }
    check_stats("stats-after-reads", &d.d().global_stats(), &m.want, np, m.lay.sample_rate)?;
    c.see("summaries compared", 2);
    c.nontrivial = n > 1;
    let mut rot = [0.0f64; 3];
    let mut anchor = [0.0f64; 3];
    for _ in 0..5 {
        let info = match d.d().info() {
            Ok(i) => i,
            Err(e) => fail!("info", "info failed: {e}"),
        };
        let w = &m.want;
        let mut parts = vec![];
        for (a, name) in ["x", "y", "z"].iter().enumerate() {
            let (lo, hi) = (w.dims[0][a], w.dims[1][a]);
            parts.push(format!("|{name} {lo:.2}-->{hi:.2}\t||  {:.2}\n", hi - lo));
        }
        parts.push(format!("max time of this set is : {:.2}\n", w.steps[n - 1].t));
        parts.push(format!("Number of Particles: {np}\n"));
        parts.push(format!("Number of Timesteps: {n}\n"));
        parts.push(format!("Mean velocity of: {:.2} m/s\n", w.vmag[1]));
        parts.push(format!("Minimum velocity {:.2} m/s", w.vmag[0]));
        parts.push(format!("Maximum Velocity {:.2} m/s\n", w.vmag[2]));
        for p in &parts {
            ensure!(info.contains(p.as_str()), "info", "info lacks {p:?}: {info}");
        }
        let rotated = rot.iter().any(|x| *x != 0.0);
        ensure!(info.contains("Rotation is set") == rotated, "info", "rotation {rot:?} but info says: {info}");
        if rotated {
            for (a, name) in ["x", "y", "z"].iter().enumerate() {
                let p = format!("{name}: {:.2} degree\n", rot[a]);
                ensure!(info.contains(&p), "info", "info lacks rotation {p:?}: {info}");
                let tail = info.split("around").nth(1).unwrap_or("");
                let p = format!("{name}: {:.2} ", anchor[a]);
                ensure!(tail.contains(&p), "info", "info lacks anchor {p:?}: {info}");
            }
            c.seen("rotations reported");
        }
        c.seen("descriptions compared");
        let a = c.rng.below(3);
        // angles that cancel or undo each other included
        let other = rot[(a + 1 + c.rng.below(2)) % 3];
        let any = c.rng.range(-3.0, 3.0);
        rot[a] = *c.rng.pick(&[0.0, 0.0, -other, other, any, 90.0, -90.0]);
        if rot.iter().any(|x| *x != 0.0) && rot.iter().sum::<f64>() == 0.0 {
            c.seen("angles that add up to zero");
        }
        d.d().set_rotation_angle(rot[a], a as f64);
        if c.rng.chance(0.3) {
            anchor = std::array::from_fn(|_| c.rng.range(-50.0, 50.0));
            d.d().set_rotation_anker(anchor);
            c.seen("anchors set");
        }
    }
    Ok(())
}

fn same_as_memory(c: &mut Case, an: &An, g: &GSpec, sel: &Sel, want: &Recording, src: &mut Src, what: &str) -> R {
    let p = sel.build();
    let a = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(an, &mut Mock::new(want), g.build(), &p))) {
        Ok(a) => a,
        Err(_) => return Ok(()), // the analysis itself fails: C32
    };
    let b = match src {
        Src::P(d) => run(an, d, g.build(), &p),
        Src::T(d) => run(an, d, g.build(), &p),
    };
    if let Some(d) = a.diff(&b, 1e-9) {
        fail!(an.name(), "{an:?} on the {what} file differs from the same recording in memory: {d}");
    }
    c.seen("analyses compared");
    if a.finite_nonzero() {
        c.seen("non-zero results");
        c.nontrivial = true;
    }
    Ok(())
}

/// C38: analyses do not depend on how the recording is stored
pub fn c38(c: &mut Case) -> R {
    let sc = Scratch::new();
    let long = BUF < 100 || c.idx % 60 == 0;
    let g = GSpec::random(&mut c.rng, 3);
    let mut o = Opts::std();
    o.off_axis = true;
    o.big = if long { 0 } else { 300 };
    o.vary = false;
    o.particles = (1, if BUF > 100 && long { 2 } else { 5 });
    o.steps = if BUF < 100 {
        (2, 3 * BUF)
    } else if long {
        (BUF + 1, BUF + 300)
    } else {
        (2, 12)
    };
    let rec = random_rec(&mut c.rng, &g, &o);
    let lay = Layout::full();
    let n = rec.steps.len();
    let sel = if c.rng.chance(0.5) { Sel::all() } else { let mut s = random_sel(&mut c.rng, &rec); s.cloud = vec![-1.0]; s };
    c.log(g.desc());
    c.log(sel.desc());
    c.log(rec.desc());
    let (pp, tp) = (sc.path("p.hdf5"), sc.path("t.hdf5"));
    write_pdata(&pp, &rec, &lay);
    write_tdata(&tp, &rec, &lay);
    let mut p = Src::open(Kind::Particle, &pp);
    let mut t = Src::open(Kind::Time, &tp);
    let pw = as_pdata(&rec, &lay);
    let mut ans = An::all(&mut c.rng, &rec);
    if BUF > 100 && long {
        // lags that look beyond the end of the buffer, and one cheap field
        let span = rec.steps[n - 1].t - rec.steps[0].t;
        ans = vec![An::Dispersion(span * 0.4), An::MsdField(span * 0.7), An::Occupancy(0.0), An::Number, An::Vector];
        let k = c.rng.below(3);
        ans.drain(0..k);
        ans.truncate(2);
        c.seen("recordings longer than 20000 steps");
        for _ in 0..6 {
            let k = *c.rng.pick(&[0, BUF - 1, BUF, n - 1]);
            check_step("buffered", &format!("step {k} of {n} (particle-based)"), p.d().get_timestep(k), &pw.steps[k])?;
            check_step("buffered", &format!("step {k} of {n} (time-based)"), t.d().get_timestep(k), &rec.steps[k])?;
            c.see("steps read", 2);
        }
    }
    if n > BUF {
        c.seen("recordings longer than the buffer");
    }
    for an in &ans {
        same_as_memory(c, an, &g, &sel, &pw, &mut p, "particle-based")?;
        same_as_memory(c, an, &g, &sel, &rec, &mut t, "time-based")?;
    }
    Ok(())
}
