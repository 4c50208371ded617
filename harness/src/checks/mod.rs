pub mod circ;
pub mod fields;
pub mod grids;
pub mod meta;
pub mod misc;
#[cfg(feature = "data")]
pub mod conv;
#[cfg(feature = "data")]
pub mod store;
#[cfg(feature = "plot")]
pub mod plots;
#[cfg(feature = "private")]
pub mod private;

use crate::Spec;

const T_MOCK: &str = "the in-memory data source serves the generated recording exactly as a file-backed source would (trusted: harness/src/data.rs)";
const T_FP: &str = "values are compared with relative tolerance 1e-9 of the magnitude of the combined terms; points closer than 1e-8 cell widths to a shared face accept either neighbour";

pub fn all() -> Vec<Spec> {
    let mut v = vec![
        Spec { id: "C01", run: grids::c01, quick: 48000, thorough: 200000,
            rule: "random Cartesian grid (1-24 cells per axis, five scales, offset limits); every cell centre, 27 corner/edge/face points and 40 random/face/limit points located and compared with the reference box; non-trivial: more than one cell",
            assumptions: &[T_FP],
            must_see: &["axes of more than 65536 cells", "located points", "located points on shared faces", "corners, edges and faces of the limits"] },
        Spec { id: "C02", run: grids::c02, quick: 32000, thorough: 128000,
            rule: "random cylindrical grid (axis off the origin, unequal extents); shells, positions, conversions, every cell centre, rim/limit/random points compared with the reference; non-trivial: more than one cell",
            assumptions: &[T_FP],
            must_see: &["axes of more than 65536 cells", "located points", "rim points", "conversions", "shells checked"] },
        Spec { id: "C03", run: grids::c03, quick: 96000, thorough: 400000,
            rule: "random pre-filled grid; outside (near/far/corner/one ulp beyond a face), NaN, infinite and inside points tested for membership, and random operations at rejected points with the whole grid compared before/after; every case is non-trivial",
            assumptions: &[T_FP],
            must_see: &["NaN points", "outside points", "inside points", "refused insertions"] },
        Spec { id: "C04", run: grids::c04, quick: 240000, thorough: 960000,
            rule: "random sequence of 1-40 accumulating operations on a random grid, whole grid compared with a model grid after each; non-trivial: at least 3 operations on more than one cell",
            assumptions: &[T_FP],
            must_see: &["add at point", "add to cell", "insert", "trajectory add across cells", "trajectory add within one cell", "trajectory add (cylindrical)"] },
        Spec { id: "C05", run: grids::c05, quick: 240000, thorough: 960000,
            rule: "random grid contents and divisors, element-wise comparison; set/read-back and wrong shapes; non-trivial: more than one cell",
            assumptions: &[T_FP],
            must_see: &["cell means", "divisions by weight", "divisions by array", "divisions by scalar", "exact set and read back", "wrong shapes refused"] },
        Spec { id: "C06", run: grids::c06, quick: 128000, thorough: 512000,
            rule: "random grid (unequal shape, NaN values, zero-weight lines); all single and double collapses compared with weighted averages; non-trivial: more than one cell",
            assumptions: &[T_FP],
            must_see: &["collapsed cells", "collapsed cells without weight", "doubly collapsed cells", "same axis refused"] },
        Spec { id: "C07", run: grids::c07, quick: 96000, thorough: 384000,
            rule: "random grid whose cells all hold different values; every plane by index, by positions inside its range, at limits and on shared faces; non-trivial: more than one cell",
            assumptions: &[T_FP],
            must_see: &["slices by position", "slices by index", "slices at the limits", "slice/locate agreements"] },
        Spec { id: "C08", run: grids::c08, quick: 240000, thorough: 960000,
            rule: "random grid with planted (border, corner, adjacent) outliers and values equal to the threshold, all three modes, compared with the reference; non-trivial: more than one cell",
            assumptions: &[T_FP, "an outlier with no regular neighbour is unspecified in mode 2"],
            must_see: &["outliers zeroed", "outliers capped", "outliers averaged", "outliers averaged at the border", "regular values untouched"] },
        Spec { id: "C09", run: meta::c09, quick: 19200, thorough: 76800,
            rule: "random recording; every analysis run with an empty grid and with pre-filled grids of the same geometry, outputs compared; non-trivial: some analysis produced finite non-zero output",
            assumptions: &[T_MOCK, T_FP],
            must_see: &["empty copies", "analysis pairs compared", "non-zero results"] },
        Spec { id: "C10", run: grids::c10, quick: 128000, thorough: 512000,
            rule: "random operation sequence applied to a vector grid and to three scalar grids side by side, plus velocity decompositions at random points; every case is non-trivial",
            assumptions: &[T_FP],
            must_see: &["add_value", "add_to_cell", "insert", "trajectory", "divide_by_weight", "set_weights", "outlier_removal", "velocity decompositions (cylindrical)", "velocity decompositions (cartesian)"] },
        Spec { id: "C11", run: misc::c11, quick: 480000, thorough: 1920000,
            rule: "random combination of criterion forms (lengths independent), 60 random particles with values on and between range ends, times on the window ends; non-trivial: both selected and unselected particles seen",
            assumptions: &[],
            must_see: &["selected", "unselected", "times selected", "times unselected", "window replaced"] },
        Spec { id: "C12", run: meta::c12, quick: 24000, thorough: 96000,
            rule: "random recording and selection; every analysis run on the original and on a recording whose unselected particles (and, for same-instant analyses, unselected steps) were scrambled; non-trivial: something was scrambled and some result is non-zero",
            assumptions: &[T_MOCK],
            must_see: &["scrambled particles", "scrambled steps", "analysis pairs compared", "non-zero results"] },
        Spec { id: "C13", run: fields::c13, quick: 96000, thorough: 384000,
            rule: "random recording, grid and selection; number field compared cell by cell with an independent count; non-trivial: at least one sighting counted and one left out",
            assumptions: &[T_MOCK, T_FP], must_see: &["recordings of more than 256 particles", "recordings of more than 256 steps", "cells of more than 65535 sightings", "sightings counted", "sightings left out"] },
        Spec { id: "C14", run: fields::c14, quick: 96000, thorough: 384000,
            rule: "random recording, grid, selection, measure and speed range; compared cell by cell with independent means; non-trivial: at least one cell averaged and one sighting left out",
            assumptions: &[T_MOCK, T_FP], must_see: &["ranges that hold nothing", "infinite values averaged", "recordings of more than 256 particles", "recordings of more than 256 steps", "sightings averaged", "NaN left out", "out of range left out", "value exactly on a range end"] },
        Spec { id: "C15", run: fields::c15, quick: 96000, thorough: 384000,
            rule: "random recording, grid and selection; three component means compared cell by cell; non-trivial: at least one cell averaged",
            assumptions: &[T_MOCK, T_FP, "sightings closer to a cylinder's axis than 1e-3 of its radius are not generated"], must_see: &["recordings of more than 256 particles", "recordings of more than 256 steps", "sightings averaged", "cylindrical cells", "cartesian cells", "NaN left out"] },
        Spec { id: "C16", run: fields::c16, quick: 96000, thorough: 384000,
            rule: "random recording (4-10 steps, uneven times, particles leaving the grid); occupancy compared cell by cell and in total; non-trivial: at least one interval credited",
            assumptions: &[T_MOCK, T_FP], must_see: &["particles with another place in the next step", "recordings of more than 256 particles", "recordings of more than 256 steps", "intervals credited", "intervals leaving the grid", "below minimum speed", "intervals of vanishing particles", "sums to one"] },
        Spec { id: "C17", run: fields::c17, quick: 128000, thorough: 512000,
            rule: "random recording and selection; both mean-velocity entry points compared with the independent mean; non-trivial: at least one sighting averaged",
            assumptions: &[T_MOCK, T_FP], must_see: &["recordings of more than 256 particles", "recordings of more than 256 steps", "speeds averaged", "sightings left out"] },
        Spec { id: "C18", run: fields::c18, quick: 96000, thorough: 384000,
            rule: "random recording and lag; dispersion compared cell by cell with the independent sample variance; non-trivial: a cell with two or more sightings",
            assumptions: &[T_MOCK, T_FP, "lags that fall within 1e-9 of the midpoint between two stored steps are not generated"], must_see: &["particles found at another place", "later positions unknown", "recordings of more than 256 particles", "recordings of more than 256 steps", "cells with dispersion", "cells with one sighting", "beyond the recording", "vanished particles"] },
        Spec { id: "C19", run: fields::c19, quick: 128000, thorough: 512000,
            rule: "random recording, bins and limit; edges and counts compared, speeds within rounding of an inner edge may fall on either side; non-trivial: some speed counted",
            assumptions: &[T_MOCK, T_FP], must_see: &["recordings of more than 256 particles", "recordings of more than 256 steps", "speeds counted", "speeds outside the edges", "speed on the last edge", "NaN left out"] },
        Spec { id: "C20", run: fields::c20, quick: 96000, thorough: 384000,
            rule: "random recording (incl. uniform flow and large mean velocity); compared cell by cell with two-pass variances; non-trivial: a cell with two or more sightings",
            assumptions: &[T_MOCK, "variance tolerance 1e-9 of the mean square velocity (single-pass cancellation)"], must_see: &["sightings without velocity", "recordings of more than 256 particles", "recordings of more than 256 steps", "cells with temperature", "uniform cells", "empty cells"] },
        Spec { id: "C21", run: fields::c21, quick: 96000, thorough: 384000,
            rule: "random recording visiting every layer; index compared with the population standard deviation of the reference profile; non-trivial: more than one layer",
            assumptions: &[T_MOCK, T_FP], must_see: &["profiles of more than 64 layers", "recordings of more than 256 particles", "profiles compared"] },
        Spec { id: "C22", run: fields::c22, quick: 96000, thorough: 384000,
            rule: "random recording with 2-4 particle types; index and times compared per step, exchanged types, and scrambled other types; non-trivial: both types present at some selected step",
            assumptions: &[T_MOCK, T_FP], must_see: &["recordings of more than 256 particles", "recordings of more than 256 steps", "indices compared", "unselected steps", "exchanged", "below threshold cells"] },
        Spec { id: "C23", run: fields::c23, quick: 96000, thorough: 384000,
            rule: "random recording with 2-4 particle types; compared cell by cell, exchanged types sum to one; non-trivial: a cell with both types",
            assumptions: &[T_MOCK, T_FP], must_see: &["recordings of more than 256 particles", "recordings of more than 256 steps", "cells compared", "mixed cells", "empty cells"] },
        Spec { id: "C24", run: fields::c24, quick: 80000, thorough: 320000,
            rule: "random recording and lags; field and curve compared with independent means; non-trivial: a cell with two or more sightings",
            assumptions: &[T_MOCK, T_FP, "lags that fall within 1e-9 of the midpoint between two stored steps are not generated"], must_see: &["particles with another place in the next step", "later positions unknown", "recordings of more than 256 particles", "recordings of more than 256 steps", "cells with displacement", "curve points compared", "beyond the recording"] },
        Spec { id: "C25", run: circ::c25, quick: 128000, thorough: 512000,
            rule: "random oscillating/random-walk recording; durations compared with an independent per-particle crossing log; non-trivial: at least one circulation closed",
            assumptions: &[T_MOCK], must_see: &["recordings whose particles share ids", "windows that start within the recording", "particles with another place in the next step", "positions exactly on a plane", "unknown positions", "tiny or huge lengths", "recordings of more than 256 particles", "recordings of more than 256 steps", "circulations", "crossings", "plane outside refused"] },
        Spec { id: "C26", run: circ::c26, quick: 128000, thorough: 512000,
            rule: "random oscillating recording; reported pairs compared with an independent per-particle zone automaton; non-trivial: at least one circulation",
            assumptions: &[T_MOCK], must_see: &["recordings whose particles share ids", "windows that start within the recording", "particles with another place in the next step", "positions exactly on a plane", "unknown positions", "tiny or huge lengths", "jumps across both planes", "recordings of more than 256 particles", "recordings of more than 256 steps", "circulations", "exits", "restarts without visit", "plane outside refused"] },
        Spec { id: "C27", run: circ::c27, quick: 160000, thorough: 640000,
            rule: "random recording, particle and step range; rows compared bit by bit; non-trivial: at least two rows",
            assumptions: &[T_MOCK], must_see: &["rows compared", "ranges refused", "absent particles refused"] },
        Spec { id: "C28", run: misc::c28, quick: 320000, thorough: 1280000,
            rule: "random ascending time series (1-200 steps, spacings from microseconds to hours), requested times on, between, at both ends and outside; non-trivial: more than one step",
            assumptions: &["ties accept either step"], must_see: &["lookups inside", "exact hits", "before the first", "after the last"] },
        Spec { id: "C30", run: misc::c30, quick: 320000, thorough: 1280000,
            rule: "random arrays and shapes compared with independent definitions; every case is non-trivial",
            assumptions: &[T_FP], must_see: &["extremes", "mesh grids", "flattened elements", "NaN-aware statistics"] },
        Spec { id: "C31", run: meta::c31, quick: 16000, thorough: 64000,
            rule: "random sequence of analyses on one data source, each compared with its result on a fresh source; access monitor active; grid, selection and recording compared before/after; non-trivial: at least 3 analyses with non-zero results",
            assumptions: &[T_MOCK], must_see: &["analyses", "repeated analyses compared", "time steps served", "second-channel reads"] },
        Spec { id: "C32", run: meta::c32, quick: 48000, thorough: 192000,
            rule: "hostile random recording (NaN/infinite, empty or shrinking steps, 1-5 steps, single cells, absent types); every analysis run with overflow checks and bounds checks observed as crashes; non-trivial: some hostile feature present",
            assumptions: &[T_MOCK], must_see: &["analyses completed", "recordings with fewer than four steps", "recordings with empty steps", "recordings with varying particle counts"] },
    ];
    #[cfg(feature = "private")]
    {
        v.push(Spec { id: "C29", run: private::c29, quick: 480000, thorough: 1920000,
            rule: "random points, anchors and angles (incl. zero and right angles); result compared with the composed rotation matrix, distances, anchor, inverse; every case is non-trivial",
            assumptions: &[T_FP], must_see: &["angles of several turns", "rotations compared", "inverse rotations"] });
        v.push(Spec { id: "C33", run: private::c33, quick: 64000, thorough: 256000,
            rule: "random pair of recordings and grids; comparison compared with each recording's own field; random field and quantile; non-trivial: fields with finite values",
            assumptions: &[T_MOCK, T_FP], must_see: &["comparisons", "thresholds", "quantiles refused"] });
    }
    #[cfg(feature = "data")]
    data(&mut v);
    #[cfg(feature = "plot")]
    plot(&mut v);
    v.sort_by_key(|s| s.id);
    v
}

#[cfg(feature = "data")]
const T_H5: &str = "files live in the in-memory stand-in of the hdf5 crate (trusted: stubs/hdf5)";

#[cfg(feature = "data")]
fn data(v: &mut Vec<Spec>) {
    v.push(Spec { id: "C34", run: store::c34, quick: 6000, thorough: 100000,
        rule: "random recording (1-40 steps, read buffer of 8 steps) stored in either layout, 30 or more reads in random, sweeping and boundary-hugging order, compared bit by bit; non-trivial: some read left the buffered range",
        assumptions: &[T_H5, "the read buffer is built with 8 steps instead of 20000 (cfg up4_verif_small_buffer)"],
        must_see: &["steps read", "reads beyond the buffer", "reads before the buffer", "interleaved reads of a second file", "particle-based files", "time-based files", "files without density"] });
    v.push(Spec { id: "C35", run: store::c35, quick: 6000, thorough: 100000,
        rule: "random recording in either layout, 1-3 second read channels set up (and set up again) at random moments, reads of the main buffer and the channels interleaved; non-trivial: a channel read away from the main buffer",
        assumptions: &[T_H5, "the read buffer is built with 8 steps instead of 20000 (cfg up4_verif_small_buffer)"],
        must_see: &["channels set up", "channels set up again", "main reads", "channel reads", "channel and main buffer apart", "particle-based files", "time-based files"] });
    v.push(Spec { id: "C36", run: store::c36, quick: 6000, thorough: 100000,
        rule: "random recording in either layout, unbuffered reads compared bit by bit, buffered reads in between; non-trivial: time-based, or several particles",
        assumptions: &[T_H5, "the read buffer is built with 8 steps instead of 20000 (cfg up4_verif_small_buffer)"],
        must_see: &["particle-based unbuffered reads", "time-based unbuffered reads", "unbuffered reads of several particles", "files without density"] });
    v.push(Spec { id: "C37", run: store::c37, quick: 3000, thorough: 50000,
        rule: "random recording in either layout, all summary values and the textual description compared; non-trivial: more than one step",
        assumptions: &[T_H5], must_see: &["summaries compared", "descriptions compared", "rotations reported", "anchors set", "particle-based files", "time-based files"] });
    v.push(Spec { id: "C38", run: store::c38, quick: 1200, thorough: 12000,
        rule: "random recording stored in both layouts, every analysis compared with the same recording in memory; every 60th recording is longer than the read buffer of 20000 steps; non-trivial: some result is non-zero",
        assumptions: &[T_H5, T_MOCK], must_see: &["analyses compared", "non-zero results", "recordings longer than the buffer", "steps read"] });
    v.push(Spec { id: "C39", run: conv::c39, quick: 6000, thorough: 80000,
        rule: "random table of one trajectory with velocities (1-60 rows; random column order, delimiter, header, comments, number format, row order, repeated rows, times from negative to large), converted and read back through PData; non-trivial: more than one row",
        assumptions: &[T_H5, "of rows with equal times exact copies are generated"], must_see: &["tables with hundreds of repeated samples", "steps compared", "tables out of order", "tables with repeated samples", "tables that start at or before zero", "tables refused"] });
    v.push(Spec { id: "C40", run: conv::c40, quick: 6000, thorough: 80000,
        rule: "random trajectories without velocities, windows of 3-15 samples; positions compared exactly, velocities with an independent centred least-squares parabola; non-trivial: more than one row",
        assumptions: &[T_H5, "derived velocities are compared to 1e-6 of the window's extent over its smallest time difference"], must_see: &["steps compared", "single trajectories", "several trajectories", "even windows refused", "surplus columns refused", "trajectories of 200000 samples"] });
    v.push(Spec { id: "C41", run: conv::c41, quick: 6000, thorough: 80000,
        rule: "random trajectories (even, jittered and bursty sampling) resampled; times and positions compared with independent linear interpolation, velocities with the parabola fit; non-trivial: more than one row",
        assumptions: &[T_H5], must_see: &["steps compared", "single trajectories", "several trajectories", "tables with repeated samples"] });
    v.push(Spec { id: "C42", run: conv::c42, quick: 5000, thorough: 60000,
        rule: "random tables of 1-5 particles with common times, with an id column (rows in any order) or one trajectory after the other; non-trivial: more than one particle",
        assumptions: &[T_H5, "all particles are sighted at the same times (the particle layout stores one time axis)"], must_see: &["tables with ids beyond 31 bits", "ids compared", "steps compared", "chains", "tables with an id column", "tables with negative ids", "tables with repeated samples", "chains with short trajectories"] });
    v.push(Spec { id: "C43", run: conv::c43, quick: 5000, thorough: 60000,
        rule: "random series of 1-8 tables of 1-8 particles; non-trivial: more than one table",
        assumptions: &[T_H5], must_see: &["steps compared", "varying particle counts"] });
    v.push(Spec { id: "C44", run: conv::c44, quick: 5000, thorough: 60000,
        rule: "random series of 1-7 VTK data sets (legacy, unstructured, polydata in 1-3 pieces; shuffled ids; radius or diameter; with or without types; by list or by folder with other files in it); non-trivial: more than one file",
        assumptions: &[T_H5, "VTK data sets are handed over parsed (trusted stand-in: stubs/vtkio)"], must_see: &["ids beyond 31 bits", "file numbers beyond 31 bits", "fields of similar names", "steps compared", "legacy files", "unstructured grids", "polydata", "folders", "diameters", "varying particle counts", "ids from zero", "lists out of order", "padded file numbers"] });
    v.push(Spec { id: "C45", run: conv::c45, quick: 6000, thorough: 80000,
        rule: "one conversion by a random converter; summary compared with statistics of the file's own content; non-trivial: several rows, particles or files",
        assumptions: &[T_H5], must_see: &["csv summaries", "id_line summaries", "chain summaries", "csv files summaries", "vtk summaries", "sample rates compared", "speed summaries compared"] });
}

#[cfg(feature = "plot")]
const T_PLOTLY: &str = "traces are kept by the stand-in of the plotly crate as they were given (trusted: stubs/plotly); drawing them is the plotting library's business";

#[cfg(feature = "plot")]
fn plot(v: &mut Vec<Spec>) {
    v.push(Spec { id: "C46", run: plots::c46, quick: 8000, thorough: 80000,
        rule: "random scalar or vector field on a random grid (empty cells, empty planes, either memory layout), all axes, depth average and one plane each: scalar map, contour, parity map and parity contour compared cell by cell; non-trivial: more than one cell",
        assumptions: &[T_PLOTLY, T_FP], must_see: &["plane cells compared", "empty plane cells", "contours", "differences", "relative differences", "absolute differences", "column-major fields", "cylindrical planes", "vector fields", "scalar fields", "single planes", "depth averages"] });
    v.push(Spec { id: "C47", run: plots::c47, quick: 8000, thorough: 80000,
        rule: "random vector field on a random grid, all axes, depth average and one plane each: quiver and unit vector plots after 0-3 random scalings, every arrow compared; non-trivial: some vector is not zero",
        assumptions: &[T_PLOTLY, T_FP, "zero vectors have no direction: lengthening them is unspecified"],
        must_see: &["arrows compared", "arrow heads", "arrow colours", "colour bars", "unit vector plots", "empty plane cells", "scale_global", "scale_elementwise", "bound_min", "bound_max", "bound_min_max", "bound_half_node", "bound_full_node"] });
    v.push(Spec { id: "C48", run: plots::c48, quick: 8000, thorough: 80000,
        rule: "random pair of scalar or vector fields on a random grid, whole grid, depth average and one plane along every axis: points compared as pairs, parity line with the range of the values; non-trivial: more than one cell",
        assumptions: &[T_PLOTLY, T_FP], must_see: &["pairs compared", "parity lines", "whole grid", "depth average", "single plane", "vector fields", "scalar fields"] });
}
