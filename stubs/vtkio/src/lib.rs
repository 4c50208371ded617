//! In-memory stand-in for `vtkio` (git dependency of up4 that cannot be fetched here): the data
//! model of vtkio 0.7 that up4 reads, and `Vtk::import`, which returns the data set the harness
//! registered for a path.  The file format itself is not modelled.  Trusted: see /verif/DESIGN.md.
pub mod model;
pub use model::Vtk;

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

/// Used by the harness only.
pub mod stub {
    use super::model::Vtk;
    use std::collections::HashMap;
    use std::path::{Path, PathBuf};
    use std::sync::{Mutex, OnceLock};
    pub(crate) fn registry() -> &'static Mutex<HashMap<PathBuf, Vtk>> {
        static R: OnceLock<Mutex<HashMap<PathBuf, Vtk>>> = OnceLock::new();
        R.get_or_init(Default::default)
    }
    /// Makes `path` a file that imports as `vtk`.
    pub fn register(path: &str, vtk: Vtk) {
        std::fs::write(path, b"# vtk placeholder\n").expect("write placeholder");
        registry().lock().unwrap_or_else(|e| e.into_inner()).insert(Path::new(path).to_path_buf(), vtk);
    }
    pub fn forget(path: &str) {
        registry().lock().unwrap_or_else(|e| e.into_inner()).remove(Path::new(path));
        let _ = std::fs::remove_file(path);
    }
    use super::model::*;
    /// A data set from a file in this stand-in's own text format, as the monitors of the Python layer write it:
    /// the magic line, `poly` or `unstructured`, then per piece `piece`, `points <values>` and per field
    /// `field|array <name> <components> <i64|f64> <values>` (tab-separated).
    pub(crate) fn load(path: &Path) -> Option<Vtk> {
        let text = std::fs::read_to_string(path).ok()?;
        let mut lines = text.lines();
        if lines.next() != Some("#up4-stub-vtk") {
            return None;
        }
        let poly = lines.next()? == "poly";
        let mut pieces: Vec<(IOBuffer, Attributes)> = vec![];
        for l in lines {
            let f: Vec<&str> = l.split('\t').collect();
            match f[..] {
                ["piece"] => pieces.push(Default::default()),
                ["points", v] => pieces.last_mut()?.0 = buffer("f64", v)?,
                [how, name, k, kind, v] => {
                    let k: u32 = k.parse().ok()?;
                    let data = buffer(kind, v)?;
                    let at = &mut pieces.last_mut()?.1.point;
                    if how == "array" {
                        at.push(Attribute::DataArray(DataArrayBase { name: name.into(), elem: ElementType::Generic(k), data }));
                    } else {
                        let new = DataArrayBase { name: name.into(), elem: k, data };
                        match at.last_mut() {
                            Some(Attribute::Field { data_array, .. }) => data_array.push(new),
                            _ => at.push(Attribute::Field { name: "FieldData".into(), data_array: vec![new] }),
                        }
                    }
                }
                _ => return None,
            }
        }
        let data = if poly {
            DataSet::PolyData {
                meta: None,
                pieces: pieces.into_iter().map(|(points, data)| Piece::new_inline(PolyDataPiece { points, data, ..Default::default() })).collect(),
            }
        } else {
            DataSet::UnstructuredGrid {
                meta: None,
                pieces: pieces.into_iter().map(|(points, data)| Piece::new_inline(UnstructuredGridPiece { points, data, ..Default::default() })).collect(),
            }
        };
        Some(Vtk { title: String::new(), file_path: None, data })
    }
    fn buffer(kind: &str, v: &str) -> Option<IOBuffer> {
        Some(if kind == "i64" {
            IOBuffer::from(v.split_whitespace().map(|x| x.parse().ok()).collect::<Option<Vec<i64>>>()?)
        } else {
            IOBuffer::from(v.split_whitespace().map(|x| x.parse().ok()).collect::<Option<Vec<f64>>>()?)
        })
    }
}
