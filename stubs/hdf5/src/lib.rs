//! In-memory stand-in for the `hdf5` crate (git dependency of up4 that cannot be fetched here).
//!
//! Implements the part of hdf5-rust's API that up4 uses or could reasonably use: files, groups,
//! attributes and datasets of numbers, with HDF5's numeric conversions (integers clamp, floats
//! truncate towards zero), rank checks on reading, and errors for missing or duplicate names.
//! Files live in a process-wide registry; `create` also writes a small placeholder file so that
//! path checks behave as with real files.  All trusted: see /verif/DESIGN.md.
use ndarray::{Array, Array0, Array1, Array2, ArrayD, ArrayView, Dimension, IxDyn, SliceInfoElem};
use std::collections::HashMap;
use std::fmt;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};

#[derive(Clone)]
pub struct Error(String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl From<String> for Error {
    fn from(s: String) -> Self {
        Error(s)
    }
}
impl From<&str> for Error {
    fn from(s: &str) -> Self {
        Error(s.to_string())
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

/// A stored number (or string).
#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    I(i128),
    F(f64),
    S(String),
}

pub trait H5Type: Clone + 'static {
    const KIND: &'static str;
    fn to_elem(&self) -> Elem;
    fn from_elem(e: &Elem) -> Option<Self>;
    /// the value as stored in a dataset of this type
    fn convert(e: &Elem) -> Option<Elem> {
        Self::from_elem(e).map(|v| v.to_elem())
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl H5Type for $t {
            const KIND: &'static str = stringify!($t);
            fn to_elem(&self) -> Elem { Elem::I(*self as i128) }
            fn from_elem(e: &Elem) -> Option<Self> {
                match e {
                    Elem::I(i) => Some((*i).clamp(<$t>::MIN as i128, <$t>::MAX as i128) as $t),
                    Elem::F(f) => Some(*f as $t),
                    Elem::S(_) => None,
                }
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
macro_rules! floats {
    ($($t:ty),*) => {$(
        impl H5Type for $t {
            const KIND: &'static str = stringify!($t);
            fn to_elem(&self) -> Elem { Elem::F(*self as f64) }
            fn from_elem(e: &Elem) -> Option<Self> {
                match e {
                    Elem::I(i) => Some(*i as $t),
                    Elem::F(f) => Some(*f as $t),
                    Elem::S(_) => None,
                }
            }
        }
    )*};
}
floats!(f32, f64);
impl H5Type for bool {
    const KIND: &'static str = "bool";
    fn to_elem(&self) -> Elem {
        Elem::I(*self as i128)
    }
    fn from_elem(e: &Elem) -> Option<Self> {
        match e {
            Elem::I(i) => Some(*i != 0),
            _ => None,
        }
    }
}

pub mod types {
    use super::{Elem, H5Type};
    macro_rules! strs {
        ($($n:ident),*) => {$(
            #[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
            pub struct $n(String);
            impl $n {
                pub fn as_str(&self) -> &str { &self.0 }
            }
            impl std::str::FromStr for $n {
                type Err = super::Error;
                fn from_str(s: &str) -> Result<Self, Self::Err> { Ok($n(s.to_string())) }
            }
            impl std::fmt::Display for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
            }
            impl std::ops::Deref for $n {
                type Target = str;
                fn deref(&self) -> &str { &self.0 }
            }
            impl H5Type for $n {
                const KIND: &'static str = "string";
                fn to_elem(&self) -> Elem { Elem::S(self.0.clone()) }
                fn from_elem(e: &Elem) -> Option<Self> {
                    match e { Elem::S(s) => Some($n(s.clone())), _ => None }
                }
            }
        )*};
    }
    strs!(VarLenUnicode, VarLenAscii);
}

#[derive(Clone, Debug)]
struct Data {
    kind: &'static str,
    convert: fn(&Elem) -> Option<Elem>,
    shape: Vec<usize>,
    values: Arc<Vec<Elem>>,
}
impl Data {
    fn empty<T: H5Type>(shape: Vec<usize>) -> Data {
        let n = shape.iter().product::<usize>();
        let zero = T::convert(&Elem::I(0)).unwrap_or(Elem::S(String::new()));
        Data { kind: T::KIND, convert: T::convert, shape, values: Arc::new(vec![zero; n]) }
    }
    fn of<T: H5Type, D: Dimension>(a: ArrayView<'_, T, D>) -> Data {
        Data {
            kind: T::KIND,
            convert: T::convert,
            shape: a.shape().to_vec(),
            values: Arc::new(a.iter().map(|v| v.to_elem()).collect()),
        }
    }
}

#[derive(Default, Debug)]
struct GroupData {
    attrs: HashMap<String, Data>,
    datasets: HashMap<String, Data>,
    /// attributes of datasets
    dattrs: HashMap<String, HashMap<String, Data>>,
    groups: Vec<String>,
    order: Vec<String>,
}
#[derive(Default, Debug)]
struct Store {
    groups: HashMap<String, GroupData>,
}
#[derive(Debug)]
struct Inner {
    name: String,
    store: Mutex<Store>,
}
fn lock(i: &Inner) -> MutexGuard<'_, Store> {
    i.store.lock().unwrap_or_else(|e| e.into_inner())
}

fn registry() -> &'static Mutex<HashMap<PathBuf, Arc<Inner>>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Arc<Inner>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

/// Used by the harness only.
pub mod stub {
    /// Drops the contents of a file and its placeholder.
    pub fn forget(path: &str) {
        super::registry().lock().unwrap_or_else(|e| e.into_inner()).remove(std::path::Path::new(path));
        let _ = std::fs::remove_file(path);
    }

    use super::*;
    const MAGIC: &str = "#up4-stub-hdf5";

    fn text(e: &Elem) -> String {
        match e {
            Elem::I(i) => i.to_string(),
            Elem::F(f) => format!("{f:?}"),
            Elem::S(s) => s.bytes().map(|b| format!("{b:02x}")).collect(),
        }
    }
    fn line(out: &mut String, what: &str, group: &str, name: &str, d: &Data) {
        let shape: Vec<String> = d.shape.iter().map(|n| n.to_string()).collect();
        let values: Vec<String> = d.values.iter().map(text).collect();
        out.push_str(&format!("{what}\t{group}\t{name}\t{}\t{}\t{}\n", d.kind, shape.join(","), values.join(" ")));
    }
    /// Replaces the placeholder of a file by its contents as text, which `open` of another process reads.
    pub fn dump(path: &str) -> Result<()> {
        let inner = registry().lock().unwrap_or_else(|e| e.into_inner()).get(Path::new(path)).cloned();
        let inner = inner.ok_or(Error(format!("no such file: {path}")))?;
        let s = lock(&inner);
        let mut out = format!("{MAGIC}\n");
        let mut names: Vec<&String> = s.groups.keys().collect();
        names.sort();
        for g in names {
            let d = &s.groups[g];
            out.push_str(&format!("group\t{g}\n"));
            let mut v: Vec<_> = d.attrs.iter().collect();
            v.sort_by_key(|x| x.0);
            v.iter().for_each(|(n, a)| line(&mut out, "attr", g, n, a));
            let mut v: Vec<_> = d.datasets.iter().collect();
            v.sort_by_key(|x| x.0);
            v.iter().for_each(|(n, a)| line(&mut out, "data", g, n, a));
        }
        std::fs::write(path, out).map_err(|e| Error(e.to_string()))
    }
    fn converter(kind: &str) -> Option<(&'static str, fn(&Elem) -> Option<Elem>)> {
        macro_rules! kinds {
            ($($t:ty),*) => {$(if kind == <$t>::KIND { return Some((<$t>::KIND, <$t>::convert)); })*};
        }
        kinds!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool, types::VarLenUnicode);
        None
    }
    fn value(kind: &str, t: &str) -> Option<Elem> {
        Some(match kind {
            "f32" | "f64" => Elem::F(t.parse().ok()?),
            "string" => Elem::S(
                String::from_utf8((0..t.len()).step_by(2).map(|i| u8::from_str_radix(t.get(i..i + 2)?, 16).ok()).collect::<Option<_>>()?).ok()?,
            ),
            _ => Elem::I(t.parse().ok()?),
        })
    }
    /// A file written by `dump` (or in its format).
    pub(crate) fn load(path: &Path) -> Option<Store> {
        let text = std::fs::read_to_string(path).ok()?;
        let mut lines = text.lines();
        if lines.next() != Some(MAGIC) {
            return None;
        }
        let mut s = Store::default();
        s.groups.insert(String::new(), GroupData::default());
        for l in lines {
            let f: Vec<&str> = l.split('\t').collect();
            match f[..] {
                ["group", ""] => {}
                ["group", g] => {
                    let (parent, leaf) = g.rsplit_once('/').unwrap_or(("", g));
                    let p = s.groups.get_mut(parent)?;
                    p.groups.push(leaf.to_string());
                    p.order.push(leaf.to_string());
                    s.groups.insert(g.to_string(), GroupData::default());
                }
                [what, g, name, kind, shape, values] => {
                    let (kind, convert) = converter(kind)?;
                    let shape: Option<Vec<usize>> = shape.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect();
                    let values: Option<Vec<Elem>> =
                        if kind == "string" { values.split(' ').map(|v| value(kind, v)).collect() } else { values.split_whitespace().map(|v| value(kind, v)).collect() };
                    let d = Data { kind, convert, shape: shape?, values: Arc::new(values?) };
                    if d.shape.iter().product::<usize>() != d.values.len() {
                        return None;
                    }
                    let g = s.groups.get_mut(g)?;
                    if what == "attr" {
                        g.attrs.insert(name.to_string(), d);
                    } else {
                        g.order.push(name.to_string());
                        g.datasets.insert(name.to_string(), d);
                    }
                }
                _ => return None,
            }
        }
        Some(s)
    }
    /// For the monitors of the Python layer, which reach this library through ctypes.
    ///
    /// # Safety
    /// `path` is a NUL-terminated string.
    #[no_mangle]
    pub unsafe extern "C" fn up4_stub_hdf5_dump(path: *const std::ffi::c_char) -> i32 {
        match std::ffi::CStr::from_ptr(path).to_str() {
            Ok(p) if dump(p).is_ok() => 0,
            _ => 1,
        }
    }
    /// # Safety
    /// `path` is a NUL-terminated string.
    #[no_mangle]
    pub unsafe extern "C" fn up4_stub_hdf5_forget(path: *const std::ffi::c_char) {
        if let Ok(p) = std::ffi::CStr::from_ptr(path).to_str() {
            forget(p)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Location {
    inner: Arc<Inner>,
    /// "" is the root group, "a/b" a nested one
    path: String,
    /// set for the attributes of a dataset
    dataset: Option<String>,
}
impl Location {
    pub fn filename(&self) -> String {
        self.inner.name.clone()
    }
    pub fn name(&self) -> String {
        match &self.dataset {
            Some(d) if self.path.is_empty() => format!("/{d}"),
            Some(d) => format!("/{}/{d}", self.path),
            None => format!("/{}", self.path),
        }
    }
    pub fn file(&self) -> Result<File> {
        Ok(File(Group(Location { inner: self.inner.clone(), path: String::new(), dataset: None })))
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilderEmpty {
        AttributeBuilderEmpty { loc: self.clone(), data: Data::empty::<T>(vec![]) }
    }
    pub fn new_attr_builder(&self) -> AttributeBuilder {
        AttributeBuilder { loc: self.clone() }
    }
    fn attrs<R>(&self, f: impl FnOnce(&mut HashMap<String, Data>) -> R) -> Result<R> {
        let mut s = lock(&self.inner);
        let g = match s.groups.get_mut(&self.path) {
            Some(g) => g,
            None => return err("invalid location"),
        };
        Ok(f(match &self.dataset {
            Some(d) => g.dattrs.entry(d.clone()).or_default(),
            None => &mut g.attrs,
        }))
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        if self.attrs(|a| a.contains_key(name))? {
            Ok(Attribute(Container { loc: self.clone(), name: name.to_string(), attr: true }))
        } else {
            err(format!("unable to open attribute: {name}"))
        }
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        let mut v = self.attrs(|a| a.keys().cloned().collect::<Vec<_>>())?;
        v.sort();
        Ok(v)
    }
    pub fn delete_attr(&self, name: &str) -> Result<()> {
        match self.attrs(|a| a.remove(name))? {
            Some(_) => Ok(()),
            None => err(format!("no attribute {name}")),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Group(Location);
impl Deref for Group {
    type Target = Location;
    fn deref(&self) -> &Location {
        &self.0
    }
}
#[derive(Clone, Debug)]
pub struct File(Group);
impl Deref for File {
    type Target = Group;
    fn deref(&self) -> &Group {
        &self.0
    }
}

fn clean(name: &str) -> &str {
    name.trim_matches('/')
}

impl Group {
    fn sub(&self, name: &str) -> String {
        let name = clean(name);
        if self.0.path.is_empty() {
            name.to_string()
        } else if name.is_empty() {
            self.0.path.clone()
        } else {
            format!("{}/{}", self.0.path, name)
        }
    }
    pub fn create_group(&self, name: &str) -> Result<Group> {
        let full = self.sub(name);
        let mut s = lock(&self.0.inner);
        let mut parent = self.0.path.clone();
        let parts: Vec<&str> = clean(name).split('/').collect();
        if s.groups.contains_key(&full) {
            return err(format!("unable to create group (name already exists): {name}"));
        }
        for p in parts {
            let here = if parent.is_empty() { p.to_string() } else { format!("{parent}/{p}") };
            if !s.groups.contains_key(&here) {
                let g = match s.groups.get_mut(&parent) {
                    Some(g) => g,
                    None => return err("invalid parent"),
                };
                if g.datasets.contains_key(p) {
                    return err(format!("name already exists: {p}"));
                }
                g.groups.push(p.to_string());
                g.order.push(p.to_string());
                s.groups.insert(here.clone(), GroupData::default());
            }
            parent = here;
        }
        Ok(Group(Location { inner: self.0.inner.clone(), path: full, dataset: None }))
    }
    pub fn group(&self, name: &str) -> Result<Group> {
        let full = self.sub(name);
        if lock(&self.0.inner).groups.contains_key(&full) {
            Ok(Group(Location { inner: self.0.inner.clone(), path: full, dataset: None }))
        } else {
            err(format!("unable to open group: {name}"))
        }
    }
    fn split(&self, name: &str) -> (String, String) {
        let full = self.sub(name);
        match full.rfind('/') {
            Some(i) => (full[..i].to_string(), full[i + 1..].to_string()),
            None => (String::new(), full),
        }
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        let (path, leaf) = self.split(name);
        let s = lock(&self.0.inner);
        match s.groups.get(&path) {
            Some(g) if g.datasets.contains_key(&leaf) => Ok(Dataset(Container {
                loc: Location { inner: self.0.inner.clone(), path, dataset: Some(leaf.clone()) },
                name: leaf,
                attr: false,
            })),
            _ => err(format!("unable to open dataset: {name}")),
        }
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilderEmpty {
        DatasetBuilderEmpty { group: self.clone(), data: Data::empty::<T>(vec![]) }
    }
    pub fn new_dataset_builder(&self) -> DatasetBuilder {
        DatasetBuilder { group: self.clone() }
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        let s = lock(&self.0.inner);
        match s.groups.get(&self.0.path) {
            Some(g) => {
                let mut v = g.order.clone();
                v.sort();
                Ok(v)
            }
            None => err("invalid group"),
        }
    }
    pub fn link_exists(&self, name: &str) -> bool {
        self.group(name).is_ok() || self.dataset(name).is_ok()
    }
    pub fn len(&self) -> u64 {
        self.member_names().map(|v| v.len() as u64).unwrap_or(0)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn groups(&self) -> Result<Vec<Group>> {
        let names = self.member_names()?;
        Ok(names.iter().filter_map(|n| self.group(n).ok()).collect())
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        let names = self.member_names()?;
        Ok(names.iter().filter_map(|n| self.dataset(n).ok()).collect())
    }
    pub fn unlink(&self, name: &str) -> Result<()> {
        let (path, leaf) = self.split(name);
        let full = self.sub(name);
        let mut s = lock(&self.0.inner);
        if let Some(g) = s.groups.get_mut(&path) {
            g.order.retain(|x| x != &leaf);
            if g.datasets.remove(&leaf).is_some() {
                g.dattrs.remove(&leaf);
                return Ok(());
            }
            g.groups.retain(|x| x != &leaf);
        }
        let pre = format!("{full}/");
        let n = s.groups.len();
        s.groups.retain(|k, _| k != &full && !k.starts_with(&pre));
        if s.groups.len() == n {
            err("no such link")
        } else {
            Ok(())
        }
    }
    fn put(&self, name: &str, data: Data) -> Result<Dataset> {
        access::tick();
        let (path, leaf) = self.split(name);
        {
            let mut s = lock(&self.0.inner);
            if s.groups.contains_key(&self.sub(name)) {
                return err(format!("name already exists: {name}"));
            }
            let g = match s.groups.get_mut(&path) {
                Some(g) => g,
                None => return err(format!("unable to create dataset: {name}")),
            };
            if g.datasets.contains_key(&leaf) {
                return err(format!("unable to create dataset (name already exists): {name}"));
            }
            g.datasets.insert(leaf.clone(), data);
            g.order.push(leaf);
        }
        self.dataset(name)
    }
}

impl File {
    pub fn open<P: AsRef<Path>>(path: P) -> Result<File> {
        let mut r = registry().lock().unwrap_or_else(|e| e.into_inner());
        if !r.contains_key(path.as_ref()) {
            if let Some(store) = stub::load(path.as_ref()) {
                let name = path.as_ref().to_string_lossy().to_string();
                r.insert(path.as_ref().to_path_buf(), Arc::new(Inner { name, store: Mutex::new(store) }));
            }
        }
        match r.get(path.as_ref()) {
            Some(i) if path.as_ref().exists() => {
                Ok(File(Group(Location { inner: i.clone(), path: String::new(), dataset: None })))
            }
            _ => err(format!("unable to open file: {}", path.as_ref().display())),
        }
    }
    pub fn open_rw<P: AsRef<Path>>(path: P) -> Result<File> {
        File::open(path)
    }
    pub fn create<P: AsRef<Path>>(path: P) -> Result<File> {
        if std::fs::write(path.as_ref(), b"\x89HDF\r\n\x1a\n").is_err() {
            return err(format!("unable to create file: {}", path.as_ref().display()));
        }
        let mut store = Store::default();
        store.groups.insert(String::new(), GroupData::default());
        let inner = Arc::new(Inner {
            name: path.as_ref().to_string_lossy().to_string(),
            store: Mutex::new(store),
        });
        registry()
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .insert(path.as_ref().to_path_buf(), inner.clone());
        Ok(File(Group(Location { inner, path: String::new(), dataset: None })))
    }
    pub fn create_excl<P: AsRef<Path>>(path: P) -> Result<File> {
        if path.as_ref().exists() {
            return err("file exists");
        }
        File::create(path)
    }
    pub fn append<P: AsRef<Path>>(path: P) -> Result<File> {
        if path.as_ref().exists() {
            File::open(path)
        } else {
            File::create(path)
        }
    }
    pub fn flush(&self) -> Result<()> {
        Ok(())
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
    pub fn as_group(&self) -> Result<Group> {
        Ok(self.0.clone())
    }
}

/// What datasets and attributes share.
#[derive(Clone, Debug)]
pub struct Container {
    loc: Location,
    name: String,
    attr: bool,
}
#[derive(Clone, Debug)]
pub struct Dataset(Container);
impl Deref for Dataset {
    type Target = Container;
    fn deref(&self) -> &Container {
        &self.0
    }
}
#[derive(Clone, Debug)]
pub struct Attribute(Container);
impl Deref for Attribute {
    type Target = Container;
    fn deref(&self) -> &Container {
        &self.0
    }
}
impl Dataset {
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilderEmpty {
        self.0.loc.new_attr::<T>()
    }
    pub fn new_attr_builder(&self) -> AttributeBuilder {
        self.0.loc.new_attr_builder()
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        self.0.loc.attr(name)
    }
}

/// A hyperslab.
pub struct Selection(Vec<SliceInfoElem>);
impl<T: AsRef<[SliceInfoElem]>, A: Dimension, B: Dimension> From<ndarray::SliceInfo<T, A, B>> for Selection {
    fn from(s: ndarray::SliceInfo<T, A, B>) -> Selection {
        Selection(AsRef::<[SliceInfoElem]>::as_ref(&s).to_vec())
    }
}
macro_rules! range_sel {
    ($($t:ty),*) => {$(
        impl From<$t> for Selection {
            fn from(s: $t) -> Selection { Selection(vec![SliceInfoElem::from(s)]) }
        }
    )*};
}
range_sel!(
    std::ops::Range<usize>, std::ops::RangeFrom<usize>, std::ops::RangeTo<usize>, std::ops::RangeInclusive<usize>,
    std::ops::RangeFull, usize
);

impl Container {
    fn data(&self) -> Result<Data> {
        if self.attr {
            return match self.loc.attrs(|a| a.get(&self.name).cloned())? {
                Some(d) => Ok(d),
                None => err("invalid attribute"),
            };
        }
        let s = lock(&self.loc.inner);
        match s.groups.get(&self.loc.path).and_then(|g| g.datasets.get(&self.name)) {
            Some(d) => Ok(d.clone()),
            None => err("invalid dataset"),
        }
    }
    fn modify(&self, f: impl FnOnce(&mut Data) -> Result<()>) -> Result<()> {
        if self.attr {
            return self.loc.attrs(|a| match a.get_mut(&self.name) {
                Some(d) => f(d),
                None => err("invalid attribute"),
            })?;
        }
        let mut s = lock(&self.loc.inner);
        match s.groups.get_mut(&self.loc.path).and_then(|g| g.datasets.get_mut(&self.name)) {
            Some(d) => f(d),
            None => err("invalid dataset"),
        }
    }
    pub fn name(&self) -> String {
        if self.attr {
            self.name.clone()
        } else {
            self.loc.name()
        }
    }
    pub fn filename(&self) -> String {
        self.loc.filename()
    }
    pub fn shape(&self) -> Vec<usize> {
        self.data().map(|d| d.shape).unwrap_or_default()
    }
    pub fn ndim(&self) -> usize {
        self.shape().len()
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn is_scalar(&self) -> bool {
        self.ndim() == 0
    }
    /// name of the stored element type (not part of hdf5-rust's API)
    pub fn stub_kind(&self) -> &'static str {
        self.data().map(|d| d.kind).unwrap_or("")
    }
    pub fn as_reader(&self) -> Container {
        self.clone()
    }
    pub fn as_writer(&self) -> Container {
        self.clone()
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        access::tick();
        let d = self.data()?;
        let v: Option<Vec<T>> = d.values.iter().map(T::from_elem).collect();
        v.ok_or_else(|| Error(format!("no conversion path for {}", self.name)))
    }
    pub fn read_dyn<T: H5Type>(&self) -> Result<ArrayD<T>> {
        let v = self.read_raw::<T>()?;
        ArrayD::from_shape_vec(IxDyn(&self.shape()), v).map_err(|e| Error(e.to_string()))
    }
    pub fn read<T: H5Type, D: Dimension>(&self) -> Result<Array<T, D>> {
        let a = self.read_dyn::<T>()?;
        let (have, want) = (a.ndim(), D::NDIM);
        a.into_dimensionality::<D>()
            .map_err(|_| Error(format!("ndim mismatch: expected {want:?}, got {have}")))
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        self.read()
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        self.read()
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        let a: Array0<T> = self.read()?;
        Ok(a.into_scalar())
    }
    pub fn read_slice<T: H5Type, S: Into<Selection>, D: Dimension>(&self, s: S) -> Result<Array<T, D>> {
        let a = self.read_dyn::<T>()?;
        let sel = s.into().0;
        if sel.len() != a.ndim() {
            return err("selection rank mismatch");
        }
        for (i, e) in sel.iter().enumerate() {
            let n = a.shape()[i] as isize;
            let bad = match e {
                SliceInfoElem::Slice { start, end, .. } => {
                    let f = |x: isize| if x < 0 { x + n } else { x };
                    f(*start) > n || end.map(f).unwrap_or(n) > n || f(*start) < 0
                }
                SliceInfoElem::Index(i) => *i >= n || *i < -n,
                _ => true,
            };
            if bad {
                return err("selection out of bounds");
            }
        }
        a.slice(&sel[..])
            .to_owned()
            .into_dimensionality::<D>()
            .map_err(|_| Error("ndim mismatch".into()))
    }
    pub fn read_slice_1d<T: H5Type, S: Into<Selection>>(&self, s: S) -> Result<Array1<T>> {
        self.read_slice(s)
    }
    pub fn read_slice_2d<T: H5Type, S: Into<Selection>>(&self, s: S) -> Result<Array2<T>> {
        self.read_slice(s)
    }
    pub fn write<'b, A, T, D>(&self, arr: A) -> Result<()>
    where
        A: Into<ArrayView<'b, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        access::tick();
        let new = Data::of(arr.into());
        self.modify(|d| {
            if d.shape != new.shape {
                return err("shape mismatch when writing");
            }
            let v: Option<Vec<Elem>> = new.values.iter().map(d.convert).collect();
            d.values = Arc::new(v.ok_or(Error("no conversion path".into()))?);
            Ok(())
        })
    }
    pub fn write_raw<'b, A, T>(&self, arr: A) -> Result<()>
    where
        A: Into<ArrayView<'b, T, ndarray::Ix1>>,
        T: H5Type,
    {
        let new = Data::of(arr.into());
        self.modify(|d| {
            if d.values.len() != new.values.len() {
                return err("length mismatch when writing");
            }
            let v: Option<Vec<Elem>> = new.values.iter().map(d.convert).collect();
            d.values = Arc::new(v.ok_or(Error("no conversion path".into()))?);
            Ok(())
        })
    }
    pub fn write_scalar<T: H5Type>(&self, val: &T) -> Result<()> {
        access::tick();
        let e = val.to_elem();
        self.modify(|d| {
            if !d.shape.is_empty() {
                return err("ndim mismatch: expected scalar");
            }
            d.values = Arc::new(vec![(d.convert)(&e).ok_or(Error("no conversion path".into()))?]);
            Ok(())
        })
    }
}

/// Array extents as accepted by `shape`.
pub struct Extents(Vec<usize>);
impl From<usize> for Extents {
    fn from(n: usize) -> Self {
        Extents(vec![n])
    }
}
impl From<()> for Extents {
    fn from(_: ()) -> Self {
        Extents(vec![])
    }
}
impl From<(usize,)> for Extents {
    fn from(n: (usize,)) -> Self {
        Extents(vec![n.0])
    }
}
impl From<(usize, usize)> for Extents {
    fn from(n: (usize, usize)) -> Self {
        Extents(vec![n.0, n.1])
    }
}
impl From<(usize, usize, usize)> for Extents {
    fn from(n: (usize, usize, usize)) -> Self {
        Extents(vec![n.0, n.1, n.2])
    }
}
impl<const N: usize> From<[usize; N]> for Extents {
    fn from(n: [usize; N]) -> Self {
        Extents(n.to_vec())
    }
}
impl From<&[usize]> for Extents {
    fn from(n: &[usize]) -> Self {
        Extents(n.to_vec())
    }
}
impl From<Vec<usize>> for Extents {
    fn from(n: Vec<usize>) -> Self {
        Extents(n)
    }
}

macro_rules! filters {
    () => {
        pub fn deflate(self, _level: u8) -> Self {
            self
        }
        pub fn shuffle(self) -> Self {
            self
        }
        pub fn fletcher32(self) -> Self {
            self
        }
        pub fn chunk_min_kb(self, _kb: usize) -> Self {
            self
        }
        pub fn no_chunk(self) -> Self {
            self
        }
        pub fn chunk<C: Into<Extents>>(self, _c: C) -> Self {
            self
        }
        pub fn track_times(self, _t: bool) -> Self {
            self
        }
        pub fn blosc_zstd<S>(self, _level: u8, _shuffle: S) -> Self {
            self
        }
        pub fn blosc_lz4<S>(self, _level: u8, _shuffle: S) -> Self {
            self
        }
        pub fn blosc_blosclz<S>(self, _level: u8, _shuffle: S) -> Self {
            self
        }
    };
}

#[derive(Clone)]
pub struct DatasetBuilder {
    group: Group,
}
impl DatasetBuilder {
    filters!();
    pub fn empty<T: H5Type>(self) -> DatasetBuilderEmpty {
        DatasetBuilderEmpty { group: self.group, data: Data::empty::<T>(vec![]) }
    }
    pub fn with_data<'d, A, T, D>(self, arr: A) -> DatasetBuilderData
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        DatasetBuilderData { group: self.group, data: Data::of(arr.into()) }
    }
}
#[derive(Clone)]
pub struct DatasetBuilderData {
    group: Group,
    data: Data,
}
impl DatasetBuilderData {
    filters!();
    pub fn create(&self, name: &str) -> Result<Dataset> {
        self.group.put(name, self.data.clone())
    }
}
#[derive(Clone)]
pub struct DatasetBuilderEmpty {
    group: Group,
    data: Data,
}
impl DatasetBuilderEmpty {
    filters!();
    pub fn shape<E: Into<Extents>>(mut self, e: E) -> Self {
        let shape = e.into().0;
        let n = shape.iter().product::<usize>();
        let zero = (self.data.convert)(&Elem::I(0)).unwrap_or(Elem::S(String::new()));
        self.data.shape = shape;
        self.data.values = Arc::new(vec![zero; n]);
        self
    }
    pub fn create(&self, name: &str) -> Result<Dataset> {
        self.group.put(name, self.data.clone())
    }
}

#[derive(Clone)]
pub struct AttributeBuilder {
    loc: Location,
}
impl AttributeBuilder {
    pub fn empty<T: H5Type>(self) -> AttributeBuilderEmpty {
        self.loc.new_attr::<T>()
    }
    pub fn with_data<'d, A, T, D>(self, arr: A) -> AttributeBuilderData
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        AttributeBuilderData { loc: self.loc, data: Data::of(arr.into()) }
    }
}
fn put_attr(loc: &Location, name: &str, data: Data) -> Result<Attribute> {
    let dup = loc.attrs(|a| {
        if a.contains_key(name) {
            true
        } else {
            a.insert(name.to_string(), data);
            false
        }
    })?;
    if dup {
        return err(format!("unable to create attribute (name already exists): {name}"));
    }
    loc.attr(name)
}
#[derive(Clone)]
pub struct AttributeBuilderData {
    loc: Location,
    data: Data,
}
impl AttributeBuilderData {
    pub fn create(&self, name: &str) -> Result<Attribute> {
        put_attr(&self.loc, name, self.data.clone())
    }
}
#[derive(Clone)]
pub struct AttributeBuilderEmpty {
    loc: Location,
    data: Data,
}
impl AttributeBuilderEmpty {
    pub fn shape<E: Into<Extents>>(mut self, e: E) -> Self {
        let shape = e.into().0;
        let n = shape.iter().product::<usize>();
        let zero = (self.data.convert)(&Elem::I(0)).unwrap_or(Elem::S(String::new()));
        self.data.shape = shape;
        self.data.values = Arc::new(vec![zero; n]);
        self
    }
    pub fn create(&self, name: &str) -> Result<Attribute> {
        put_attr(&self.loc, name, self.data.clone())
    }
}

pub mod filters {
    pub fn blosc_get_nthreads() -> u8 {
        1
    }
    pub fn blosc_set_nthreads(n: u8) -> u8 {
        n
    }
    pub fn blosc_available() -> bool {
        false
    }
}

/// How often data sets and attributes are read or written in this process, and an interrupt at a chosen access.
pub mod access {
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
    static COUNT: AtomicU64 = AtomicU64::new(0);
    static LEFT: AtomicI64 = AtomicI64::new(0);
    extern "C" {
        fn raise(signal: i32) -> i32;
    }
    pub(crate) fn tick() {
        COUNT.fetch_add(1, SeqCst);
        if LEFT.load(SeqCst) > 0 && LEFT.fetch_sub(1, SeqCst) == 1 {
            unsafe { raise(2) };
        }
    }
    /// accesses so far
    #[no_mangle]
    pub extern "C" fn up4_stub_hdf5_accesses() -> u64 {
        COUNT.load(SeqCst)
    }
    /// raises SIGINT at the n-th access from now on (0: at none)
    #[no_mangle]
    pub extern "C" fn up4_stub_hdf5_interrupt(n: i64) {
        LEFT.store(n, SeqCst);
    }
}
