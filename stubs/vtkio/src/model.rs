use crate::Error;
use num_traits::NumCast;
use std::path::{Path, PathBuf};

pub trait Scalar: NumCast + Copy + 'static {}
macro_rules! scalars { ($($t:ty),*) => { $(impl Scalar for $t {})* } }
scalars!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);

#[derive(Clone, Debug, PartialEq)]
pub enum IOBuffer {
    Bit(Vec<u8>),
    U8(Vec<u8>),
    I8(Vec<i8>),
    U16(Vec<u16>),
    I16(Vec<i16>),
    U32(Vec<u32>),
    I32(Vec<i32>),
    U64(Vec<u64>),
    I64(Vec<i64>),
    F32(Vec<f32>),
    F64(Vec<f64>),
}
impl Default for IOBuffer {
    fn default() -> Self {
        IOBuffer::F32(vec![])
    }
}
macro_rules! each {
    ($s:expr, $v:ident => $e:expr) => {
        match $s {
            IOBuffer::Bit($v) => $e,
            IOBuffer::U8($v) => $e,
            IOBuffer::I8($v) => $e,
            IOBuffer::U16($v) => $e,
            IOBuffer::I16($v) => $e,
            IOBuffer::U32($v) => $e,
            IOBuffer::I32($v) => $e,
            IOBuffer::U64($v) => $e,
            IOBuffer::I64($v) => $e,
            IOBuffer::F32($v) => $e,
            IOBuffer::F64($v) => $e,
        }
    };
}
impl IOBuffer {
    pub fn len(&self) -> usize {
        each!(self, v => v.len())
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// Numeric conversion of every element; `None` if one does not fit.
    pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> {
        each!(self, v => v.into_iter().map(|x| NumCast::from(x)).collect())
    }
}
macro_rules! from_vec { ($($t:ty => $v:ident),*) => { $(impl From<Vec<$t>> for IOBuffer {
    fn from(v: Vec<$t>) -> Self { IOBuffer::$v(v) }
})* } }
from_vec!(i8 => I8, u16 => U16, i16 => I16, u32 => U32, i32 => I32, u64 => U64, i64 => I64, f32 => F32, f64 => F64);

#[derive(Clone, Debug, PartialEq, Default)]
pub struct DataArrayBase<E> {
    pub name: String,
    pub elem: E,
    pub data: IOBuffer,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ElementType {
    ColorScalars(u32),
    LookupTable,
    Scalars { num_comp: u32, lookup_table: Option<String> },
    Vectors,
    Normals,
    TCoords(u32),
    Tensors,
    Generic(u32),
}
impl Default for ElementType {
    fn default() -> Self {
        ElementType::Generic(1)
    }
}
pub type DataArray = DataArrayBase<ElementType>;
pub type FieldArray = DataArrayBase<u32>;
impl<E> DataArrayBase<E> {
    pub fn len(&self) -> usize {
        self.data.len()
    }
    pub fn is_empty(&self) -> bool {
        self.data.is_empty()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Attribute {
    DataArray(DataArray),
    Field { name: String, data_array: Vec<FieldArray> },
}
impl Attribute {
    pub fn name(&self) -> &str {
        match self {
            Attribute::DataArray(d) => d.name.as_str(),
            Attribute::Field { name, .. } => name.as_str(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Attributes {
    pub point: Vec<Attribute>,
    pub cell: Vec<Attribute>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub enum VertexNumbers {
    #[default]
    None,
    Legacy { num_cells: u32, vertices: Vec<u32> },
    XML { connectivity: Vec<u64>, offsets: Vec<u64> },
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct PolyDataPiece {
    pub points: IOBuffer,
    pub verts: Option<VertexNumbers>,
    pub lines: Option<VertexNumbers>,
    pub polys: Option<VertexNumbers>,
    pub strips: Option<VertexNumbers>,
    pub data: Attributes,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Cells {
    pub cell_verts: VertexNumbers,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct UnstructuredGridPiece {
    pub points: IOBuffer,
    pub cells: Cells,
    pub data: Attributes,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Piece<P> {
    Source(PathBuf),
    Loaded(Box<P>),
    Inline(Box<P>),
}
impl<P: Clone> Piece<P> {
    pub fn new_inline(p: P) -> Self {
        Piece::Inline(Box::new(p))
    }
    pub fn load_piece_data(&self, _source_path: Option<&Path>) -> Result<P, Error> {
        match self {
            Piece::Source(p) => Err(Error(format!("cannot load {}", p.display()))),
            Piece::Loaded(p) | Piece::Inline(p) => Ok((**p).clone()),
        }
    }
    pub fn into_loaded_piece_data(self, source_path: Option<&Path>) -> Result<P, Error> {
        self.load_piece_data(source_path)
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MetaData;
#[derive(Clone, Debug, PartialEq)]
pub enum DataSet {
    PolyData { meta: Option<Box<MetaData>>, pieces: Vec<Piece<PolyDataPiece>> },
    UnstructuredGrid { meta: Option<Box<MetaData>>, pieces: Vec<Piece<UnstructuredGridPiece>> },
    Field { name: String, data_array: Vec<FieldArray> },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Vtk {
    pub title: String,
    pub file_path: Option<PathBuf>,
    pub data: DataSet,
}
impl Vtk {
    pub fn import(path: impl AsRef<Path>) -> Result<Vtk, Error> {
        let r = crate::stub::registry().lock().unwrap_or_else(|e| e.into_inner());
        match r.get(path.as_ref()) {
            Some(v) if path.as_ref().exists() => Ok(v.clone()),
            _ => crate::stub::load(path.as_ref()).ok_or_else(|| Error(format!("cannot import {}", path.as_ref().display()))),
        }
    }
    pub fn load_all_pieces(&mut self) -> Result<(), Error> {
        Ok(())
    }
}
