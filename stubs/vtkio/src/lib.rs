//! Signatures of the part of vtkio that up4 names (see ../../hdf5/src/lib.rs).

#[derive(Debug)]
pub struct Error;

pub mod model {
    use super::Error;
    use std::path::Path;

    pub trait Scalar: Copy + PartialOrd + std::fmt::Debug + 'static {}
    macro_rules! scalar { ($($t:ty),*) => { $(impl Scalar for $t {})* } }
    scalar!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);

    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct IOBuffer;
    impl IOBuffer {
        pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> {
            None
        }
        pub fn into_vec<T: Scalar>(self) -> Option<Vec<T>> {
            None
        }
        pub fn len(&self) -> usize {
            0
        }
        pub fn is_empty(&self) -> bool {
            true
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct DataArrayBase {
        pub name: String,
        pub elem: ElementType,
        pub data: IOBuffer,
    }
    pub type DataArray = DataArrayBase;
    pub type FieldArray = DataArrayBase;
    #[derive(Debug, Clone, PartialEq)]
    pub enum ElementType {
        Scalars { num_comp: u32 },
        Vectors,
        Generic(u32),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Attribute {
        DataArray(DataArray),
        Field { name: String, data_array: Vec<FieldArray> },
    }
    impl Attribute {
        pub fn name(&self) -> &str {
            match self {
                Attribute::DataArray(d) => &d.name,
                Attribute::Field { name, .. } => name,
            }
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct Attributes {
        pub point: Vec<Attribute>,
        pub cell: Vec<Attribute>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Piece<P> {
        Source(std::path::PathBuf),
        Inline(Box<P>),
    }
    impl<P: Clone> Piece<P> {
        pub fn load_piece_data(&self, _path: Option<&Path>) -> Result<P, Error> {
            Err(Error)
        }
        pub fn into_loaded_piece_data(self, _path: Option<&Path>) -> Result<P, Error> {
            Err(Error)
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct PolyDataPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct UnstructuredGridPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum DataSet {
        UnstructuredGrid { meta: Option<u8>, pieces: Vec<Piece<UnstructuredGridPiece>> },
        PolyData { meta: Option<u8>, pieces: Vec<Piece<PolyDataPiece>> },
        Field { name: String, data_array: Vec<FieldArray> },
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Vtk {
        pub title: String,
        pub data: DataSet,
    }
    impl Vtk {
        pub fn import(_path: impl AsRef<Path>) -> Result<Vtk, Error> {
            Err(Error)
        }
        pub fn load_all_pieces(&mut self) -> Result<(), Error> {
            Err(Error)
        }
    }
}
