//! Stand-in for the part of vtkio that up4 names: files are plain text, with one line
//! `polydata` or `unstructured`, a line `points <numbers>`, lines `piece` that start another piece, and lines `array <name> <numbers>` (a data
//! array of the points) or `field <name> <numbers>` (an array of their one field attribute).

#[derive(Debug)]
pub struct Error;

pub mod model {
    use super::Error;
    use std::path::Path;

    pub trait Scalar: Copy + PartialOrd + std::fmt::Debug + 'static {
        fn of(v: f64) -> Self;
    }
    macro_rules! scalar { ($($t:ty),*) => { $(impl Scalar for $t {
        fn of(v: f64) -> Self { v as $t }
    })* } }
    scalar!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);

    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct IOBuffer(pub Vec<f64>);
    impl IOBuffer {
        pub fn cast_into<T: Scalar>(self) -> Option<Vec<T>> {
            Some(self.0.into_iter().map(T::of).collect())
        }
        pub fn into_vec<T: Scalar>(self) -> Option<Vec<T>> {
            self.cast_into()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct DataArrayBase {
        pub name: String,
        pub elem: ElementType,
        pub data: IOBuffer,
    }
    pub type DataArray = DataArrayBase;
    pub type FieldArray = DataArrayBase;
    #[derive(Debug, Clone, PartialEq)]
    pub enum ElementType {
        Scalars { num_comp: u32 },
        Vectors,
        Generic(u32),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Attribute {
        DataArray(DataArray),
        Field { name: String, data_array: Vec<FieldArray> },
    }
    impl Attribute {
        pub fn name(&self) -> &str {
            match self {
                Attribute::DataArray(d) => &d.name,
                Attribute::Field { name, .. } => name,
            }
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct Attributes {
        pub point: Vec<Attribute>,
        pub cell: Vec<Attribute>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Piece<P> {
        Source(std::path::PathBuf),
        Inline(Box<P>),
    }
    impl<P: Clone> Piece<P> {
        pub fn load_piece_data(&self, _path: Option<&Path>) -> Result<P, Error> {
            match self {
                Piece::Inline(p) => Ok((**p).clone()),
                _ => Err(Error),
            }
        }
        pub fn into_loaded_piece_data(self, path: Option<&Path>) -> Result<P, Error> {
            self.load_piece_data(path)
        }
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct PolyDataPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct UnstructuredGridPiece {
        pub points: IOBuffer,
        pub data: Attributes,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum DataSet {
        UnstructuredGrid { meta: Option<u8>, pieces: Vec<Piece<UnstructuredGridPiece>> },
        PolyData { meta: Option<u8>, pieces: Vec<Piece<PolyDataPiece>> },
        Field { name: String, data_array: Vec<FieldArray> },
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct Vtk {
        pub title: String,
        pub data: DataSet,
    }
    impl Vtk {
        pub fn import(path: impl AsRef<Path>) -> Result<Vtk, Error> {
            let text = std::fs::read_to_string(path).map_err(|_| Error)?;
            let mut poly = true;
            let mut pieces = vec![(IOBuffer::default(), Vec::new(), Vec::new())];
            for line in text.lines() {
                let words: Vec<&str> = line.split_whitespace().collect();
                let nums = |k: usize| {
                    IOBuffer(words[k..].iter().map(|w| w.parse().unwrap()).collect::<Vec<f64>>())
                };
                let array = || DataArray {
                    name: words[1].to_string(),
                    elem: ElementType::Generic(1),
                    data: nums(2),
                };
                let last = pieces.len() - 1;
                match words.first() {
                    Some(&"polydata") => poly = true,
                    Some(&"unstructured") => poly = false,
                    Some(&"piece") => pieces.push((IOBuffer::default(), Vec::new(), Vec::new())),
                    Some(&"points") => pieces[last].0 = nums(1),
                    Some(&"array") => pieces[last].1.push(Attribute::DataArray(array())),
                    Some(&"field") => pieces[last].2.push(array()),
                    _ => {}
                }
            }
            let pieces = pieces.into_iter().map(|(points, mut point, fields)| {
                if !fields.is_empty() {
                    point.push(Attribute::Field { name: "FieldData".to_string(), data_array: fields });
                }
                (points, Attributes { point, cell: Vec::new() })
            });
            Ok(Vtk {
                title: String::new(),
                data: if poly {
                    DataSet::PolyData {
                        meta: None,
                        pieces: pieces
                            .map(|(points, data)| Piece::Inline(Box::new(PolyDataPiece { points, data })))
                            .collect(),
                    }
                } else {
                    DataSet::UnstructuredGrid {
                        meta: None,
                        pieces: pieces
                            .map(|(points, data)| Piece::Inline(Box::new(UnstructuredGridPiece { points, data })))
                            .collect(),
                    }
                },
            })
        }
        pub fn load_all_pieces(&mut self) -> Result<(), Error> {
            Ok(())
        }
    }
}
