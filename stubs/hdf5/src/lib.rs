//! Signatures of the part of the hdf5 crate that up4 names, so that its callers type-check where
//! the crate is not available. Bodies do nothing: the analysis models these calls by their path.

use ndarray::{Array1, Array2, ArrayView, Dimension};
use std::ops::Deref;
use std::path::Path;

#[derive(Debug, Clone)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("hdf5")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub unsafe trait H5Type: 'static {}
macro_rules! h5 { ($($t:ty),*) => { $(unsafe impl H5Type for $t {})* } }
h5!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool, types::VarLenUnicode,
    types::VarLenAscii);
unsafe impl<T: H5Type, const N: usize> H5Type for [T; N] {}

pub mod types {
    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct VarLenUnicode(String);
    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct VarLenAscii(String);
    macro_rules! text {
        ($t:ident) => {
            impl $t {
                pub fn new() -> Self {
                    $t(String::new())
                }
                pub fn as_str(&self) -> &str {
                    &self.0
                }
            }
            impl std::ops::Deref for $t {
                type Target = str;
                fn deref(&self) -> &str {
                    &self.0
                }
            }
            impl std::fmt::Display for $t {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(&self.0)
                }
            }
            impl std::str::FromStr for $t {
                type Err = super::Error;
                fn from_str(s: &str) -> Result<Self, super::Error> {
                    Ok($t(s.to_owned()))
                }
            }
        };
    }
    text!(VarLenUnicode);
    text!(VarLenAscii);
}

pub mod filters {
    pub fn blosc_get_nthreads() -> u8 {
        1
    }
    pub fn blosc_set_nthreads(_n: u8) -> u8 {
        1
    }
    pub fn blosc_available() -> bool {
        false
    }
}

#[derive(Debug, Clone)]
pub struct Location;
#[derive(Debug, Clone)]
pub struct Group(Location);
#[derive(Debug, Clone)]
pub struct File(Group);
#[derive(Debug, Clone)]
pub struct Container(Location);
#[derive(Debug, Clone)]
pub struct Dataset(Container);
#[derive(Debug, Clone)]
pub struct Attribute(Container);

macro_rules! up {
    ($t:ty, $u:ty) => {
        impl Deref for $t {
            type Target = $u;
            fn deref(&self) -> &$u {
                &self.0
            }
        }
    };
}
up!(File, Group);
up!(Group, Location);
up!(Container, Location);
up!(Dataset, Container);
up!(Attribute, Container);

impl File {
    pub fn open<P: AsRef<Path>>(_filename: P) -> Result<Self> {
        Err(Error)
    }
    pub fn open_rw<P: AsRef<Path>>(_filename: P) -> Result<Self> {
        Err(Error)
    }
    pub fn create<P: AsRef<Path>>(_filename: P) -> Result<Self> {
        Err(Error)
    }
    pub fn append<P: AsRef<Path>>(_filename: P) -> Result<Self> {
        Err(Error)
    }
    pub fn flush(&self) -> Result<()> {
        Err(Error)
    }
    pub fn size(&self) -> u64 {
        0
    }
    pub fn close(self) -> Result<()> {
        Err(Error)
    }
}

impl Location {
    pub fn name(&self) -> String {
        String::new()
    }
    pub fn filename(&self) -> String {
        String::new()
    }
    pub fn attr(&self, _name: &str) -> Result<Attribute> {
        Err(Error)
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        Err(Error)
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilderEmpty {
        AttributeBuilderEmpty
    }
    pub fn new_attr_builder(&self) -> AttributeBuilder {
        AttributeBuilder
    }
}

impl Group {
    pub fn len(&self) -> u64 {
        0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn group(&self, _name: &str) -> Result<Group> {
        Err(Error)
    }
    pub fn groups(&self) -> Result<Vec<Group>> {
        Err(Error)
    }
    pub fn dataset(&self, _name: &str) -> Result<Dataset> {
        Err(Error)
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        Err(Error)
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        Err(Error)
    }
    pub fn link_exists(&self, _name: &str) -> bool {
        false
    }
    pub fn create_group(&self, _name: &str) -> Result<Group> {
        Err(Error)
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilderEmpty {
        DatasetBuilderEmpty
    }
    pub fn new_dataset_builder(&self) -> DatasetBuilder {
        DatasetBuilder
    }
    pub fn unlink(&self, _name: &str) -> Result<()> {
        Err(Error)
    }
}

impl Container {
    pub fn shape(&self) -> Vec<usize> {
        vec![]
    }
    pub fn ndim(&self) -> usize {
        0
    }
    pub fn size(&self) -> usize {
        0
    }
    pub fn is_scalar(&self) -> bool {
        false
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        Err(Error)
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        Err(Error)
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        Err(Error)
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        Err(Error)
    }
    pub fn write_scalar<T: H5Type>(&self, _value: &T) -> Result<()> {
        Err(Error)
    }
    pub fn write<'d, A, T, D>(&self, _data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        Err(Error)
    }
    pub fn write_raw<'d, A, T, D>(&self, _data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        Err(Error)
    }
}

macro_rules! builder {
    ($empty:ident, $full:ident, $data:ident, $made:ident) => {
        #[derive(Debug, Clone)]
        pub struct $full;
        #[derive(Debug, Clone)]
        pub struct $empty;
        #[derive(Debug, Clone)]
        pub struct $data;
        impl $full {
            pub fn with_data<'d, A, T, D>(self, _data: A) -> $data
            where
                A: Into<ArrayView<'d, T, D>>,
                T: H5Type,
                D: Dimension,
            {
                $data
            }
            pub fn empty<T: H5Type>(self) -> $empty {
                $empty
            }
            pub fn blosc_zstd(self, _level: u8, _shuffle: bool) -> Self {
                self
            }
            pub fn blosc_blosclz(self, _level: u8, _shuffle: bool) -> Self {
                self
            }
            pub fn deflate(self, _level: u8) -> Self {
                self
            }
            pub fn chunk(self, _shape: (usize, usize)) -> Self {
                self
            }
        }
        impl $empty {
            pub fn shape(self, _shape: usize) -> $empty {
                self
            }
            pub fn create(self, _name: &str) -> Result<$made> {
                Err(Error)
            }
        }
        impl $data {
            pub fn create(self, _name: &str) -> Result<$made> {
                Err(Error)
            }
        }
    };
}
builder!(AttributeBuilderEmpty, AttributeBuilder, AttributeBuilderData, Attribute);
builder!(DatasetBuilderEmpty, DatasetBuilder, DatasetBuilderData, Dataset);
