//! The part of the hdf5 crate that up4 names, with files that live in memory: what is written
//! under a file name in this process can be read back under it. Every number is kept as f64.

use ndarray::{Array1, Array2, ArrayView, Dimension};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::ops::Deref;
use std::path::Path;

#[derive(Debug, Clone)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("hdf5")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub unsafe trait H5Type: 'static + Sized {
    fn put(&self) -> Option<f64> {
        None
    }
    fn take(_x: f64) -> Option<Self> {
        None
    }
}
macro_rules! h5 { ($($t:ty),*) => { $(unsafe impl H5Type for $t {
    fn put(&self) -> Option<f64> {
        Some(*self as f64)
    }
    fn take(x: f64) -> Option<Self> {
        Some(x as $t)
    }
})* } }
h5!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
unsafe impl H5Type for bool {}
unsafe impl H5Type for types::VarLenUnicode {}
unsafe impl H5Type for types::VarLenAscii {}
unsafe impl<T: H5Type, const N: usize> H5Type for [T; N] {}

type Content = (Vec<usize>, Vec<f64>);
/// content of every file: "file//group/name" for data, "file//group/name@" for attributes,
/// "file//group/" for groups
static DISK: Mutex<BTreeMap<String, Content>> = Mutex::new(BTreeMap::new());

fn disk() -> std::sync::MutexGuard<'static, BTreeMap<String, Content>> {
    DISK.lock().unwrap_or_else(|e| e.into_inner())
}

fn path_of<P: AsRef<Path>>(p: P) -> String {
    format!("{}//", p.as_ref().display())
}

fn content<'d, A, T, D>(data: A) -> Option<Content>
where
    A: Into<ArrayView<'d, T, D>>,
    T: H5Type,
    D: Dimension,
{
    let v = data.into();
    let xs: Option<Vec<f64>> = v.iter().map(|x| x.put()).collect();
    Some((v.shape().to_vec(), xs?))
}

pub mod types {
    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct VarLenUnicode(String);
    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct VarLenAscii(String);
    macro_rules! text {
        ($t:ident) => {
            impl $t {
                pub fn new() -> Self {
                    $t(String::new())
                }
                pub fn as_str(&self) -> &str {
                    &self.0
                }
            }
            impl std::ops::Deref for $t {
                type Target = str;
                fn deref(&self) -> &str {
                    &self.0
                }
            }
            impl std::fmt::Display for $t {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(&self.0)
                }
            }
            impl std::str::FromStr for $t {
                type Err = super::Error;
                fn from_str(s: &str) -> Result<Self, super::Error> {
                    Ok($t(s.to_owned()))
                }
            }
        };
    }
    text!(VarLenUnicode);
    text!(VarLenAscii);
}

pub mod filters {
    pub fn blosc_get_nthreads() -> u8 {
        1
    }
    pub fn blosc_set_nthreads(_n: u8) -> u8 {
        1
    }
    pub fn blosc_available() -> bool {
        false
    }
}

#[derive(Debug, Clone)]
pub struct Location(String);
#[derive(Debug, Clone)]
pub struct Group(Location);
#[derive(Debug, Clone)]
pub struct File(Group);
#[derive(Debug, Clone)]
pub struct Container(Location);
#[derive(Debug, Clone)]
pub struct Dataset(Container);
#[derive(Debug, Clone)]
pub struct Attribute(Container);

macro_rules! up {
    ($t:ty, $u:ty) => {
        impl Deref for $t {
            type Target = $u;
            fn deref(&self) -> &$u {
                &self.0
            }
        }
    };
}
up!(File, Group);
up!(Group, Location);
up!(Container, Location);
up!(Dataset, Container);
up!(Attribute, Container);

impl File {
    fn at(p: String) -> Self {
        File(Group(Location(p)))
    }
    pub fn open<P: AsRef<Path>>(filename: P) -> Result<Self> {
        let p = path_of(filename);
        if disk().contains_key(&p) {
            Ok(File::at(p))
        } else {
            Err(Error)
        }
    }
    pub fn open_rw<P: AsRef<Path>>(filename: P) -> Result<Self> {
        File::open(filename)
    }
    pub fn create<P: AsRef<Path>>(filename: P) -> Result<Self> {
        let p = path_of(filename);
        let mut d = disk();
        d.retain(|k, _| !k.starts_with(&p));
        d.insert(p.clone(), (vec![], vec![]));
        Ok(File::at(p))
    }
    pub fn append<P: AsRef<Path>>(filename: P) -> Result<Self> {
        File::open(filename)
    }
    pub fn flush(&self) -> Result<()> {
        Ok(())
    }
    pub fn size(&self) -> u64 {
        0
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
}

impl Location {
    pub fn name(&self) -> String {
        self.0.split("//").nth(1).unwrap_or("").to_owned()
    }
    pub fn filename(&self) -> String {
        self.0.split("//").next().unwrap_or("").to_owned()
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        let p = format!("{}{}@", self.0, name);
        if disk().contains_key(&p) {
            Ok(Attribute(Container(Location(p))))
        } else {
            Err(Error)
        }
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        Err(Error)
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilderEmpty {
        AttributeBuilderEmpty(self.0.clone(), vec![])
    }
    pub fn new_attr_builder(&self) -> AttributeBuilder {
        AttributeBuilder(self.0.clone())
    }
}

impl Group {
    pub fn len(&self) -> u64 {
        0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn group(&self, name: &str) -> Result<Group> {
        let p = format!("{}{}/", self.0 .0, name);
        if disk().contains_key(&p) {
            Ok(Group(Location(p)))
        } else {
            Err(Error)
        }
    }
    pub fn groups(&self) -> Result<Vec<Group>> {
        Err(Error)
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        let p = format!("{}{}", self.0 .0, name);
        if disk().contains_key(&p) {
            Ok(Dataset(Container(Location(p))))
        } else {
            Err(Error)
        }
    }
    pub fn datasets(&self) -> Result<Vec<Dataset>> {
        Err(Error)
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        Err(Error)
    }
    pub fn link_exists(&self, _name: &str) -> bool {
        false
    }
    pub fn create_group(&self, name: &str) -> Result<Group> {
        let p = format!("{}{}/", self.0 .0, name);
        if disk().insert(p.clone(), (vec![], vec![])).is_some() {
            return Err(Error);
        }
        Ok(Group(Location(p)))
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilderEmpty {
        DatasetBuilderEmpty(self.0 .0.clone(), vec![])
    }
    pub fn new_dataset_builder(&self) -> DatasetBuilder {
        DatasetBuilder(self.0 .0.clone())
    }
    pub fn unlink(&self, _name: &str) -> Result<()> {
        Err(Error)
    }
}

impl Container {
    fn get(&self) -> Content {
        disk().get(&self.0 .0).cloned().unwrap_or_default()
    }
    fn set(&self, c: Option<Content>) -> Result<()> {
        disk().insert(self.0 .0.clone(), c.ok_or(Error)?);
        Ok(())
    }
    pub fn shape(&self) -> Vec<usize> {
        self.get().0
    }
    pub fn ndim(&self) -> usize {
        self.get().0.len()
    }
    pub fn size(&self) -> usize {
        self.get().1.len()
    }
    pub fn is_scalar(&self) -> bool {
        self.ndim() == 0
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        if self.ndim() != 1 {
            return Err(Error);
        }
        Ok(Array1::from_vec(self.read_raw()?))
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        let n = self.shape();
        if n.len() != 2 {
            return Err(Error);
        }
        Array2::from_shape_vec((n[0], n[1]), self.read_raw()?).map_err(|_| Error)
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        self.get().1.into_iter().map(|x| T::take(x).ok_or(Error)).collect()
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        let xs = self.get().1;
        if !self.is_scalar() || xs.is_empty() {
            return Err(Error);
        }
        T::take(xs[0]).ok_or(Error)
    }
    pub fn write_scalar<T: H5Type>(&self, value: &T) -> Result<()> {
        self.set(value.put().map(|x| (vec![], vec![x])))
    }
    pub fn write<'d, A, T, D>(&self, data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        self.set(content(data))
    }
    pub fn write_raw<'d, A, T, D>(&self, data: A) -> Result<()>
    where
        A: Into<ArrayView<'d, T, D>>,
        T: H5Type,
        D: Dimension,
    {
        self.write(data)
    }
}

macro_rules! builder {
    ($empty:ident, $full:ident, $data:ident, $made:ident, $mark:expr) => {
        #[derive(Debug, Clone)]
        pub struct $full(String);
        #[derive(Debug, Clone)]
        pub struct $empty(String, Vec<usize>);
        #[derive(Debug, Clone)]
        pub struct $data(String, Option<Content>);
        impl $full {
            pub fn with_data<'d, A, T, D>(self, data: A) -> $data
            where
                A: Into<ArrayView<'d, T, D>>,
                T: H5Type,
                D: Dimension,
            {
                $data(self.0, content(data))
            }
            pub fn empty<T: H5Type>(self) -> $empty {
                $empty(self.0, vec![])
            }
            pub fn blosc_zstd(self, _level: u8, _shuffle: bool) -> Self {
                self
            }
            pub fn blosc_blosclz(self, _level: u8, _shuffle: bool) -> Self {
                self
            }
            pub fn deflate(self, _level: u8) -> Self {
                self
            }
            pub fn chunk(self, _shape: (usize, usize)) -> Self {
                self
            }
        }
        impl $empty {
            pub fn shape(mut self, shape: usize) -> $empty {
                self.1 = vec![shape];
                self
            }
            pub fn create(self, name: &str) -> Result<$made> {
                let n = self.1.iter().product();
                let c = if self.1.is_empty() { vec![] } else { vec![0.; n] };
                disk().insert(format!("{}{}{}", self.0, name, $mark), (self.1, c));
                Ok($made(Container(Location(format!("{}{}{}", self.0, name, $mark)))))
            }
        }
        impl $data {
            pub fn create(self, name: &str) -> Result<$made> {
                let p = format!("{}{}{}", self.0, name, $mark);
                disk().insert(p.clone(), self.1.ok_or(Error)?);
                Ok($made(Container(Location(p))))
            }
        }
    };
}
builder!(AttributeBuilderEmpty, AttributeBuilder, AttributeBuilderData, Attribute, "@");
builder!(DatasetBuilderEmpty, DatasetBuilder, DatasetBuilderData, Dataset, "");
