//! Stand-in for the absent git dependency: the part of its interface surfrs uses, reading real
//! DAP2 responses (a textual structure of grids and arrays, then their values in XDR).
use std::collections::HashMap;
use std::convert::TryFrom;
use std::fmt;
use std::marker::PhantomData;

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    ParseError,
    NotImplemented,
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DataValue {
    Int16(i16),
    Int32(i32),
    Float32(f32),
    Float64(f64),
}

#[derive(Debug, Clone, PartialEq)]
pub enum DataArray {
    Int16(Vec<i16>),
    Int32(Vec<i32>),
    Float32(Vec<f32>),
    Float64(Vec<f64>),
}

impl DataArray {
    fn values(&self) -> Vec<DataValue> {
        match self {
            DataArray::Int16(v) => v.iter().map(|x| DataValue::Int16(*x)).collect(),
            DataArray::Int32(v) => v.iter().map(|x| DataValue::Int32(*x)).collect(),
            DataArray::Float32(v) => v.iter().map(|x| DataValue::Float32(*x)).collect(),
            DataArray::Float64(v) => v.iter().map(|x| DataValue::Float64(*x)).collect(),
        }
    }
}

macro_rules! from_value {
    ($t:ty) => {
        impl TryFrom<DataValue> for $t {
            type Error = Error;
            fn try_from(v: DataValue) -> Result<$t, Error> {
                Ok(match v {
                    DataValue::Int16(x) => x as $t,
                    DataValue::Int32(x) => x as $t,
                    DataValue::Float32(x) => x as $t,
                    DataValue::Float64(x) => x as $t,
                })
            }
        }
        impl TryFrom<DataArray> for Vec<$t> {
            type Error = Error;
            fn try_from(v: DataArray) -> Result<Vec<$t>, Error> {
                v.values().into_iter().map(<$t>::try_from).collect()
            }
        }
    };
}
from_value!(f64);
from_value!(f32);
from_value!(i32);
from_value!(i64);

#[derive(Debug, Clone)]
struct Variable {
    data: DataArray,
    coords: Vec<(String, DataArray)>,
}

#[derive(Debug, Clone)]
pub struct DodsDataset<'a> {
    variables: HashMap<String, Variable>,
    data: PhantomData<&'a [u8]>,
}

/// type, name, lengths
type Decl = (String, String, Vec<usize>);

fn decl(line: &str) -> Option<Decl> {
    let line = line.trim().strip_suffix(';')?;
    let (kind, rest) = line.split_once(' ')?;
    let mut parts = rest.trim().split('[');
    let name = parts.next()?.to_string();
    let mut lens = vec![];
    for p in parts {
        let n = p.strip_suffix(']')?;
        let n = n.rsplit('=').next()?.trim().parse().ok()?;
        lens.push(n);
    }
    Some((kind.to_string(), name, lens))
}

fn take<'b>(b: &mut &'b [u8], n: usize) -> Result<&'b [u8], Error> {
    if b.len() < n {
        return Err(Error::ParseError);
    }
    let (x, rest) = b.split_at(n);
    *b = rest;
    Ok(x)
}

fn word(b: &mut &[u8]) -> Result<[u8; 4], Error> {
    Ok(take(b, 4)?.try_into().unwrap())
}

fn array(d: &Decl, b: &mut &[u8]) -> Result<DataArray, Error> {
    let n = if d.2.is_empty() {
        1
    } else {
        let n = u32::from_be_bytes(word(b)?) as usize;
        if u32::from_be_bytes(word(b)?) as usize != n || n != d.2.iter().product::<usize>() {
            return Err(Error::ParseError);
        }
        n
    };
    Ok(match d.0.as_str() {
        "Int16" => DataArray::Int16((0..n).map(|_| Ok(i32::from_be_bytes(word(b)?) as i16)).collect::<Result<_, Error>>()?),
        "Int32" => DataArray::Int32((0..n).map(|_| Ok(i32::from_be_bytes(word(b)?))).collect::<Result<_, Error>>()?),
        "Float32" => DataArray::Float32((0..n).map(|_| Ok(f32::from_be_bytes(word(b)?))).collect::<Result<_, Error>>()?),
        "Float64" => DataArray::Float64(
            (0..n).map(|_| Ok(f64::from_be_bytes(take(b, 8)?.try_into().unwrap()))).collect::<Result<_, Error>>()?,
        ),
        _ => return Err(Error::NotImplemented),
    })
}

impl<'a> DodsDataset<'a> {
    pub fn from_bytes(bytes: &'a [u8]) -> Result<Self, Error> {
        let mark = b"\nData:\n";
        let at = bytes.windows(mark.len()).position(|w| w == mark).ok_or(Error::ParseError)?;
        let text = std::str::from_utf8(&bytes[..at]).map_err(|_| Error::ParseError)?;
        let mut b = &bytes[at + mark.len()..];
        let mut variables = HashMap::new();
        let mut grid: Option<Vec<Decl>> = None;
        let mut lines = text.lines();
        if lines.next().map(|l| l.trim()) != Some("Dataset {") {
            return Err(Error::ParseError);
        }
        for line in lines {
            let line = line.trim();
            if line == "Grid {" {
                grid = Some(vec![]);
            } else if line == "ARRAY:" || line == "MAPS:" || line.is_empty() {
            } else if let Some(rest) = line.strip_prefix('}') {
                let Some(decls) = grid.take() else { break };
                let name = rest.trim().trim_end_matches(';').to_string();
                let first = decls.first().ok_or(Error::ParseError)?;
                let data = array(first, &mut b)?;
                let mut coords = vec![];
                for d in &decls[1..] {
                    coords.push((d.1.clone(), array(d, &mut b)?));
                }
                variables.insert(name, Variable { data, coords });
            } else {
                let d = decl(line).ok_or(Error::ParseError)?;
                match &mut grid {
                    Some(g) => g.push(d),
                    None => {
                        let data = array(&d, &mut b)?;
                        variables.insert(d.1.clone(), Variable { data, coords: vec![] });
                    }
                }
            }
        }
        Ok(DodsDataset { variables, data: PhantomData })
    }

    pub fn variables(&self) -> Vec<String> {
        let mut v: Vec<String> = self.variables.keys().cloned().collect();
        v.sort();
        v
    }

    pub fn variable_coords(&self, key: &str) -> Result<Vec<(String, DataArray)>, Error> {
        self.variables.get(key).map(|v| v.coords.clone()).ok_or(Error::ParseError)
    }

    pub fn variable_data(&self, key: &str) -> Result<DataArray, Error> {
        self.variables.get(key).map(|v| v.data.clone()).ok_or(Error::ParseError)
    }

    pub fn variable_data_iter(&self, key: &str) -> Result<impl Iterator<Item = DataValue> + 'static, Error> {
        Ok(self.variable_data(key)?.values().into_iter())
    }
}
