//! Stand-in for the writing half of the csv crate (not available offline): the same records, quoting,
//! header row and buffering.
use serde::ser::{self, Serialize};
use std::io::{self, Write};

#[derive(Debug)]
pub enum Error {
  Io(io::Error),
  UnequalLengths,
  Serialize(String),
}
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
  fn from(e: io::Error) -> Error { Error::Io(e) }
}
impl From<Error> for io::Error {
  fn from(e: Error) -> io::Error {
    match e {
      Error::Io(e) => e,
      e => io::Error::new(io::ErrorKind::Other, e),
    }
  }
}
impl ser::Error for Error {
  fn custom<T: std::fmt::Display>(m: T) -> Error { Error::Serialize(m.to_string()) }
}

const BUFFER: usize = 8 * 1024;

pub struct Writer<W: Write> {
  w: Option<W>,
  buf: Vec<u8>,
  fields: Option<usize>,
  first: bool,
}
impl<W: Write> Writer<W> {
  pub fn from_writer(w: W) -> Writer<W> { Writer { w: Some(w), buf: Vec::new(), fields: None, first: true } }
  fn flush_buf(&mut self) -> io::Result<()> {
    let b = std::mem::take(&mut self.buf);
    self.w.as_mut().unwrap().write_all(&b)
  }
  pub fn write_record<I, T>(&mut self, record: I) -> Result<()>
  where
    I: IntoIterator<Item = T>,
    T: AsRef<[u8]>,
  {
    let fs: Vec<Vec<u8>> = record.into_iter().map(|f| f.as_ref().to_vec()).collect();
    let mut line = Vec::new();
    for (i, f) in fs.iter().enumerate() {
      if i > 0 {
        line.push(b',');
      }
      if f.iter().any(|b| b",\"\r\n".contains(b)) || f.is_empty() && fs.len() == 1 {
        line.push(b'"');
        for b in f {
          if *b == b'"' {
            line.push(b'"');
          }
          line.push(*b);
        }
        line.push(b'"');
      } else {
        line.extend(f);
      }
    }
    match self.fields {
      Some(n) if n != fs.len() => return Err(Error::UnequalLengths),
      _ => self.fields = Some(fs.len()),
    }
    if fs.is_empty() {
      line.extend(b"\"\"");
    }
    line.push(b'\n');
    for chunk in line.chunks(BUFFER) {
      if self.buf.len() + chunk.len() > BUFFER {
        self.flush_buf()?;
      }
      self.buf.extend(chunk);
    }
    Ok(())
  }
  pub fn serialize<S: Serialize>(&mut self, s: S) -> Result<()> {
    let mut r = Fields::default();
    s.serialize(&mut r)?;
    if self.first {
      self.first = false;
      if !r.names.is_empty() {
        self.write_record(r.names.iter())?;
      }
    }
    self.write_record(r.values.iter())
  }
  pub fn flush(&mut self) -> io::Result<()> {
    self.flush_buf()?;
    self.w.as_mut().unwrap().flush()
  }
  pub fn into_inner(mut self) -> io::Result<W> {
    self.flush()?;
    Ok(self.w.take().unwrap())
  }
  pub fn get_ref(&self) -> &W { self.w.as_ref().unwrap() }
}
impl<W: Write> Drop for Writer<W> {
  fn drop(&mut self) {
    if self.w.is_some() && !std::thread::panicking() {
      let _ = self.flush();
    }
  }
}

/// the fields of a flat record
#[derive(Default)]
struct Fields {
  names: Vec<&'static str>,
  values: Vec<String>,
}
macro_rules! shown {
  ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<()> { self.values.push(v.to_string()); Ok(()) })* };
}
macro_rules! refused {
  ($($f:ident ($($a:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $a),*) -> Result<$r> { Err(Error::Serialize(stringify!($f).into())) })* };
}
impl<'a> ser::Serializer for &'a mut Fields {
  type Ok = ();
  type Error = Error;
  type SerializeSeq = Self;
  type SerializeTuple = Self;
  type SerializeTupleStruct = Self;
  type SerializeTupleVariant = ser::Impossible<(), Error>;
  type SerializeMap = ser::Impossible<(), Error>;
  type SerializeStruct = Self;
  type SerializeStructVariant = ser::Impossible<(), Error>;
  shown!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
    serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str);
  refused! {
    serialize_bytes(&[u8]) -> ();
    serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
    serialize_map(Option<usize>) -> Self::SerializeMap;
    serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
  }
  fn serialize_none(self) -> Result<()> {
    self.values.push(String::new());
    Ok(())
  }
  fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<()> { v.serialize(self) }
  fn serialize_unit(self) -> Result<()> { self.serialize_none() }
  fn serialize_unit_struct(self, n: &'static str) -> Result<()> { self.serialize_str(n) }
  fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<()> { self.serialize_str(v) }
  fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<()> { v.serialize(self) }
  fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<()> { v.serialize(self) }
  fn serialize_seq(self, _: Option<usize>) -> Result<Self> { Ok(self) }
  fn serialize_tuple(self, _: usize) -> Result<Self> { Ok(self) }
  fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self> { Ok(self) }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self> { Ok(self) }
}
impl ser::SerializeSeq for &mut Fields {
  type Ok = ();
  type Error = Error;
  fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { v.serialize(&mut **self) }
  fn end(self) -> Result<()> { Ok(()) }
}
impl ser::SerializeTuple for &mut Fields {
  type Ok = ();
  type Error = Error;
  fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { v.serialize(&mut **self) }
  fn end(self) -> Result<()> { Ok(()) }
}
impl ser::SerializeTupleStruct for &mut Fields {
  type Ok = ();
  type Error = Error;
  fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { v.serialize(&mut **self) }
  fn end(self) -> Result<()> { Ok(()) }
}
impl ser::SerializeStruct for &mut Fields {
  type Ok = ();
  type Error = Error;
  fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, v: &T) -> Result<()> {
    self.names.push(n);
    v.serialize(&mut **self)
  }
  fn end(self) -> Result<()> { Ok(()) }
}
