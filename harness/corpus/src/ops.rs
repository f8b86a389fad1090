//! Operations of the library on a type, by value of the model.
use std::io::{Read, Write};
use vcore::val::{Bind, Val};
use yaserde::ser::Config;
use yaserde::{YaDeserialize, YaSerialize};

pub type R<T> = Result<T, String>;

pub struct Ops {
  pub de: Option<fn(&str) -> R<Val>>,
  pub de_r: Option<fn(&mut dyn Read) -> R<Val>>,
  pub ser: Option<fn(&Val) -> R<String>>,
  pub ser_c: Option<fn(&Val, &Config) -> R<String>>,
  pub ser_content: Option<fn(&Val) -> R<String>>,
  pub ser_w: Option<fn(&Val, &mut dyn Write, &Config) -> R<()>>,
  pub ser_cw: Option<fn(&Val, &mut dyn Write) -> R<()>>,
}

pub fn de<T: YaDeserialize + Bind>(s: &str) -> R<Val> {
  yaserde::de::from_str::<T>(s).map(|v| v.to_val())
}
pub fn de_r<T: YaDeserialize + Bind>(r: &mut dyn Read) -> R<Val> {
  yaserde::de::from_reader::<_, T>(r).map(|v| v.to_val())
}
pub fn ser<T: YaSerialize + Bind>(v: &Val) -> R<String> {
  yaserde::ser::to_string(&T::from_val(v))
}
pub fn ser_c<T: YaSerialize + Bind>(v: &Val, c: &Config) -> R<String> {
  yaserde::ser::to_string_with_config(&T::from_val(v), c)
}
pub fn ser_content<T: YaSerialize + Bind>(v: &Val) -> R<String> {
  yaserde::ser::to_string_content(&T::from_val(v))
}
pub fn ser_w<T: YaSerialize + Bind>(v: &Val, w: &mut dyn Write, c: &Config) -> R<()> {
  yaserde::ser::serialize_with_writer(&T::from_val(v), w, c).map(|_| ())
}
pub fn ser_cw<T: YaSerialize + Bind>(v: &Val, w: &mut dyn Write) -> R<()> {
  yaserde::ser::serialize_with_writer_content(&T::from_val(v), w).map(|_| ())
}
