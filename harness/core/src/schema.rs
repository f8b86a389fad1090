//! What the derive attributes of a type say, as data.
use crate::val::Val;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sc {
  Str,
  Bool,
  I8,
  U8,
  I16,
  U16,
  I32,
  U32,
  I64,
  U64,
  F32,
  F64,
  /// written only
  Char,
}

impl Sc {
  /// The value a text stands for, as canonical text.
  pub fn parse(self, s: &str) -> Option<Val> {
    fn p<T: std::str::FromStr + ToString>(s: &str) -> Option<Val> {
      s.parse::<T>().ok().map(|v| Val::S(v.to_string()))
    }
    match self {
      Sc::Str => Some(Val::S(s.to_string())),
      Sc::Bool => p::<bool>(match s {
        "1" => "true",
        "0" => "false",
        s => s,
      }),
      Sc::I8 => p::<i8>(s),
      Sc::U8 => p::<u8>(s),
      Sc::I16 => p::<i16>(s),
      Sc::U16 => p::<u16>(s),
      Sc::I32 => p::<i32>(s),
      Sc::U32 => p::<u32>(s),
      Sc::I64 => p::<i64>(s),
      Sc::U64 => p::<u64>(s),
      Sc::F32 => p::<f32>(s),
      Sc::F64 => p::<f64>(s),
      Sc::Char => p::<char>(s),
    }
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Base {
  Sc(Sc),
  Ty(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mult {
  One,
  Opt,
  Vec,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
  Elem,
  Attr,
  Text,
  Cdata,
  Flatten,
}

#[derive(Clone, Debug)]
pub struct Field {
  pub ident: &'static str,
  pub name: &'static str,
  pub prefix: Option<&'static str>,
  pub kind: Kind,
  pub mult: Mult,
  pub base: Base,
  pub default: Option<Val>,
  pub skip: bool,
  pub skip_if: Option<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Variant {
  pub ident: &'static str,
  pub name: &'static str,
  pub prefix: Option<&'static str>,
  pub flatten: bool,
  /// The members of the payload stand in the enum's own element.
  pub named: bool,
  pub payload: Option<(Mult, Base)>,
}

#[derive(Clone, Debug)]
pub enum Def {
  Struct(Vec<Field>),
  Enum(Vec<Variant>, Val),
  Prim(Sc),
  /// bits, mask of known bits
  Hex(u32, u64),
}

#[derive(Clone, Debug)]
pub struct Ty {
  pub id: usize,
  pub rust: &'static str,
  pub root: &'static str,
  pub prefix: Option<&'static str>,
  pub dns: Option<&'static str>,
  pub nss: Vec<(&'static str, &'static str)>,
  pub flatten: bool,
  pub tag: Option<&'static str>,
  pub def: Def,
  pub ser: bool,
  pub de: bool,
  pub rt: bool,
  pub groups: &'static str,
}

impl Ty {
  pub fn uri(&self, prefix: Option<&str>) -> Option<&'static str> {
    self
      .nss
      .iter()
      .find(|(p, _)| Some(*p) == prefix)
      .map(|(_, u)| *u)
  }
  pub fn fields(&self) -> &[Field] {
    match &self.def {
      Def::Struct(f) => f,
      _ => &[],
    }
  }
  pub fn has(&self, group: &str) -> bool {
    self.groups.split(' ').any(|g| g == group)
  }
  /// Qualified name a prefix and local name are written as.
  pub fn qname(&self, prefix: Option<&str>, local: &str) -> String {
    match prefix {
      Some(p) if self.dns != Some(p) => format!("{}:{}", p, local),
      _ => local.to_string(),
    }
  }
}

#[derive(Clone)]
pub struct Schema {
  pub tys: Vec<Ty>,
  /// Documents also hold the lists that are read from attributes and never written.
  pub list_attrs: bool,
}

impl Schema {
  pub fn get(&self, id: usize) -> &Ty {
    &self.tys[id]
  }
  pub fn by_name(&self, name: &str) -> &Ty {
    self
      .tys
      .iter()
      .find(|t| t.rust == name)
      .unwrap_or_else(|| panic!("no type {}", name))
  }
}
