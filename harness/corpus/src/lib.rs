//! Generated by gen/corpus.py. Do not edit.
#![allow(non_snake_case, non_camel_case_types, dead_code, unused_variables, clippy::all)]
#[macro_use]
extern crate yaserde;
use vcore::schema::*;
use vcore::val::*;
use yaserde::{YaDeserialize, YaSerialize};
pub use inst;
pub mod ops;
use ops::*;

#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Leaf {
  pub a: String,
}
impl Bind for Leaf {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => Leaf { a: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafN {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: u32,
}
impl Bind for LeafN {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.n.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => LeafN { n: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafO {
  /// A documented member
  pub o: Option<u32>,
}
impl Bind for LeafO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.o.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => LeafO { o: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafV {
  #[cfg(not(any()))]
  pub i: Vec<u8>,
}
impl Bind for LeafV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.i.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => LeafV { i: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafA {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub x: u32,
}
impl Bind for LeafA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => LeafA { x: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafAS {
  #[yaserde(attribute = true)]
  pub s: String,
  /// A documented member
  #[yaserde(attribute = true)]
  pub t: Option<String>,
}
impl Bind for LeafAS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.s.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => LeafAS { s: Bind::from_val(&l[0]), t: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafT {
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub t: String,
}
impl Bind for LeafT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => LeafT { t: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafAT {
  /// A documented member
  #[yaserde(attribute = true)]
  pub x: Option<u32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub t: String,
}
impl Bind for LeafAT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => LeafAT { x: Bind::from_val(&l[0]), t: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct LeafOT {
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub t: Option<String>,
}
impl Bind for LeafOT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => LeafOT { t: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Empty {

}
impl Bind for Empty {
  fn to_val(&self) -> Val {
    Val::Struct(vec![])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 0 => Empty {  },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Two {
  pub a: String,
  /// A documented member
  pub b: u32,
}
impl Bind for Two {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Two { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "node")]
pub struct ANode {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub id: String,
  #[cfg(not(any()))]
  pub v: u8,
  pub w: Option<bool>,
}
impl Bind for ANode {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.id.to_val(), self.v.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => ANode { id: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), w: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum UnitE {
  A,
  /// A documented variant
  B,
  #[yaserde(rename = "see")]
  C,
}
impl Bind for UnitE {
  fn to_val(&self) -> Val {
    match self {
      UnitE::A => Val::Var(0, None),
      UnitE::B => Val::Var(1, None),
      UnitE::C => Val::Var(2, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => UnitE::A,
      Val::Var(1, None) => UnitE::B,
      Val::Var(2, None) => UnitE::C,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for UnitE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "unit-d")]
pub enum UnitD {
  A,
  /// A documented variant
  B,
  #[yaserde(rename = "x.y-z")]
  Weird,
}
impl Bind for UnitD {
  fn to_val(&self) -> Val {
    match self {
      UnitD::A => Val::Var(0, None),
      UnitD::B => Val::Var(1, None),
      UnitD::Weird => Val::Var(2, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => UnitD::A,
      Val::Var(1, None) => UnitD::B,
      Val::Var(2, None) => UnitD::Weird,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for UnitD {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum NewE {
  U,
  /// A documented variant
  S(String),
  N(u32),
  B(bool),
  /// A documented variant
  L(Leaf),
  A(LeafA),
  OS(Option<String>),
  /// A documented variant
  OL(Option<Leaf>),
  VS(Vec<String>),
  VN(Vec<u16>),
  /// A documented variant
  #[yaserde(rename = "vl")]
  VL(Vec<Leaf>),
}
impl Bind for NewE {
  fn to_val(&self) -> Val {
    match self {
      NewE::U => Val::Var(0, None),
      NewE::S(x) => Val::var(1, x.to_val()),
      NewE::N(x) => Val::var(2, x.to_val()),
      NewE::B(x) => Val::var(3, x.to_val()),
      NewE::L(x) => Val::var(4, x.to_val()),
      NewE::A(x) => Val::var(5, x.to_val()),
      NewE::OS(x) => Val::var(6, x.to_val()),
      NewE::OL(x) => Val::var(7, x.to_val()),
      NewE::VS(x) => Val::var(8, x.to_val()),
      NewE::VN(x) => Val::var(9, x.to_val()),
      NewE::VL(x) => Val::var(10, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NewE::U,
      Val::Var(1, Some(x)) => NewE::S(Bind::from_val(x)),
      Val::Var(2, Some(x)) => NewE::N(Bind::from_val(x)),
      Val::Var(3, Some(x)) => NewE::B(Bind::from_val(x)),
      Val::Var(4, Some(x)) => NewE::L(Bind::from_val(x)),
      Val::Var(5, Some(x)) => NewE::A(Bind::from_val(x)),
      Val::Var(6, Some(x)) => NewE::OS(Bind::from_val(x)),
      Val::Var(7, Some(x)) => NewE::OL(Bind::from_val(x)),
      Val::Var(8, Some(x)) => NewE::VS(Bind::from_val(x)),
      Val::Var(9, Some(x)) => NewE::VN(Bind::from_val(x)),
      Val::Var(10, Some(x)) => NewE::VL(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NewE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum NewT {
  T(LeafT),
  /// A documented variant
  AT(LeafAT),
  E(Empty),
  I(UnitE),
  /// A documented variant
  #[yaserde(rename = "two")]
  X(Two),
  V(Vec<LeafAT>),
  VE(Vec<UnitE>),
  /// A documented variant
  D(f64),
}
impl Bind for NewT {
  fn to_val(&self) -> Val {
    match self {
      NewT::T(x) => Val::var(0, x.to_val()),
      NewT::AT(x) => Val::var(1, x.to_val()),
      NewT::E(x) => Val::var(2, x.to_val()),
      NewT::I(x) => Val::var(3, x.to_val()),
      NewT::X(x) => Val::var(4, x.to_val()),
      NewT::V(x) => Val::var(5, x.to_val()),
      NewT::VE(x) => Val::var(6, x.to_val()),
      NewT::D(x) => Val::var(7, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => NewT::T(Bind::from_val(x)),
      Val::Var(1, Some(x)) => NewT::AT(Bind::from_val(x)),
      Val::Var(2, Some(x)) => NewT::E(Bind::from_val(x)),
      Val::Var(3, Some(x)) => NewT::I(Bind::from_val(x)),
      Val::Var(4, Some(x)) => NewT::X(Bind::from_val(x)),
      Val::Var(5, Some(x)) => NewT::V(Bind::from_val(x)),
      Val::Var(6, Some(x)) => NewT::VE(Bind::from_val(x)),
      Val::Var(7, Some(x)) => NewT::D(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NewT {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::Struct(vec![Val::s("a")])))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum NewA {
  #[yaserde(rename = "a")]
  S(String),
  /// A documented variant
  #[yaserde(rename = "b")]
  T(String),
  None,
}
impl Bind for NewA {
  fn to_val(&self) -> Val {
    match self {
      NewA::S(x) => Val::var(0, x.to_val()),
      NewA::T(x) => Val::var(1, x.to_val()),
      NewA::None => Val::Var(2, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => NewA::S(Bind::from_val(x)),
      Val::Var(1, Some(x)) => NewA::T(Bind::from_val(x)),
      Val::Var(2, None) => NewA::None,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NewA {
  fn default() -> Self {
    Bind::from_val(&Val::Var(2, None))
  }
}
#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]
pub struct PrimS(pub String);
impl Bind for PrimS {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    PrimS(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]
pub struct PrimI(pub i32);
impl Bind for PrimI {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    PrimI(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]
pub struct PrimU(pub u8);
impl Bind for PrimU {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    PrimU(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]
pub struct PrimB(pub bool);
impl Bind for PrimB {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    PrimB(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]
pub struct PrimF(pub f64);
impl Bind for PrimF {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    PrimF(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]
pub struct PrimL(pub u64);
impl Bind for PrimL {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    PrimL(Bind::from_val(v))
  }
}
pub mod h_hex8 {
  #[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]
  pub struct Hex8(pub u8);
  impl Hex8 {
    pub fn from_bits(b: u8) -> Option<Self> {
      (b & !(0xffu64 as u8) == 0).then_some(Hex8(b))
    }
    pub fn from_bits_truncate(b: u8) -> Self {
      Hex8(b & (0xffu64 as u8))
    }
    pub fn from_bits_retain(b: u8) -> Self {
      Hex8(b)
    }
    pub fn bits(&self) -> u8 {
      self.0
    }
    pub fn all() -> Self {
      Hex8(0xffu64 as u8)
    }
    pub fn empty() -> Self {
      Hex8(0)
    }
    pub fn is_empty(&self) -> bool {
      self.0 == 0
    }
  }
}
pub use h_hex8::Hex8;
impl Bind for Hex8 {
  fn to_val(&self) -> Val {
    Val::S(format!("{:02X}", self.0))
  }
  fn from_val(v: &Val) -> Self {
    Hex8(u8::from_str_radix(v.text(), 16).expect("hex"))
  }
}
pub mod h_hex16 {
  #[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]
  pub struct Hex16(pub u16);
  impl Hex16 {
    pub fn from_bits(b: u16) -> Option<Self> {
      (b & !(0xffffu64 as u16) == 0).then_some(Hex16(b))
    }
    pub fn from_bits_truncate(b: u16) -> Self {
      Hex16(b & (0xffffu64 as u16))
    }
    pub fn from_bits_retain(b: u16) -> Self {
      Hex16(b)
    }
    pub fn bits(&self) -> u16 {
      self.0
    }
    pub fn all() -> Self {
      Hex16(0xffffu64 as u16)
    }
    pub fn empty() -> Self {
      Hex16(0)
    }
    pub fn is_empty(&self) -> bool {
      self.0 == 0
    }
  }
}
pub use h_hex16::Hex16;
impl Bind for Hex16 {
  fn to_val(&self) -> Val {
    Val::S(format!("{:02X}", self.0))
  }
  fn from_val(v: &Val) -> Self {
    Hex16(u16::from_str_radix(v.text(), 16).expect("hex"))
  }
}
pub mod h_hex32 {
  #[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]
  pub struct Hex32(pub u32);
  impl Hex32 {
    pub fn from_bits(b: u32) -> Option<Self> {
      (b & !(0xffffffffu64 as u32) == 0).then_some(Hex32(b))
    }
    pub fn from_bits_truncate(b: u32) -> Self {
      Hex32(b & (0xffffffffu64 as u32))
    }
    pub fn from_bits_retain(b: u32) -> Self {
      Hex32(b)
    }
    pub fn bits(&self) -> u32 {
      self.0
    }
    pub fn all() -> Self {
      Hex32(0xffffffffu64 as u32)
    }
    pub fn empty() -> Self {
      Hex32(0)
    }
    pub fn is_empty(&self) -> bool {
      self.0 == 0
    }
  }
}
pub use h_hex32::Hex32;
impl Bind for Hex32 {
  fn to_val(&self) -> Val {
    Val::S(format!("{:02X}", self.0))
  }
  fn from_val(v: &Val) -> Self {
    Hex32(u32::from_str_radix(v.text(), 16).expect("hex"))
  }
}
pub mod h_hex64 {
  #[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]
  pub struct Hex64(pub u64);
  impl Hex64 {
    pub fn from_bits(b: u64) -> Option<Self> {
      (b & !(0xffffffffffffffffu64 as u64) == 0).then_some(Hex64(b))
    }
    pub fn from_bits_truncate(b: u64) -> Self {
      Hex64(b & (0xffffffffffffffffu64 as u64))
    }
    pub fn from_bits_retain(b: u64) -> Self {
      Hex64(b)
    }
    pub fn bits(&self) -> u64 {
      self.0
    }
    pub fn all() -> Self {
      Hex64(0xffffffffffffffffu64 as u64)
    }
    pub fn empty() -> Self {
      Hex64(0)
    }
    pub fn is_empty(&self) -> bool {
      self.0 == 0
    }
  }
}
pub use h_hex64::Hex64;
impl Bind for Hex64 {
  fn to_val(&self) -> Val {
    Val::S(format!("{:02X}", self.0))
  }
  fn from_val(v: &Val) -> Self {
    Hex64(u64::from_str_radix(v.text(), 16).expect("hex"))
  }
}
pub mod h_hexm {
  #[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]
  pub struct HexM(pub u16);
  impl HexM {
    pub fn from_bits(b: u16) -> Option<Self> {
      (b & !(0xf0f1u64 as u16) == 0).then_some(HexM(b))
    }
    pub fn from_bits_truncate(b: u16) -> Self {
      HexM(b & (0xf0f1u64 as u16))
    }
    pub fn from_bits_retain(b: u16) -> Self {
      HexM(b)
    }
    pub fn bits(&self) -> u16 {
      self.0
    }
    pub fn all() -> Self {
      HexM(0xf0f1u64 as u16)
    }
    pub fn empty() -> Self {
      HexM(0)
    }
    pub fn is_empty(&self) -> bool {
      self.0 == 0
    }
  }
}
pub use h_hexm::HexM;
impl Bind for HexM {
  fn to_val(&self) -> Val {
    Val::S(format!("{:02X}", self.0))
  }
  fn from_val(v: &Val) -> Self {
    HexM(u16::from_str_radix(v.text(), 16).expect("hex"))
  }
}
#[derive(Debug, PartialEq, Clone, DefaultYaSerde)]
pub struct DefI(pub i16);
impl std::fmt::Display for DefI {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.0)
  }
}
impl std::str::FromStr for DefI {
  type Err = String;
  fn from_str(s: &str) -> Result<Self, String> {
    s.parse().map(DefI).map_err(|_| "no".to_string())
  }
}
impl Bind for DefI {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    DefI(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, DefaultYaSerde)]
pub struct DefS(pub String);
impl std::fmt::Display for DefS {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.0)
  }
}
impl std::str::FromStr for DefS {
  type Err = String;
  fn from_str(s: &str) -> Result<Self, String> {
    s.parse().map(DefS).map_err(|_| "no".to_string())
  }
}
impl Bind for DefS {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    DefS(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone)]
pub struct Cust(pub String);
impl YaSerialize for Cust {
  fn serialize<W: std::io::Write>(&self, writer: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {
    use yaserde::__xml::writer::XmlEvent;
    let own = !writer.skip_start_end();
    let name = writer.get_start_event_name().unwrap_or_else(|| "Cust".to_string());
    if own {
      writer.write(XmlEvent::start_element(name.as_str())).map_err(|e| e.to_string())?;
    }
    writer.write(XmlEvent::characters(&self.0)).map_err(|e| e.to_string())?;
    if own {
      writer.write(XmlEvent::end_element()).map_err(|e| e.to_string())?;
    }
    Ok(())
  }
  fn serialize_attributes(
    &self,
    attributes: Vec<yaserde::__xml::attribute::OwnedAttribute>,
    namespace: yaserde::__xml::namespace::Namespace,
  ) -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> {
    Ok((attributes, namespace))
  }
}
impl YaDeserialize for Cust {
  fn deserialize<R: std::io::Read>(reader: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {
    use yaserde::__xml::reader::XmlEvent;
    match reader.next_event()? {
      XmlEvent::StartElement { .. } => {}
      e => return Err(format!("no element: {:?}", e)),
    }
    let mut text = String::new();
    loop {
      match reader.peek()?.to_owned() {
        XmlEvent::Characters(t) => {
          text += &t;
          reader.next_event()?;
        }
        // what is left is the caller's business
        _ => return Ok(Cust(text)),
      }
    }
  }
}
impl Bind for Cust {
  fn to_val(&self) -> Val {
    self.0.to_val()
  }
  fn from_val(v: &Val) -> Self {
    Cust(Bind::from_val(v))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosPrimS {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: PrimS,
  #[cfg(not(any()))]
  pub o: Option<PrimS>,
  pub v: Vec<PrimS>,
  /// A documented member
  #[yaserde(rename = "re-named")]
  pub r: Option<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: PrimS,
  #[yaserde(attribute = true, rename = "b.b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<PrimS>,
}
impl Bind for PosPrimS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosPrimS { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVPrimS {
  /// A documented member
  #[yaserde(attribute = true)]
  pub w: Vec<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
}
impl Bind for PosVPrimS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVPrimS { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEPrimS {
  N,
  /// A documented variant
  V(PrimS),
  O(Option<PrimS>),
  W(Vec<PrimS>),
}
impl Bind for PosEPrimS {
  fn to_val(&self) -> Val {
    match self {
      PosEPrimS::N => Val::Var(0, None),
      PosEPrimS::V(x) => Val::var(1, x.to_val()),
      PosEPrimS::O(x) => Val::var(2, x.to_val()),
      PosEPrimS::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEPrimS::N,
      Val::Var(1, Some(x)) => PosEPrimS::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEPrimS::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEPrimS::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEPrimS {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosPrimI {
  #[allow(unused)]
  #[doc(hidden)]
  pub e: PrimI,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub o: Option<PrimI>,
  #[cfg(not(any()))]
  pub v: Vec<PrimI>,
  #[yaserde(rename = "re-named")]
  pub r: Option<PrimI>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<PrimI>,
}
impl Bind for PosPrimI {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosPrimI { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVPrimI {
  #[yaserde(attribute = true)]
  pub w: Vec<PrimI>,
  /// A documented member
  pub x: Option<u8>,
}
impl Bind for PosVPrimI {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVPrimI { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEPrimI {
  N,
  /// A documented variant
  V(PrimI),
  O(Option<PrimI>),
  W(Vec<PrimI>),
}
impl Bind for PosEPrimI {
  fn to_val(&self) -> Val {
    match self {
      PosEPrimI::N => Val::Var(0, None),
      PosEPrimI::V(x) => Val::var(1, x.to_val()),
      PosEPrimI::O(x) => Val::var(2, x.to_val()),
      PosEPrimI::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEPrimI::N,
      Val::Var(1, Some(x)) => PosEPrimI::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEPrimI::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEPrimI::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEPrimI {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosPrimU {
  /// A documented member
  pub e: PrimU,
  #[allow(unused)]
  #[doc(hidden)]
  pub o: Option<PrimU>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<PrimU>,
  #[yaserde(rename = "re-named")]
  #[cfg(not(any()))]
  pub r: Option<PrimU>,
  #[yaserde(attribute = true)]
  pub a: PrimU,
  /// A documented member
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(rename = "b.b",)]
  pub b: Option<PrimU>,
}
impl Bind for PosPrimU {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosPrimU { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVPrimU {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub w: Vec<PrimU>,
  pub x: Option<u8>,
}
impl Bind for PosVPrimU {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVPrimU { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEPrimU {
  N,
  /// A documented variant
  V(PrimU),
  O(Option<PrimU>),
  W(Vec<PrimU>),
}
impl Bind for PosEPrimU {
  fn to_val(&self) -> Val {
    match self {
      PosEPrimU::N => Val::Var(0, None),
      PosEPrimU::V(x) => Val::var(1, x.to_val()),
      PosEPrimU::O(x) => Val::var(2, x.to_val()),
      PosEPrimU::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEPrimU::N,
      Val::Var(1, Some(x)) => PosEPrimU::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEPrimU::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEPrimU::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEPrimU {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosPrimB {
  pub e: PrimB,
  /// A documented member
  pub o: Option<PrimB>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Vec<PrimB>,
  #[yaserde(rename = "re-named")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r: Option<PrimB>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: PrimB,
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<PrimB>,
}
impl Bind for PosPrimB {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosPrimB { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVPrimB {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Vec<PrimB>,
  #[cfg(not(any()))]
  pub x: Option<u8>,
}
impl Bind for PosVPrimB {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVPrimB { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEPrimB {
  N,
  /// A documented variant
  V(PrimB),
  O(Option<PrimB>),
  W(Vec<PrimB>),
}
impl Bind for PosEPrimB {
  fn to_val(&self) -> Val {
    match self {
      PosEPrimB::N => Val::Var(0, None),
      PosEPrimB::V(x) => Val::var(1, x.to_val()),
      PosEPrimB::O(x) => Val::var(2, x.to_val()),
      PosEPrimB::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEPrimB::N,
      Val::Var(1, Some(x)) => PosEPrimB::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEPrimB::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEPrimB::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEPrimB {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosPrimF {
  #[cfg(not(any()))]
  pub e: PrimF,
  pub o: Option<PrimF>,
  /// A documented member
  pub v: Vec<PrimF>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "re-named")]
  pub r: Option<PrimF>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: PrimF,
  #[yaserde(attribute = true, rename = "b.b")]
  #[cfg(not(any()))]
  pub b: Option<PrimF>,
}
impl Bind for PosPrimF {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosPrimF { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVPrimF {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub w: Vec<PrimF>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
}
impl Bind for PosVPrimF {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVPrimF { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEPrimF {
  N,
  /// A documented variant
  V(PrimF),
  O(Option<PrimF>),
  W(Vec<PrimF>),
}
impl Bind for PosEPrimF {
  fn to_val(&self) -> Val {
    match self {
      PosEPrimF::N => Val::Var(0, None),
      PosEPrimF::V(x) => Val::var(1, x.to_val()),
      PosEPrimF::O(x) => Val::var(2, x.to_val()),
      PosEPrimF::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEPrimF::N,
      Val::Var(1, Some(x)) => PosEPrimF::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEPrimF::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEPrimF::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEPrimF {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosPrimL {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: PrimL,
  #[cfg(not(any()))]
  pub o: Option<PrimL>,
  pub v: Vec<PrimL>,
  /// A documented member
  #[yaserde(rename = "re-named")]
  pub r: Option<PrimL>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: PrimL,
  #[yaserde(attribute = true)] #[yaserde()] #[yaserde(rename = "b.b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<PrimL>,
}
impl Bind for PosPrimL {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosPrimL { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVPrimL {
  /// A documented member
  #[yaserde(attribute = true)]
  pub w: Vec<PrimL>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
}
impl Bind for PosVPrimL {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVPrimL { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEPrimL {
  N,
  /// A documented variant
  V(PrimL),
  O(Option<PrimL>),
  W(Vec<PrimL>),
}
impl Bind for PosEPrimL {
  fn to_val(&self) -> Val {
    match self {
      PosEPrimL::N => Val::Var(0, None),
      PosEPrimL::V(x) => Val::var(1, x.to_val()),
      PosEPrimL::O(x) => Val::var(2, x.to_val()),
      PosEPrimL::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEPrimL::N,
      Val::Var(1, Some(x)) => PosEPrimL::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEPrimL::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEPrimL::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEPrimL {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosHex8 {
  #[allow(unused)]
  #[doc(hidden)]
  pub e: Hex8,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub o: Option<Hex8>,
  #[cfg(not(any()))]
  pub v: Vec<Hex8>,
  #[yaserde(rename = "re-named")]
  pub r: Option<Hex8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: Hex8,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<Hex8>,
}
impl Bind for PosHex8 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosHex8 { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVHex8 {
  #[yaserde(attribute = true)]
  pub w: Vec<Hex8>,
  /// A documented member
  pub x: Option<u8>,
}
impl Bind for PosVHex8 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVHex8 { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEHex8 {
  N,
  /// A documented variant
  V(Hex8),
  O(Option<Hex8>),
  W(Vec<Hex8>),
}
impl Bind for PosEHex8 {
  fn to_val(&self) -> Val {
    match self {
      PosEHex8::N => Val::Var(0, None),
      PosEHex8::V(x) => Val::var(1, x.to_val()),
      PosEHex8::O(x) => Val::var(2, x.to_val()),
      PosEHex8::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEHex8::N,
      Val::Var(1, Some(x)) => PosEHex8::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEHex8::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEHex8::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEHex8 {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosHex16 {
  /// A documented member
  pub e: Hex16,
  #[allow(unused)]
  #[doc(hidden)]
  pub o: Option<Hex16>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<Hex16>,
  #[yaserde(rename = "re-named")]
  #[cfg(not(any()))]
  pub r: Option<Hex16>,
  #[yaserde(attribute = true)]
  pub a: Hex16,
  /// A documented member
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<Hex16>,
}
impl Bind for PosHex16 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosHex16 { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVHex16 {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub w: Vec<Hex16>,
  pub x: Option<u8>,
}
impl Bind for PosVHex16 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVHex16 { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEHex16 {
  N,
  /// A documented variant
  V(Hex16),
  O(Option<Hex16>),
  W(Vec<Hex16>),
}
impl Bind for PosEHex16 {
  fn to_val(&self) -> Val {
    match self {
      PosEHex16::N => Val::Var(0, None),
      PosEHex16::V(x) => Val::var(1, x.to_val()),
      PosEHex16::O(x) => Val::var(2, x.to_val()),
      PosEHex16::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEHex16::N,
      Val::Var(1, Some(x)) => PosEHex16::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEHex16::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEHex16::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEHex16 {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosHex32 {
  pub e: Hex32,
  /// A documented member
  pub o: Option<Hex32>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Vec<Hex32>,
  #[yaserde(rename = "re-named")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r: Option<Hex32>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: Hex32,
  #[yaserde(attribute = true,)] #[yaserde(rename = "b.b",)]
  pub b: Option<Hex32>,
}
impl Bind for PosHex32 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosHex32 { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVHex32 {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Vec<Hex32>,
  #[cfg(not(any()))]
  pub x: Option<u8>,
}
impl Bind for PosVHex32 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVHex32 { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEHex32 {
  N,
  /// A documented variant
  V(Hex32),
  O(Option<Hex32>),
  W(Vec<Hex32>),
}
impl Bind for PosEHex32 {
  fn to_val(&self) -> Val {
    match self {
      PosEHex32::N => Val::Var(0, None),
      PosEHex32::V(x) => Val::var(1, x.to_val()),
      PosEHex32::O(x) => Val::var(2, x.to_val()),
      PosEHex32::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEHex32::N,
      Val::Var(1, Some(x)) => PosEHex32::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEHex32::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEHex32::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEHex32 {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosHex64 {
  #[cfg(not(any()))]
  pub e: Hex64,
  pub o: Option<Hex64>,
  /// A documented member
  pub v: Vec<Hex64>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "re-named")]
  pub r: Option<Hex64>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Hex64,
  #[yaserde(attribute = true, rename = "b.b")]
  #[cfg(not(any()))]
  pub b: Option<Hex64>,
}
impl Bind for PosHex64 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosHex64 { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVHex64 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub w: Vec<Hex64>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
}
impl Bind for PosVHex64 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVHex64 { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEHex64 {
  N,
  /// A documented variant
  V(Hex64),
  O(Option<Hex64>),
  W(Vec<Hex64>),
}
impl Bind for PosEHex64 {
  fn to_val(&self) -> Val {
    match self {
      PosEHex64::N => Val::Var(0, None),
      PosEHex64::V(x) => Val::var(1, x.to_val()),
      PosEHex64::O(x) => Val::var(2, x.to_val()),
      PosEHex64::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEHex64::N,
      Val::Var(1, Some(x)) => PosEHex64::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEHex64::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEHex64::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEHex64 {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosHexM {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: HexM,
  #[cfg(not(any()))]
  pub o: Option<HexM>,
  pub v: Vec<HexM>,
  /// A documented member
  #[yaserde(rename = "re-named")]
  pub r: Option<HexM>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: HexM,
  #[yaserde(attribute = true, rename = "b.b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<HexM>,
}
impl Bind for PosHexM {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosHexM { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVHexM {
  /// A documented member
  #[yaserde(attribute = true)]
  pub w: Vec<HexM>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
}
impl Bind for PosVHexM {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVHexM { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEHexM {
  N,
  /// A documented variant
  V(HexM),
  O(Option<HexM>),
  W(Vec<HexM>),
}
impl Bind for PosEHexM {
  fn to_val(&self) -> Val {
    match self {
      PosEHexM::N => Val::Var(0, None),
      PosEHexM::V(x) => Val::var(1, x.to_val()),
      PosEHexM::O(x) => Val::var(2, x.to_val()),
      PosEHexM::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEHexM::N,
      Val::Var(1, Some(x)) => PosEHexM::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEHexM::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEHexM::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEHexM {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosDefI {
  #[allow(unused)]
  #[doc(hidden)]
  pub e: DefI,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub o: Option<DefI>,
  #[cfg(not(any()))]
  pub v: Vec<DefI>,
  #[yaserde(rename = "re-named")]
  pub r: Option<DefI>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: DefI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(rename = "b.b")]
  pub b: Option<DefI>,
}
impl Bind for PosDefI {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosDefI { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVDefI {
  #[yaserde(attribute = true)]
  pub w: Vec<DefI>,
  /// A documented member
  pub x: Option<u8>,
}
impl Bind for PosVDefI {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVDefI { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEDefI {
  N,
  /// A documented variant
  V(DefI),
  O(Option<DefI>),
  W(Vec<DefI>),
}
impl Bind for PosEDefI {
  fn to_val(&self) -> Val {
    match self {
      PosEDefI::N => Val::Var(0, None),
      PosEDefI::V(x) => Val::var(1, x.to_val()),
      PosEDefI::O(x) => Val::var(2, x.to_val()),
      PosEDefI::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEDefI::N,
      Val::Var(1, Some(x)) => PosEDefI::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEDefI::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEDefI::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEDefI {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosDefS {
  /// A documented member
  pub e: DefS,
  #[allow(unused)]
  #[doc(hidden)]
  pub o: Option<DefS>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<DefS>,
  #[yaserde(rename = "re-named")]
  #[cfg(not(any()))]
  pub r: Option<DefS>,
  #[yaserde(attribute = true)]
  pub a: DefS,
  /// A documented member
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<DefS>,
}
impl Bind for PosDefS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosDefS { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVDefS {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub w: Vec<DefS>,
  pub x: Option<u8>,
}
impl Bind for PosVDefS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVDefS { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosEDefS {
  N,
  /// A documented variant
  V(DefS),
  O(Option<DefS>),
  W(Vec<DefS>),
}
impl Bind for PosEDefS {
  fn to_val(&self) -> Val {
    match self {
      PosEDefS::N => Val::Var(0, None),
      PosEDefS::V(x) => Val::var(1, x.to_val()),
      PosEDefS::O(x) => Val::var(2, x.to_val()),
      PosEDefS::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosEDefS::N,
      Val::Var(1, Some(x)) => PosEDefS::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosEDefS::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosEDefS::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosEDefS {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PosCust {
  pub e: Cust,
  /// A documented member
  pub o: Option<Cust>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Vec<Cust>,
  #[yaserde(rename = "re-named")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r: Option<Cust>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: Cust,
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<Cust>,
}
impl Bind for PosCust {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => PosCust { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct PosVCust {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Vec<Cust>,
  #[cfg(not(any()))]
  pub x: Option<u8>,
}
impl Bind for PosVCust {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => PosVCust { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum PosECust {
  N,
  /// A documented variant
  V(Cust),
  O(Option<Cust>),
  W(Vec<Cust>),
}
impl Bind for PosECust {
  fn to_val(&self) -> Val {
    match self {
      PosECust::N => Val::Var(0, None),
      PosECust::V(x) => Val::var(1, x.to_val()),
      PosECust::O(x) => Val::var(2, x.to_val()),
      PosECust::W(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => PosECust::N,
      Val::Var(1, Some(x)) => PosECust::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PosECust::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => PosECust::W(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PosECust {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SScal {
  #[cfg(not(any()))]
  pub r_string: String,
  pub r_bool: bool,
  /// A documented member
  pub r_i8: i8,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_u8: u8,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_i16: i16,
  #[cfg(not(any()))]
  pub r_u16: u16,
  pub r_i32: i32,
  /// A documented member
  pub r_u32: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_i64: i64,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_u64: u64,
  #[cfg(not(any()))]
  pub r_f32: f32,
  pub r_f64: f64,
}
impl Bind for SScal {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_string.to_val(), self.r_bool.to_val(), self.r_i8.to_val(), self.r_u8.to_val(), self.r_i16.to_val(), self.r_u16.to_val(), self.r_i32.to_val(), self.r_u32.to_val(), self.r_i64.to_val(), self.r_u64.to_val(), self.r_f32.to_val(), self.r_f64.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => SScal { r_string: Bind::from_val(&l[0]), r_bool: Bind::from_val(&l[1]), r_i8: Bind::from_val(&l[2]), r_u8: Bind::from_val(&l[3]), r_i16: Bind::from_val(&l[4]), r_u16: Bind::from_val(&l[5]), r_i32: Bind::from_val(&l[6]), r_u32: Bind::from_val(&l[7]), r_i64: Bind::from_val(&l[8]), r_u64: Bind::from_val(&l[9]), r_f32: Bind::from_val(&l[10]), r_f64: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SScalA {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_string: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_bool: bool,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_i8: i8,
  #[yaserde(attribute = true)]
  pub r_u8: u8,
  /// A documented member
  #[yaserde(attribute = true)]
  pub r_i16: i16,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_u16: u16,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_i32: i32,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_u32: u32,
  #[yaserde(attribute = true)]
  pub r_i64: i64,
  /// A documented member
  #[yaserde(attribute = true)]
  pub r_u64: u64,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_f32: f32,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_f64: f64,
}
impl Bind for SScalA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_string.to_val(), self.r_bool.to_val(), self.r_i8.to_val(), self.r_u8.to_val(), self.r_i16.to_val(), self.r_u16.to_val(), self.r_i32.to_val(), self.r_u32.to_val(), self.r_i64.to_val(), self.r_u64.to_val(), self.r_f32.to_val(), self.r_f64.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => SScalA { r_string: Bind::from_val(&l[0]), r_bool: Bind::from_val(&l[1]), r_i8: Bind::from_val(&l[2]), r_u8: Bind::from_val(&l[3]), r_i16: Bind::from_val(&l[4]), r_u16: Bind::from_val(&l[5]), r_i32: Bind::from_val(&l[6]), r_u32: Bind::from_val(&l[7]), r_i64: Bind::from_val(&l[8]), r_u64: Bind::from_val(&l[9]), r_f32: Bind::from_val(&l[10]), r_f64: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct OScal {
  pub r_string: Option<String>,
  /// A documented member
  pub r_bool: Option<bool>,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_i8: Option<i8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_u8: Option<u8>,
  #[cfg(not(any()))]
  pub r_i16: Option<i16>,
  pub r_u16: Option<u16>,
  /// A documented member
  pub r_i32: Option<i32>,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_u32: Option<u32>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_i64: Option<i64>,
  #[cfg(not(any()))]
  pub r_u64: Option<u64>,
  pub r_f32: Option<f32>,
  /// A documented member
  pub r_f64: Option<f64>,
}
impl Bind for OScal {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_string.to_val(), self.r_bool.to_val(), self.r_i8.to_val(), self.r_u8.to_val(), self.r_i16.to_val(), self.r_u16.to_val(), self.r_i32.to_val(), self.r_u32.to_val(), self.r_i64.to_val(), self.r_u64.to_val(), self.r_f32.to_val(), self.r_f64.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => OScal { r_string: Bind::from_val(&l[0]), r_bool: Bind::from_val(&l[1]), r_i8: Bind::from_val(&l[2]), r_u8: Bind::from_val(&l[3]), r_i16: Bind::from_val(&l[4]), r_u16: Bind::from_val(&l[5]), r_i32: Bind::from_val(&l[6]), r_u32: Bind::from_val(&l[7]), r_i64: Bind::from_val(&l[8]), r_u64: Bind::from_val(&l[9]), r_f32: Bind::from_val(&l[10]), r_f64: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct OScalA {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_string: Option<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_bool: Option<bool>,
  #[yaserde(attribute = true)]
  pub r_i8: Option<i8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub r_u8: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_i16: Option<i16>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_u16: Option<u16>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_i32: Option<i32>,
  #[yaserde(attribute = true)]
  pub r_u32: Option<u32>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub r_i64: Option<i64>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_u64: Option<u64>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_f32: Option<f32>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_f64: Option<f64>,
}
impl Bind for OScalA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_string.to_val(), self.r_bool.to_val(), self.r_i8.to_val(), self.r_u8.to_val(), self.r_i16.to_val(), self.r_u16.to_val(), self.r_i32.to_val(), self.r_u32.to_val(), self.r_i64.to_val(), self.r_u64.to_val(), self.r_f32.to_val(), self.r_f64.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => OScalA { r_string: Bind::from_val(&l[0]), r_bool: Bind::from_val(&l[1]), r_i8: Bind::from_val(&l[2]), r_u8: Bind::from_val(&l[3]), r_i16: Bind::from_val(&l[4]), r_u16: Bind::from_val(&l[5]), r_i32: Bind::from_val(&l[6]), r_u32: Bind::from_val(&l[7]), r_i64: Bind::from_val(&l[8]), r_u64: Bind::from_val(&l[9]), r_f32: Bind::from_val(&l[10]), r_f64: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct VScal {
  /// A documented member
  pub r_string: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_bool: Vec<bool>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_i8: Vec<i8>,
  #[cfg(not(any()))]
  pub r_u8: Vec<u8>,
  pub r_i16: Vec<i16>,
  /// A documented member
  pub r_u16: Vec<u16>,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_i32: Vec<i32>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_u32: Vec<u32>,
  #[cfg(not(any()))]
  pub r_i64: Vec<i64>,
  pub r_u64: Vec<u64>,
  /// A documented member
  pub r_f32: Vec<f32>,
  #[allow(unused)]
  #[doc(hidden)]
  pub r_f64: Vec<f64>,
}
impl Bind for VScal {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_string.to_val(), self.r_bool.to_val(), self.r_i8.to_val(), self.r_u8.to_val(), self.r_i16.to_val(), self.r_u16.to_val(), self.r_i32.to_val(), self.r_u32.to_val(), self.r_i64.to_val(), self.r_u64.to_val(), self.r_f32.to_val(), self.r_f64.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => VScal { r_string: Bind::from_val(&l[0]), r_bool: Bind::from_val(&l[1]), r_i8: Bind::from_val(&l[2]), r_u8: Bind::from_val(&l[3]), r_i16: Bind::from_val(&l[4]), r_u16: Bind::from_val(&l[5]), r_i32: Bind::from_val(&l[6]), r_u32: Bind::from_val(&l[7]), r_i64: Bind::from_val(&l[8]), r_u64: Bind::from_val(&l[9]), r_f32: Bind::from_val(&l[10]), r_f64: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct VScalA {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_string: Vec<String>,
  #[yaserde(attribute = true)]
  pub r_bool: Vec<bool>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub r_i8: Vec<i8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_u8: Vec<u8>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_i16: Vec<i16>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_u16: Vec<u16>,
  #[yaserde(attribute = true)]
  pub r_i32: Vec<i32>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub r_u32: Vec<u32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r_i64: Vec<i64>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_u64: Vec<u64>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub r_f32: Vec<f32>,
  #[yaserde(attribute = true)]
  pub r_f64: Vec<f64>,
}
impl Bind for VScalA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_string.to_val(), self.r_bool.to_val(), self.r_i8.to_val(), self.r_u8.to_val(), self.r_i16.to_val(), self.r_u16.to_val(), self.r_i32.to_val(), self.r_u32.to_val(), self.r_i64.to_val(), self.r_u64.to_val(), self.r_f32.to_val(), self.r_f64.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => VScalA { r_string: Bind::from_val(&l[0]), r_bool: Bind::from_val(&l[1]), r_i8: Bind::from_val(&l[2]), r_u8: Bind::from_val(&l[3]), r_i16: Bind::from_val(&l[4]), r_u16: Bind::from_val(&l[5]), r_i32: Bind::from_val(&l[6]), r_u32: Bind::from_val(&l[7]), r_i64: Bind::from_val(&l[8]), r_u64: Bind::from_val(&l[9]), r_f32: Bind::from_val(&l[10]), r_f64: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum EScal {
  VString(String),
  /// A documented variant
  VBool(bool),
  VI8(i8),
  VU8(u8),
  /// A documented variant
  VI16(i16),
  VU16(u16),
  VI32(i32),
  /// A documented variant
  VU32(u32),
  VI64(i64),
  VU64(u64),
  /// A documented variant
  VF32(f32),
  VF64(f64),
}
impl Bind for EScal {
  fn to_val(&self) -> Val {
    match self {
      EScal::VString(x) => Val::var(0, x.to_val()),
      EScal::VBool(x) => Val::var(1, x.to_val()),
      EScal::VI8(x) => Val::var(2, x.to_val()),
      EScal::VU8(x) => Val::var(3, x.to_val()),
      EScal::VI16(x) => Val::var(4, x.to_val()),
      EScal::VU16(x) => Val::var(5, x.to_val()),
      EScal::VI32(x) => Val::var(6, x.to_val()),
      EScal::VU32(x) => Val::var(7, x.to_val()),
      EScal::VI64(x) => Val::var(8, x.to_val()),
      EScal::VU64(x) => Val::var(9, x.to_val()),
      EScal::VF32(x) => Val::var(10, x.to_val()),
      EScal::VF64(x) => Val::var(11, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => EScal::VString(Bind::from_val(x)),
      Val::Var(1, Some(x)) => EScal::VBool(Bind::from_val(x)),
      Val::Var(2, Some(x)) => EScal::VI8(Bind::from_val(x)),
      Val::Var(3, Some(x)) => EScal::VU8(Bind::from_val(x)),
      Val::Var(4, Some(x)) => EScal::VI16(Bind::from_val(x)),
      Val::Var(5, Some(x)) => EScal::VU16(Bind::from_val(x)),
      Val::Var(6, Some(x)) => EScal::VI32(Bind::from_val(x)),
      Val::Var(7, Some(x)) => EScal::VU32(Bind::from_val(x)),
      Val::Var(8, Some(x)) => EScal::VI64(Bind::from_val(x)),
      Val::Var(9, Some(x)) => EScal::VU64(Bind::from_val(x)),
      Val::Var(10, Some(x)) => EScal::VF32(Bind::from_val(x)),
      Val::Var(11, Some(x)) => EScal::VF64(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for EScal {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::s("a")))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum EOScal {
  VString(Option<String>),
  /// A documented variant
  VBool(Option<bool>),
  VI8(Option<i8>),
  VU8(Option<u8>),
  /// A documented variant
  VI16(Option<i16>),
  VU16(Option<u16>),
  VI32(Option<i32>),
  /// A documented variant
  VU32(Option<u32>),
  VI64(Option<i64>),
  VU64(Option<u64>),
  /// A documented variant
  VF32(Option<f32>),
  VF64(Option<f64>),
}
impl Bind for EOScal {
  fn to_val(&self) -> Val {
    match self {
      EOScal::VString(x) => Val::var(0, x.to_val()),
      EOScal::VBool(x) => Val::var(1, x.to_val()),
      EOScal::VI8(x) => Val::var(2, x.to_val()),
      EOScal::VU8(x) => Val::var(3, x.to_val()),
      EOScal::VI16(x) => Val::var(4, x.to_val()),
      EOScal::VU16(x) => Val::var(5, x.to_val()),
      EOScal::VI32(x) => Val::var(6, x.to_val()),
      EOScal::VU32(x) => Val::var(7, x.to_val()),
      EOScal::VI64(x) => Val::var(8, x.to_val()),
      EOScal::VU64(x) => Val::var(9, x.to_val()),
      EOScal::VF32(x) => Val::var(10, x.to_val()),
      EOScal::VF64(x) => Val::var(11, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => EOScal::VString(Bind::from_val(x)),
      Val::Var(1, Some(x)) => EOScal::VBool(Bind::from_val(x)),
      Val::Var(2, Some(x)) => EOScal::VI8(Bind::from_val(x)),
      Val::Var(3, Some(x)) => EOScal::VU8(Bind::from_val(x)),
      Val::Var(4, Some(x)) => EOScal::VI16(Bind::from_val(x)),
      Val::Var(5, Some(x)) => EOScal::VU16(Bind::from_val(x)),
      Val::Var(6, Some(x)) => EOScal::VI32(Bind::from_val(x)),
      Val::Var(7, Some(x)) => EOScal::VU32(Bind::from_val(x)),
      Val::Var(8, Some(x)) => EOScal::VI64(Bind::from_val(x)),
      Val::Var(9, Some(x)) => EOScal::VU64(Bind::from_val(x)),
      Val::Var(10, Some(x)) => EOScal::VF32(Bind::from_val(x)),
      Val::Var(11, Some(x)) => EOScal::VF64(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for EOScal {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum EVScal {
  VString(Vec<String>),
  /// A documented variant
  VBool(Vec<bool>),
  VI8(Vec<i8>),
  VU8(Vec<u8>),
  /// A documented variant
  VI16(Vec<i16>),
  VU16(Vec<u16>),
  VI32(Vec<i32>),
  /// A documented variant
  VU32(Vec<u32>),
  VI64(Vec<i64>),
  VU64(Vec<u64>),
  /// A documented variant
  VF32(Vec<f32>),
  VF64(Vec<f64>),
}
impl Bind for EVScal {
  fn to_val(&self) -> Val {
    match self {
      EVScal::VString(x) => Val::var(0, x.to_val()),
      EVScal::VBool(x) => Val::var(1, x.to_val()),
      EVScal::VI8(x) => Val::var(2, x.to_val()),
      EVScal::VU8(x) => Val::var(3, x.to_val()),
      EVScal::VI16(x) => Val::var(4, x.to_val()),
      EVScal::VU16(x) => Val::var(5, x.to_val()),
      EVScal::VI32(x) => Val::var(6, x.to_val()),
      EVScal::VU32(x) => Val::var(7, x.to_val()),
      EVScal::VI64(x) => Val::var(8, x.to_val()),
      EVScal::VU64(x) => Val::var(9, x.to_val()),
      EVScal::VF32(x) => Val::var(10, x.to_val()),
      EVScal::VF64(x) => Val::var(11, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => EVScal::VString(Bind::from_val(x)),
      Val::Var(1, Some(x)) => EVScal::VBool(Bind::from_val(x)),
      Val::Var(2, Some(x)) => EVScal::VI8(Bind::from_val(x)),
      Val::Var(3, Some(x)) => EVScal::VU8(Bind::from_val(x)),
      Val::Var(4, Some(x)) => EVScal::VI16(Bind::from_val(x)),
      Val::Var(5, Some(x)) => EVScal::VU16(Bind::from_val(x)),
      Val::Var(6, Some(x)) => EVScal::VI32(Bind::from_val(x)),
      Val::Var(7, Some(x)) => EVScal::VU32(Bind::from_val(x)),
      Val::Var(8, Some(x)) => EVScal::VI64(Bind::from_val(x)),
      Val::Var(9, Some(x)) => EVScal::VU64(Bind::from_val(x)),
      Val::Var(10, Some(x)) => EVScal::VF32(Bind::from_val(x)),
      Val::Var(11, Some(x)) => EVScal::VF64(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for EVScal {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::List(vec![])))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct STypes {
  /// A documented member
  pub leaf: Leaf,
  #[allow(unused)]
  #[doc(hidden)]
  pub at: LeafAT,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub unit: UnitE,
  #[cfg(not(any()))]
  pub new: NewE,
  pub p: PrimI,
  /// A documented member
  pub h: Hex16,
}
impl Bind for STypes {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.leaf.to_val(), self.at.to_val(), self.unit.to_val(), self.new.to_val(), self.p.to_val(), self.h.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => STypes { leaf: Bind::from_val(&l[0]), at: Bind::from_val(&l[1]), unit: Bind::from_val(&l[2]), new: Bind::from_val(&l[3]), p: Bind::from_val(&l[4]), h: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct OTypes {
  #[cfg(not(any()))]
  pub leaf: Option<Leaf>,
  pub at: Option<LeafAT>,
  /// A documented member
  pub unit: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  pub new: Option<NewE>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub p: Option<PrimS>,
  #[cfg(not(any()))]
  pub h: Option<Hex8>,
}
impl Bind for OTypes {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.leaf.to_val(), self.at.to_val(), self.unit.to_val(), self.new.to_val(), self.p.to_val(), self.h.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => OTypes { leaf: Bind::from_val(&l[0]), at: Bind::from_val(&l[1]), unit: Bind::from_val(&l[2]), new: Bind::from_val(&l[3]), p: Bind::from_val(&l[4]), h: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct VTypes {
  #[allow(unused)]
  #[doc(hidden)]
  pub leaf: Vec<Leaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub at: Vec<LeafAT>,
  #[cfg(not(any()))]
  pub unit: Vec<UnitE>,
  pub new: Vec<NewE>,
  /// A documented member
  pub p: Vec<PrimI>,
  #[allow(unused)]
  #[doc(hidden)]
  pub h: Vec<Hex8>,
}
impl Bind for VTypes {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.leaf.to_val(), self.at.to_val(), self.unit.to_val(), self.new.to_val(), self.p.to_val(), self.h.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => VTypes { leaf: Bind::from_val(&l[0]), at: Bind::from_val(&l[1]), unit: Bind::from_val(&l[2]), new: Bind::from_val(&l[3]), p: Bind::from_val(&l[4]), h: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct ATypes {
  #[yaserde(attribute = true)]
  pub p: PrimI,
  /// A documented member
  #[yaserde(attribute = true)]
  pub s: PrimS,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub h: Hex16,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub u: UnitE,
  #[cfg(not(any()))]
  pub e: String,
}
impl Bind for ATypes {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.s.to_val(), self.h.to_val(), self.u.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => ATypes { p: Bind::from_val(&l[0]), s: Bind::from_val(&l[1]), h: Bind::from_val(&l[2]), u: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct OATypes {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub p: Option<PrimI>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub s: Option<PrimS>,
  #[yaserde(attribute = true)]
  pub h: Option<Hex8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub u: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub d: Option<DefI>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: Option<String>,
}
impl Bind for OATypes {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.s.to_val(), self.h.to_val(), self.u.to_val(), self.d.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => OATypes { p: Bind::from_val(&l[0]), s: Bind::from_val(&l[1]), h: Bind::from_val(&l[2]), u: Bind::from_val(&l[3]), d: Bind::from_val(&l[4]), e: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct VATypes {
  /// A documented member
  #[yaserde(attribute = true)]
  pub p: Vec<PrimI>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub h: Vec<Hex8>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub u: Vec<UnitE>,
}
impl Bind for VATypes {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.h.to_val(), self.u.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => VATypes { p: Bind::from_val(&l[0]), h: Bind::from_val(&l[1]), u: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Mixed {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub id: u32,
  #[yaserde(attribute = true)]
  pub tag: Option<String>,
  /// A documented member
  pub name: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<i32>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub list: Vec<String>,
  #[cfg(not(any()))]
  pub sub: Leaf,
  pub osub: Option<LeafA>,
  /// A documented member
  pub subs: Vec<LeafT>,
  #[allow(unused)]
  #[doc(hidden)]
  pub kind: UnitE,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub txt: String,
}
impl Bind for Mixed {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.id.to_val(), self.tag.to_val(), self.name.to_val(), self.n.to_val(), self.list.to_val(), self.sub.to_val(), self.osub.to_val(), self.subs.to_val(), self.kind.to_val(), self.txt.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 10 => Mixed { id: Bind::from_val(&l[0]), tag: Bind::from_val(&l[1]), name: Bind::from_val(&l[2]), n: Bind::from_val(&l[3]), list: Bind::from_val(&l[4]), sub: Bind::from_val(&l[5]), osub: Bind::from_val(&l[6]), subs: Bind::from_val(&l[7]), kind: Bind::from_val(&l[8]), txt: Bind::from_val(&l[9]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct MixedT {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub lang: Option<String>,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub t: String,
  #[cfg(not(any()))]
  pub b: Option<bool>,
  pub e: Option<NewE>,
}
impl Bind for MixedT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.lang.to_val(), self.t.to_val(), self.b.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => MixedT { lang: Bind::from_val(&l[0]), t: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]), e: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct TwoV {
  pub a: Vec<String>,
  /// A documented member
  pub b: Vec<String>,
}
impl Bind for TwoV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => TwoV { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct TwoVS {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Vec<Leaf>,
  #[cfg(not(any()))]
  pub m: String,
  #[yaserde(rename = "bee")]
  pub b: Vec<LeafT>,
}
impl Bind for TwoVS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.m.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => TwoVS { a: Bind::from_val(&l[0]), m: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct VEnum {
  /// A documented member
  pub item: Vec<NewE>,
  #[allow(unused)]
  #[doc(hidden)]
  pub other: Vec<UnitE>,
}
impl Bind for VEnum {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.item.to_val(), self.other.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => VEnum { item: Bind::from_val(&l[0]), other: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct ThreeV {
  #[cfg(not(any()))]
  pub x: Vec<u8>,
  pub y: Vec<bool>,
  /// A documented member
  pub z: Vec<LeafA>,
}
impl Bind for ThreeV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => ThreeV { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]), z: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "c")]
pub struct Deep3 {
  #[allow(unused)]
  #[doc(hidden)]
  pub v: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Option<u8>,
}
impl Bind for Deep3 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Deep3 { v: Bind::from_val(&l[0]), w: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "b")]
pub struct Deep2 {
  pub c: Deep3,
  /// A documented member
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub d: Vec<Deep3>,
}
impl Bind for Deep2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.a.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => Deep2 { c: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), d: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "a")]
pub struct Deep1 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Deep2,
  #[cfg(not(any()))]
  pub a: String,
  pub c: Option<Deep3>,
}
impl Bind for Deep1 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.b.to_val(), self.a.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => Deep1 { b: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Rec {
  /// A documented member
  pub v: u8,
  #[allow(unused)]
  #[doc(hidden)]
  pub r: Vec<Rec>,
}
impl Bind for Rec {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.r.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Rec { v: Bind::from_val(&l[0]), r: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "item")]
pub struct RecA {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub v: Option<String>,
  pub item: Vec<RecA>,
}
impl Bind for RecA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.item.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RecA { v: Bind::from_val(&l[0]), item: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct RecF {
  #[allow(unused)]
  #[doc(hidden)]
  pub v: u8,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: RecFIn,
}
impl Bind for RecF {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RecF { v: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct RecFIn {
  pub w: Option<bool>,
  /// A documented member
  pub r: Vec<RecF>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub t: Option<String>,
}
impl Bind for RecFIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.r.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => RecFIn { w: Bind::from_val(&l[0]), r: Bind::from_val(&l[1]), t: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct RecM {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[cfg(not(any()))]
  pub m: Vec<RecN>,
}
impl Bind for RecM {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.m.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RecM { a: Bind::from_val(&l[0]), m: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct RecN {
  /// A documented member
  #[yaserde(text = true)]
  pub x: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "a")]
  pub m: Vec<RecM>,
}
impl Bind for RecN {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.m.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RecN { x: Bind::from_val(&l[0]), m: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct RecP {
  #[cfg(not(any()))]
  pub k: Vec<RecK>,
  #[yaserde(attribute = true)]
  pub t: Option<String>,
}
impl Bind for RecP {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RecP { k: Bind::from_val(&l[0]), t: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum RecK {
  P(RecP),
  /// A documented variant
  Z,
  V(Vec<RecP>),
}
impl Bind for RecK {
  fn to_val(&self) -> Val {
    match self {
      RecK::P(x) => Val::var(0, x.to_val()),
      RecK::Z => Val::Var(1, None),
      RecK::V(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => RecK::P(Bind::from_val(x)),
      Val::Var(1, None) => RecK::Z,
      Val::Var(2, Some(x)) => RecK::V(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for RecK {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "n",)] #[yaserde()] #[yaserde(namespaces = { "n" = "urn:n" },)]
pub struct RecNs {
  #[yaserde(prefix = "n")]
  pub v: u8,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub r: Vec<RecNs>,
}
impl Bind for RecNs {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.r.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RecNs { v: Bind::from_val(&l[0]), r: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum RecE {
  Leaf(u8),
  /// A documented variant
  Nil,
  Node(Vec<RecE>),
}
impl Bind for RecE {
  fn to_val(&self) -> Val {
    match self {
      RecE::Leaf(x) => Val::var(0, x.to_val()),
      RecE::Nil => Val::Var(1, None),
      RecE::Node(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => RecE::Leaf(Bind::from_val(x)),
      Val::Var(1, None) => RecE::Nil,
      Val::Var(2, Some(x)) => RecE::Node(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for RecE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SameRoot {
  /// A documented member
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "SameRoot")]
  pub SameRoot: Option<String>,
}
impl Bind for SameRoot {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.SameRoot.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => SameRoot { a: Bind::from_val(&l[0]), SameRoot: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root")]
pub struct RootField {
  #[cfg(not(any()))]
  pub root: String,
  pub x: Option<u8>,
}
impl Bind for RootField {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.root.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RootField { root: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root")]
pub struct RootFieldS {
  #[allow(unused)]
  #[doc(hidden)]
  pub root: Leaf,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
}
impl Bind for RootFieldS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.root.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RootFieldS { root: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root")]
pub struct RootFieldV {
  pub root: Vec<u8>,
  /// A documented member
  pub x: Option<u8>,
}
impl Bind for RootFieldV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.root.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => RootFieldV { root: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "inner")]
pub struct InnerN {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Option<String>,
  #[cfg(not(any()))]
  pub inner: Option<String>,
}
impl Bind for InnerN {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.n.to_val(), self.inner.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => InnerN { n: Bind::from_val(&l[0]), inner: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "outer")]
pub struct OuterN {
  /// A documented member
  pub inner: InnerN,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub other: Option<InnerN>,
}
impl Bind for OuterN {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.inner.to_val(), self.n.to_val(), self.other.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => OuterN { inner: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), other: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SwapIn {
  #[cfg(not(any()))]
  pub b: Option<String>,
  pub a: Option<u8>,
}
impl Bind for SwapIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.b.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => SwapIn { b: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SwapOut {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: SwapIn,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: SwapIn,
}
impl Bind for SwapOut {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => SwapOut { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Case {
  pub item: Option<String>,
  /// A documented member
  pub Item: Option<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub ITEM: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub iTEM: Vec<LeafA>,
}
impl Bind for Case {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.item.to_val(), self.Item.to_val(), self.ITEM.to_val(), self.iTEM.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Case { item: Bind::from_val(&l[0]), Item: Bind::from_val(&l[1]), ITEM: Bind::from_val(&l[2]), iTEM: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "re-named.x")]
pub struct Renamed {
  #[yaserde(rename = "x-y")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[yaserde(rename = "p.q")]
  #[cfg(not(any()))]
  pub b: Option<u8>,
  #[yaserde(attribute = true, rename = "a.b")]
  pub c: Option<String>,
  /// A documented member
  #[yaserde(attribute = true, rename = "z-1")]
  pub d: Option<String>,
}
impl Bind for Renamed {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Renamed { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Swapped {
  /// A documented member
  #[yaserde(rename = "b")]
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "a")]
  pub b: Option<u8>,
}
impl Bind for Swapped {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Swapped { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct AttrElem {
  #[yaserde(attribute = true)] #[yaserde(rename = "v")]
  #[cfg(not(any()))]
  pub x: String,
  #[yaserde(rename = "v")]
  pub y: Option<String>,
}
impl Bind for AttrElem {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => AttrElem { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct AttrElemS {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "leaf")]
  pub x: Option<u8>,
  #[yaserde(rename = "leaf")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: Option<LeafA>,
  #[yaserde(attribute = true, rename = "x")]
  #[cfg(not(any()))]
  pub z: Option<u32>,
}
impl Bind for AttrElemS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => AttrElemS { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]), z: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Under {
  pub _a: Option<String>,
  /// A documented member
  pub b_c: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub d__: Option<bool>,
}
impl Bind for Under {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self._a.to_val(), self.b_c.to_val(), self.d__.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => Under { _a: Bind::from_val(&l[0]), b_c: Bind::from_val(&l[1]), d__: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Uni {
  #[yaserde(rename = "élément")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(rename = "à",)]
  #[cfg(not(any()))]
  pub b: Option<String>,
}
impl Bind for Uni {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Uni { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct TextOnlyO {
  /// A documented member
  #[yaserde(text = true)]
  pub t: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: Option<u8>,
}
impl Bind for TextOnlyO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => TextOnlyO { t: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct TextKids {
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub t: String,
  pub a: Option<u8>,
  /// A documented member
  pub b: Vec<LeafT>,
}
impl Bind for TextKids {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => TextKids { t: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct CData {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub c: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub d: Option<String>,
}
impl Bind for CData {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => CData { c: Bind::from_val(&l[0]), d: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct CData2 {
  #[yaserde(cdata = true)]
  pub c: String,
  /// A documented member
  #[yaserde(cdata = true, rename = "e")]
  pub d: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: Option<u8>,
}
impl Bind for CData2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.d.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => CData2 { c: Bind::from_val(&l[0]), d: Bind::from_val(&l[1]), a: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Strs {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[cfg(not(any()))]
  pub e: String,
  pub o: Option<String>,
  /// A documented member
  pub v: Vec<String>,
}
impl Bind for Strs {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.e.to_val(), self.o.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Strs { a: Bind::from_val(&l[0]), e: Bind::from_val(&l[1]), o: Bind::from_val(&l[2]), v: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct StrSub {
  /// A documented member
  pub l: LeafT,
  #[allow(unused)]
  #[doc(hidden)]
  pub e: NewE,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub p: PrimS,
  #[cfg(not(any()))]
  pub d: DefS,
}
impl Bind for StrSub {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.l.to_val(), self.e.to_val(), self.p.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => StrSub { l: Bind::from_val(&l[0]), e: Bind::from_val(&l[1]), p: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct DefF {
  #[yaserde(default = "df_deff_a")]
  #[cfg(not(any()))]
  pub a: String,
  #[yaserde(default = "df_deff_n")]
  pub n: u32,
  /// A documented member
  #[yaserde(default = "df_deff_b")]
  pub b: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: String,
}
impl Bind for DefF {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.n.to_val(), self.b.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => DefF { a: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]), x: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_deff_a() -> String {
  Bind::from_val(&Val::s("dflt"))
}
fn df_deff_n() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_deff_b() -> bool {
  Bind::from_val(&Val::s("true"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct DefA {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_defa_a")]
  pub a: String,
  #[yaserde(attribute = true)] #[yaserde()] #[yaserde(default = "df_defa_n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: i32,
  #[cfg(not(any()))]
  pub e: Option<String>,
}
impl Bind for DefA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.n.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => DefA { a: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), e: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_defa_a() -> String {
  Bind::from_val(&Val::s("dflt"))
}
fn df_defa_n() -> i32 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct DefT {
  #[yaserde(text = true, default = "df_deft_t")]
  pub t: String,
}
impl Bind for DefT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => DefT { t: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_deft_t() -> String {
  Bind::from_val(&Val::s("none"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct DefS_ {
  #[yaserde(default = "df_defs__l")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub l: Leaf,
  #[yaserde(default = "df_defs__u")]
  #[cfg(not(any()))]
  pub u: UnitE,
  #[yaserde(default = "df_defs__e")]
  pub e: NewE,
  /// A documented member
  #[yaserde(default = "df_defs__p")]
  pub p: PrimI,
}
impl Bind for DefS_ {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.l.to_val(), self.u.to_val(), self.e.to_val(), self.p.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => DefS_ { l: Bind::from_val(&l[0]), u: Bind::from_val(&l[1]), e: Bind::from_val(&l[2]), p: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_defs__l() -> Leaf {
  Bind::from_val(&Val::Struct(vec![Val::s("q")]))
}
fn df_defs__u() -> UnitE {
  Bind::from_val(&Val::Var(1, None))
}
fn df_defs__e() -> NewE {
  Bind::from_val(&Val::var(2, Val::s("9")))
}
fn df_defs__p() -> PrimI {
  Bind::from_val(&Val::s("4"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct DefOV {
  /// A documented member
  #[yaserde(default = "df_defov_o")]
  pub o: Option<u32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_defov_v")]
  pub v: Vec<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub z: u8,
}
impl Bind for DefOV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.o.to_val(), self.v.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => DefOV { o: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), z: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_defov_o() -> Option<u32> {
  Bind::from_val(&Val::some(Val::s("3")))
}
fn df_defov_v() -> Vec<String> {
  Bind::from_val(&Val::List(vec![Val::s("i")]))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct DefAll {
  #[yaserde(default = "df_defall_a")]
  #[cfg(not(any()))]
  pub a: u8,
  #[yaserde(default = "df_defall_b")]
  pub b: u16,
  /// A documented member
  #[yaserde(default = "df_defall_c")]
  pub c: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_defall_d")]
  pub d: u64,
  #[yaserde(default = "df_defall_e")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: i8,
  #[yaserde(default = "df_defall_f")]
  #[cfg(not(any()))]
  pub f: i16,
  #[yaserde(default = "df_defall_g")]
  pub g: i32,
  /// A documented member
  #[yaserde(default = "df_defall_h")]
  pub h: i64,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_defall_i")]
  pub i: f32,
  #[yaserde(default = "df_defall_j")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub j: f64,
  #[yaserde(default = "df_defall_k")]
  #[cfg(not(any()))]
  pub k: bool,
  #[yaserde(default = "df_defall_l")]
  pub l: String,
}
impl Bind for DefAll {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val(), self.h.to_val(), self.i.to_val(), self.j.to_val(), self.k.to_val(), self.l.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 12 => DefAll { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]), f: Bind::from_val(&l[5]), g: Bind::from_val(&l[6]), h: Bind::from_val(&l[7]), i: Bind::from_val(&l[8]), j: Bind::from_val(&l[9]), k: Bind::from_val(&l[10]), l: Bind::from_val(&l[11]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_defall_a() -> u8 {
  Bind::from_val(&Val::s("1"))
}
fn df_defall_b() -> u16 {
  Bind::from_val(&Val::s("2"))
}
fn df_defall_c() -> u32 {
  Bind::from_val(&Val::s("3"))
}
fn df_defall_d() -> u64 {
  Bind::from_val(&Val::s("4"))
}
fn df_defall_e() -> i8 {
  Bind::from_val(&Val::s("-1"))
}
fn df_defall_f() -> i16 {
  Bind::from_val(&Val::s("-2"))
}
fn df_defall_g() -> i32 {
  Bind::from_val(&Val::s("-3"))
}
fn df_defall_h() -> i64 {
  Bind::from_val(&Val::s("-4"))
}
fn df_defall_i() -> f32 {
  Bind::from_val(&Val::s("0.5"))
}
fn df_defall_j() -> f64 {
  Bind::from_val(&Val::s("1.5"))
}
fn df_defall_k() -> bool {
  Bind::from_val(&Val::s("false"))
}
fn df_defall_l() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Skip {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing = true, default = "df_skip_a")]
  pub a: String,
  #[yaserde(skip_serializing = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<String>,
  #[yaserde(skip_serializing = true)]
  #[cfg(not(any()))]
  pub c: Vec<u8>,
  pub d: u32,
}
impl Bind for Skip {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Skip { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_skip_a() -> String {
  Bind::from_val(&Val::s("gone"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipA {
  #[yaserde(attribute = true,)] #[yaserde(skip_serializing = true,)] #[yaserde(default = "df_skipa_a",)]
  pub a: String,
  /// A documented member
  #[yaserde(attribute = true, skip_serializing = true)]
  pub b: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub d: u32,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: Option<String>,
}
impl Bind for SkipA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.d.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => SkipA { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), d: Bind::from_val(&l[2]), e: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_skipa_a() -> String {
  Bind::from_val(&Val::s("gone"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipIf {
  #[yaserde(skip_serializing_if = "p_a", default = "df_skipif_a")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: u32,
  #[yaserde(skip_serializing_if = "p_b")]
  #[cfg(not(any()))]
  pub b: String,
  #[yaserde(skip_serializing_if = "p_c")]
  pub c: Option<String>,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_d")]
  pub d: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_e")]
  pub e: Leaf,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: u8,
}
impl Bind for SkipIf {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => SkipIf { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]), f: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipIf {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_b(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_c(&self, v: &Option<String>) -> bool {
    pred("first_o", &v.to_val())
  }
  fn p_d(&self, v: &Vec<String>) -> bool {
    pred("one", &v.to_val())
  }
  fn p_e(&self, v: &Leaf) -> bool {
    pred("first", &v.to_val())
  }
}
fn df_skipif_a() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipIfA {
  /// A documented member
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_a")]
  pub a: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, skip_serializing_if = "p_b")]
  pub b: String,
  #[yaserde(attribute = true, skip_serializing_if = "p_c")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub c: Option<u8>,
  #[yaserde(attribute = true,)] #[yaserde()] #[yaserde(skip_serializing_if = "p_d",)]
  #[cfg(not(any()))]
  pub d: PrimI,
  #[yaserde(attribute = true)]
  pub f: u8,
}
impl Bind for SkipIfA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SkipIfA { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), f: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipIfA {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_b(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_c(&self, v: &Option<u8>) -> bool {
    pred("zero_o", &v.to_val())
  }
  fn p_d(&self, v: &PrimI) -> bool {
    pred("zero", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipIfT {
  #[yaserde(text = true, skip_serializing_if = "p_t")]
  #[cfg(not(any()))]
  pub t: String,
  #[yaserde(skip_serializing_if = "p_x")]
  pub x: Option<String>,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_y")]
  pub y: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true, skip_serializing_if = "p_z")]
  pub z: String,
}
impl Bind for SkipIfT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.x.to_val(), self.y.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => SkipIfT { t: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]), z: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipIfT {
  fn p_t(&self, v: &String) -> bool {
    pred("a", &v.to_val())
  }
  fn p_x(&self, v: &Option<String>) -> bool {
    pred("never", &v.to_val())
  }
  fn p_y(&self, v: &Option<String>) -> bool {
    pred("always", &v.to_val())
  }
  fn p_z(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipMid {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_a")]
  pub a: Leaf,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Leaf,
  #[yaserde(skip_serializing_if = "p_c")]
  #[cfg(not(any()))]
  pub c: NewE,
  #[yaserde(skip_serializing_if = "p_d")]
  pub d: Vec<Leaf>,
  /// A documented member
  #[yaserde(skip_serializing = true)]
  pub e: Option<LeafA>,
  #[allow(unused)]
  #[doc(hidden)]
  pub f: LeafA,
}
impl Bind for SkipMid {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => SkipMid { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]), f: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipMid {
  fn p_a(&self, v: &Leaf) -> bool {
    pred("first", &v.to_val())
  }
  fn p_c(&self, v: &NewE) -> bool {
    pred("first", &v.to_val())
  }
  fn p_d(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipDef {
  #[yaserde(skip_serializing_if = "p_a")] #[yaserde(default = "df_skipdef_a")]
  pub a: u32,
  /// A documented member
  #[yaserde(skip_serializing = true, default = "df_skipdef_b")]
  pub b: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, skip_serializing_if = "p_c", default = "df_skipdef_c")]
  pub c: u32,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub d: Option<u8>,
}
impl Bind for SkipDef {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => SkipDef { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipDef {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_c(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_skipdef_a() -> u32 {
  Bind::from_val(&Val::s("5"))
}
fn df_skipdef_b() -> u32 {
  Bind::from_val(&Val::s("5"))
}
fn df_skipdef_c() -> u32 {
  Bind::from_val(&Val::s("5"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipFlIn {
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_a",)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: u32,
  #[yaserde(skip_serializing_if = "p_b", default = "df_skipflin_b")]
  #[cfg(not(any()))]
  pub b: String,
  #[yaserde(skip_serializing = true)]
  pub c: Option<u8>,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_d")]
  pub d: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_skipflin_e")]
  pub e: String,
}
impl Bind for SkipFlIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SkipFlIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipFlIn {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_b(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_d(&self, v: &Vec<u8>) -> bool {
    pred("one", &v.to_val())
  }
}
fn df_skipflin_b() -> String {
  Bind::from_val(&Val::s(""))
}
fn df_skipflin_e() -> String {
  Bind::from_val(&Val::s("dflt"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipFl {
  /// A documented member
  #[yaserde(attribute = true)]
  pub x: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub f: SkipFlIn,
  #[yaserde(skip_serializing_if = "p_y")] #[yaserde()] #[yaserde(default = "df_skipfl_y")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: u32,
}
impl Bind for SkipFl {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => SkipFl { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipFl {
  fn p_y(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_skipfl_y() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipFlO {
  #[cfg(not(any()))]
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  pub f: Option<SkipFlIn>,
  /// A documented member
  #[yaserde(text = true, skip_serializing_if = "p_y")]
  pub y: String,
}
impl Bind for SkipFlO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => SkipFlO { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipFlO {
  fn p_y(&self, v: &String) -> bool {
    pred("a", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct SkipFlX {
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
  #[yaserde(flatten = true, skip_serializing_if = "p_f")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: FlIn,
  #[yaserde(flatten = true,)] #[yaserde(rename = "g",)] #[yaserde(skip_serializing_if = "p_g",)]
  #[cfg(not(any()))]
  pub g: Option<LeafA>,
  #[yaserde(attribute = true, skip_serializing_if = "p_y")]
  pub y: u32,
}
impl Bind for SkipFlX {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.g.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => SkipFlX { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), g: Bind::from_val(&l[2]), y: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipFlX {
  fn p_f(&self, v: &FlIn) -> bool {
    pred("first", &v.to_val())
  }
  fn p_g(&self, v: &Option<LeafA>) -> bool {
    pred("first", &v.to_val())
  }
  fn p_y(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct SkipFlS {
  #[yaserde(flatten = true, skip_serializing = true)]
  pub f: FlIn,
  /// A documented member
  #[yaserde(flatten = true)] #[allow(unused)] #[yaserde(skip_serializing = true)]
  pub g: Option<FlAIn>,
  #[allow(unused)]
  #[doc(hidden)]
  pub y: Option<u8>,
}
impl Bind for SkipFlS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.f.to_val(), self.g.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => SkipFlS { f: Bind::from_val(&l[0]), g: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum SkipEn {
  U,
  /// A documented variant
  A(SkipIfA),
  B(SkipIfT),
  V(Vec<SkipIfA>),
  /// A documented variant
  O(Option<SkipFl>),
}
impl Bind for SkipEn {
  fn to_val(&self) -> Val {
    match self {
      SkipEn::U => Val::Var(0, None),
      SkipEn::A(x) => Val::var(1, x.to_val()),
      SkipEn::B(x) => Val::var(2, x.to_val()),
      SkipEn::V(x) => Val::var(3, x.to_val()),
      SkipEn::O(x) => Val::var(4, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => SkipEn::U,
      Val::Var(1, Some(x)) => SkipEn::A(Bind::from_val(x)),
      Val::Var(2, Some(x)) => SkipEn::B(Bind::from_val(x)),
      Val::Var(3, Some(x)) => SkipEn::V(Bind::from_val(x)),
      Val::Var(4, Some(x)) => SkipEn::O(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for SkipEn {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipOut {
  /// A documented member
  pub a: SkipIfA,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Vec<SkipIfA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub c: Option<SkipIfT>,
  #[yaserde(skip_serializing_if = "p_d")]
  #[cfg(not(any()))]
  pub d: SkipEn,
  pub e: Vec<SkipFl>,
}
impl Bind for SkipOut {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SkipOut { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipOut {
  fn p_d(&self, v: &SkipEn) -> bool {
    pred("first", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct SkipTy {
  #[yaserde(attribute = true, skip_serializing_if = "p_a")]
  #[cfg(not(any()))]
  pub a: UnitE,
  #[yaserde(skip_serializing_if = "p_b")]
  pub b: PrimI,
  /// A documented member
  #[yaserde(skip_serializing = true)]
  pub c: Option<Hex8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing = true)]
  pub d: NewE,
  #[yaserde(skip_serializing = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: Vec<NewE>,
  #[yaserde(skip_serializing_if = "p_f")]
  #[cfg(not(any()))]
  pub f: Option<Leaf>,
  pub g: u8,
}
impl Bind for SkipTy {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val(), self.g.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 7 => SkipTy { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]), f: Bind::from_val(&l[5]), g: Bind::from_val(&l[6]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipTy {
  fn p_a(&self, v: &UnitE) -> bool {
    pred("first", &v.to_val())
  }
  fn p_b(&self, v: &PrimI) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_f(&self, v: &Option<Leaf>) -> bool {
    pred("first", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SkipVA {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing = true, default = "df_skipva_a")]
  pub a: u8,
  #[yaserde(skip_serializing = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<Leaf>,
  #[yaserde(attribute = true,)] #[yaserde()] #[yaserde(skip_serializing = true,)]
  #[cfg(not(any()))]
  pub b: Option<String>,
  #[yaserde(skip_serializing_if = "p_w")]
  pub w: Vec<String>,
  /// A documented member
  #[yaserde(text = true)]
  pub c: String,
}
impl Bind for SkipVA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.v.to_val(), self.b.to_val(), self.w.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SkipVA { a: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]), w: Bind::from_val(&l[3]), c: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl SkipVA {
  fn p_w(&self, v: &Vec<String>) -> bool {
    pred("never", &v.to_val())
  }
}
fn df_skipva_a() -> u8 {
  Bind::from_val(&Val::s("1"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlIn {
  pub a: String,
  /// A documented member
  pub b: Option<u32>,
}
impl Bind for FlIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Fl {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: u8,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub f: FlIn,
  pub y: Option<String>,
}
impl Bind for Fl {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => Fl { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Fl")]
pub struct FlTw {
  /// A documented member
  pub x: u8,
  #[allow(unused)]
  #[doc(hidden)]
  pub a: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<u32>,
  #[cfg(not(any()))]
  pub y: Option<String>,
}
impl Bind for FlTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.a.to_val(), self.b.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => FlTw { x: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]), y: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlAIn {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub i: Option<u8>,
  pub a: Option<String>,
  /// A documented member
  pub l: Option<Leaf>,
}
impl Bind for FlAIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.i.to_val(), self.a.to_val(), self.l.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlAIn { i: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlA {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub k: u8,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: FlAIn,
  #[cfg(not(any()))]
  pub y: Vec<String>,
}
impl Bind for FlA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlA { k: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlA")]
pub struct FlATw {
  #[yaserde(attribute = true)]
  pub k: u8,
  /// A documented member
  #[yaserde(attribute = true)]
  pub i: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub l: Option<Leaf>,
  #[cfg(not(any()))]
  pub y: Vec<String>,
}
impl Bind for FlATw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.i.to_val(), self.a.to_val(), self.l.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => FlATw { k: Bind::from_val(&l[0]), i: Bind::from_val(&l[1]), a: Bind::from_val(&l[2]), l: Bind::from_val(&l[3]), y: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlVIn {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<u8>,
  #[cfg(not(any()))]
  pub w: Vec<Leaf>,
}
impl Bind for FlVIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlVIn { v: Bind::from_val(&l[0]), w: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlV {
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: FlVIn,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
}
impl Bind for FlV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.f.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlV { f: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlV")]
pub struct FlVTw {
  #[cfg(not(any()))]
  pub v: Vec<u8>,
  pub w: Vec<Leaf>,
  /// A documented member
  pub x: Option<u8>,
}
impl Bind for FlVTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlVTw { v: Bind::from_val(&l[0]), w: Bind::from_val(&l[1]), x: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlTIn {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub t: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub i: Option<u8>,
}
impl Bind for FlTIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.i.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlTIn { t: Bind::from_val(&l[0]), i: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlT {
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: FlTIn,
}
impl Bind for FlT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlT { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlT")]
pub struct FlTTw {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub t: String,
  #[yaserde(attribute = true)]
  pub i: Option<u8>,
}
impl Bind for FlTTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.t.to_val(), self.i.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlTTw { x: Bind::from_val(&l[0]), t: Bind::from_val(&l[1]), i: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlO {
  /// A documented member
  pub x: u8,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub f: Option<FlIn>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: Option<String>,
}
impl Bind for FlO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlO { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlOA {
  #[cfg(not(any()))]
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  pub f: Option<LeafA>,
}
impl Bind for FlOA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlOA { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlOA")]
pub struct FlOATw {
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
  #[yaserde(attribute = true, rename = "x")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub xx: Option<u32>,
}
impl Bind for FlOATw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.xx.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlOATw { x: Bind::from_val(&l[0]), xx: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Fl2In {
  pub p: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: FlIn,
}
impl Bind for Fl2In {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Fl2In { p: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Fl2 {
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: Fl2In,
  #[cfg(not(any()))]
  pub z: Option<u8>,
}
impl Bind for Fl2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.f.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => Fl2 { f: Bind::from_val(&l[0]), z: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Fl2")]
pub struct Fl2Tw {
  /// A documented member
  pub p: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub a: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<u32>,
  #[cfg(not(any()))]
  pub z: Option<u8>,
}
impl Bind for Fl2Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.a.to_val(), self.b.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Fl2Tw { p: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]), z: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlTwoB {
  #[cfg(not(any()))]
  pub c: Option<String>,
  pub d: Option<u8>,
}
impl Bind for FlTwoB {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlTwoB { c: Bind::from_val(&l[0]), d: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlTwo {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub f: FlIn,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub g: FlTwoB,
}
impl Bind for FlTwo {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.f.to_val(), self.x.to_val(), self.g.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlTwo { f: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]), g: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlTwo")]
pub struct FlTwoTw {
  pub a: String,
  /// A documented member
  pub b: Option<u32>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub c: Option<String>,
  #[cfg(not(any()))]
  pub d: Option<u8>,
}
impl Bind for FlTwoTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.x.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => FlTwoTw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), x: Bind::from_val(&l[2]), c: Bind::from_val(&l[3]), d: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub enum FlEn {
  Non,
  /// A documented variant
  Ea(String),
  Eb(Leaf),
  Ec(Vec<u8>),
}
impl Bind for FlEn {
  fn to_val(&self) -> Val {
    match self {
      FlEn::Non => Val::Var(0, None),
      FlEn::Ea(x) => Val::var(1, x.to_val()),
      FlEn::Eb(x) => Val::var(2, x.to_val()),
      FlEn::Ec(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => FlEn::Non,
      Val::Var(1, Some(x)) => FlEn::Ea(Bind::from_val(x)),
      Val::Var(2, Some(x)) => FlEn::Eb(Bind::from_val(x)),
      Val::Var(3, Some(x)) => FlEn::Ec(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for FlEn {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlE {
  /// A documented member
  pub x: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub f: FlEn,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: Option<String>,
}
impl Bind for FlE {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlE { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub enum FlEnL {
  Ea(LeafA),
  /// A documented variant
  Eb(LeafT),
  Ed(Leaf),
}
impl Bind for FlEnL {
  fn to_val(&self) -> Val {
    match self {
      FlEnL::Ea(x) => Val::var(0, x.to_val()),
      FlEnL::Eb(x) => Val::var(1, x.to_val()),
      FlEnL::Ed(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => FlEnL::Ea(Bind::from_val(x)),
      Val::Var(1, Some(x)) => FlEnL::Eb(Bind::from_val(x)),
      Val::Var(2, Some(x)) => FlEnL::Ed(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for FlEnL {
  fn default() -> Self {
    Bind::from_val(&Val::var(2, Val::Struct(vec![Val::s("a")])))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlEL {
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: FlEnL,
  #[cfg(not(any()))]
  pub y: Option<String>,
}
impl Bind for FlEL {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlEL { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlOE {
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: Option<FlEnL>,
}
impl Bind for FlOE {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlOE { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlMix {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub k: Option<u8>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub f: FlAIn,
  pub s: Leaf,
  /// A documented member
  pub v: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  pub e: Option<UnitE>,
}
impl Bind for FlMix {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.f.to_val(), self.s.to_val(), self.v.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => FlMix { k: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), s: Bind::from_val(&l[2]), v: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlMix")]
pub struct FlMixTw {
  /// A documented member
  #[yaserde(attribute = true)]
  pub k: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub i: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[cfg(not(any()))]
  pub l: Option<Leaf>,
  pub s: Leaf,
  /// A documented member
  pub v: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  pub e: Option<UnitE>,
}
impl Bind for FlMixTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.i.to_val(), self.a.to_val(), self.l.to_val(), self.s.to_val(), self.v.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 7 => FlMixTw { k: Bind::from_val(&l[0]), i: Bind::from_val(&l[1]), a: Bind::from_val(&l[2]), l: Bind::from_val(&l[3]), s: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]), e: Bind::from_val(&l[6]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct FlVec {
  #[cfg(not(any()))]
  pub x: u8,
  #[yaserde(flatten = true)]
  pub f: Vec<FlIn>,
}
impl Bind for FlVec {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlVec { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlSub {
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Fl,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub t: Option<Fl>,
  #[cfg(not(any()))]
  pub u: Vec<FlO>,
}
impl Bind for FlSub {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.s.to_val(), self.t.to_val(), self.u.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlSub { s: Bind::from_val(&l[0]), t: Bind::from_val(&l[1]), u: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlDefIn {
  #[yaserde(default = "df_fldefin_a")]
  pub a: String,
  /// A documented member
  pub b: Option<u8>,
}
impl Bind for FlDefIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlDefIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_fldefin_a() -> String {
  Bind::from_val(&Val::s("da"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlDef {
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: FlDefIn,
  #[cfg(not(any()))]
  pub x: Option<u8>,
}
impl Bind for FlDef {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.f.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => FlDef { f: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlDef")]
pub struct FlDefTw {
  /// A documented member
  #[yaserde(default = "df_fldeftw_a")]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
}
impl Bind for FlDefTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlDefTw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), x: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_fldeftw_a() -> String {
  Bind::from_val(&Val::s("da"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub struct RootFl {
  #[cfg(not(any()))]
  pub a: Leaf,
}
impl Bind for RootFl {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => RootFl { a: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub enum RootFlE {
  A(Leaf),
  /// A documented variant
  B(LeafA),
  #[yaserde(rename = "cc")]
  C(Two),
}
impl Bind for RootFlE {
  fn to_val(&self) -> Val {
    match self {
      RootFlE::A(x) => Val::var(0, x.to_val()),
      RootFlE::B(x) => Val::var(1, x.to_val()),
      RootFlE::C(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => RootFlE::A(Bind::from_val(x)),
      Val::Var(1, Some(x)) => RootFlE::B(Bind::from_val(x)),
      Val::Var(2, Some(x)) => RootFlE::C(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for RootFlE {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::Struct(vec![Val::s("a")])))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum VarFl {
  #[yaserde(flatten = true)]
  A(LeafA),
  /// A documented variant
  #[yaserde(rename = "Leaf", flatten = true)]
  B(Leaf),
  N(u8),
}
impl Bind for VarFl {
  fn to_val(&self) -> Val {
    match self {
      VarFl::A(x) => Val::var(0, x.to_val()),
      VarFl::B(x) => Val::var(1, x.to_val()),
      VarFl::N(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => VarFl::A(Bind::from_val(x)),
      Val::Var(1, Some(x)) => VarFl::B(Bind::from_val(x)),
      Val::Var(2, Some(x)) => VarFl::N(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for VarFl {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::Struct(vec![Val::s("5")])))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum VarFlO {
  V(VarFl),
  /// A documented variant
  W(Vec<VarFl>),
  O(Option<VarFl>),
}
impl Bind for VarFlO {
  fn to_val(&self) -> Val {
    match self {
      VarFlO::V(x) => Val::var(0, x.to_val()),
      VarFlO::W(x) => Val::var(1, x.to_val()),
      VarFlO::O(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => VarFlO::V(Bind::from_val(x)),
      Val::Var(1, Some(x)) => VarFlO::W(Bind::from_val(x)),
      Val::Var(2, Some(x)) => VarFlO::O(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for VarFlO {
  fn default() -> Self {
    Bind::from_val(&Val::var(0, Val::var(0, Val::Struct(vec![Val::s("5")]))))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct VarFlS {
  /// A documented member
  pub v: VarFl,
  #[allow(unused)]
  #[doc(hidden)]
  pub w: Vec<VarFl>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<VarFl>,
  #[cfg(not(any()))]
  pub y: VarFlO,
  #[yaserde(flatten = true)]
  pub f: VarFl,
}
impl Bind for VarFlS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.w.to_val(), self.x.to_val(), self.y.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => VarFlS { v: Bind::from_val(&l[0]), w: Bind::from_val(&l[1]), x: Bind::from_val(&l[2]), y: Bind::from_val(&l[3]), f: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(tag = "kind")]
pub enum Tagged {
  A,
  /// A documented variant
  B,
  #[yaserde(rename = "see")]
  C,
}
impl Bind for Tagged {
  fn to_val(&self) -> Val {
    match self {
      Tagged::A => Val::Var(0, None),
      Tagged::B => Val::Var(1, None),
      Tagged::C => Val::Var(2, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => Tagged::A,
      Val::Var(1, None) => Tagged::B,
      Val::Var(2, None) => Tagged::C,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for Tagged {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "tg")] #[yaserde(tag = "type")]
pub enum TaggedN {
  A,
  /// A documented variant
  #[yaserde(rename = "b-b")]
  B,
}
impl Bind for TaggedN {
  fn to_val(&self) -> Val {
    match self {
      TaggedN::A => Val::Var(0, None),
      TaggedN::B => Val::Var(1, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => TaggedN::A,
      Val::Var(1, None) => TaggedN::B,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for TaggedN {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct TagIn {
  pub t: Tagged,
  /// A documented member
  pub u: Vec<TaggedN>,
  #[allow(unused)]
  #[doc(hidden)]
  pub o: Option<Tagged>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
}
impl Bind for TagIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.u.to_val(), self.o.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => TagIn { t: Bind::from_val(&l[0]), u: Bind::from_val(&l[1]), o: Bind::from_val(&l[2]), x: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(tag = "kind")]
pub enum TagNew {
  A,
  /// A documented variant
  S(String),
  #[yaserde(rename = "l.l")]
  L(Leaf),
  V(Vec<u8>),
  /// A documented variant
  O(Option<LeafAT>),
  E(UnitE),
}
impl Bind for TagNew {
  fn to_val(&self) -> Val {
    match self {
      TagNew::A => Val::Var(0, None),
      TagNew::S(x) => Val::var(1, x.to_val()),
      TagNew::L(x) => Val::var(2, x.to_val()),
      TagNew::V(x) => Val::var(3, x.to_val()),
      TagNew::O(x) => Val::var(4, x.to_val()),
      TagNew::E(x) => Val::var(5, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => TagNew::A,
      Val::Var(1, Some(x)) => TagNew::S(Bind::from_val(x)),
      Val::Var(2, Some(x)) => TagNew::L(Bind::from_val(x)),
      Val::Var(3, Some(x)) => TagNew::V(Bind::from_val(x)),
      Val::Var(4, Some(x)) => TagNew::O(Bind::from_val(x)),
      Val::Var(5, Some(x)) => TagNew::E(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for TagNew {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct TagNewIn {
  /// A documented member
  pub t: TagNew,
  #[allow(unused)]
  #[doc(hidden)]
  pub S: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub u: Vec<TagNew>,
  #[cfg(not(any()))]
  pub l: Option<Leaf>,
}
impl Bind for TagNewIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.S.to_val(), self.u.to_val(), self.l.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => TagNewIn { t: Bind::from_val(&l[0]), S: Bind::from_val(&l[1]), u: Bind::from_val(&l[2]), l: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum Cross {
  #[yaserde(rename = "B")]
  A(String),
  /// A documented variant
  #[yaserde(rename = "A")]
  B(u8),
  #[yaserde(rename = "C")]
  N,
  #[yaserde(rename = "N")]
  C,
}
impl Bind for Cross {
  fn to_val(&self) -> Val {
    match self {
      Cross::A(x) => Val::var(0, x.to_val()),
      Cross::B(x) => Val::var(1, x.to_val()),
      Cross::N => Val::Var(2, None),
      Cross::C => Val::Var(3, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => Cross::A(Bind::from_val(x)),
      Val::Var(1, Some(x)) => Cross::B(Bind::from_val(x)),
      Val::Var(2, None) => Cross::N,
      Val::Var(3, None) => Cross::C,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for Cross {
  fn default() -> Self {
    Bind::from_val(&Val::Var(2, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum Conf {
  a(String),
  /// A documented variant
  A(u8),
  #[yaserde(rename = "a-b")]
  ab(u8),
  N,
  /// A documented variant
  n,
  Conf(Option<u8>),
}
impl Bind for Conf {
  fn to_val(&self) -> Val {
    match self {
      Conf::a(x) => Val::var(0, x.to_val()),
      Conf::A(x) => Val::var(1, x.to_val()),
      Conf::ab(x) => Val::var(2, x.to_val()),
      Conf::N => Val::Var(3, None),
      Conf::n => Val::Var(4, None),
      Conf::Conf(x) => Val::var(5, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => Conf::a(Bind::from_val(x)),
      Val::Var(1, Some(x)) => Conf::A(Bind::from_val(x)),
      Val::Var(2, Some(x)) => Conf::ab(Bind::from_val(x)),
      Val::Var(3, None) => Conf::N,
      Val::Var(4, None) => Conf::n,
      Val::Var(5, Some(x)) => Conf::Conf(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for Conf {
  fn default() -> Self {
    Bind::from_val(&Val::Var(3, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum EnNest {
  Z,
  /// A documented variant
  S(UnitE),
  A(NewE),
  V(Vec<NewE>),
  /// A documented variant
  K(Tagged),
  O(Option<Cross>),
}
impl Bind for EnNest {
  fn to_val(&self) -> Val {
    match self {
      EnNest::Z => Val::Var(0, None),
      EnNest::S(x) => Val::var(1, x.to_val()),
      EnNest::A(x) => Val::var(2, x.to_val()),
      EnNest::V(x) => Val::var(3, x.to_val()),
      EnNest::K(x) => Val::var(4, x.to_val()),
      EnNest::O(x) => Val::var(5, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => EnNest::Z,
      Val::Var(1, Some(x)) => EnNest::S(Bind::from_val(x)),
      Val::Var(2, Some(x)) => EnNest::A(Bind::from_val(x)),
      Val::Var(3, Some(x)) => EnNest::V(Bind::from_val(x)),
      Val::Var(4, Some(x)) => EnNest::K(Bind::from_val(x)),
      Val::Var(5, Some(x)) => EnNest::O(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for EnNest {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct EnIn {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<u8>,
  #[cfg(not(any()))]
  pub e: NewE,
  pub b: Option<u8>,
}
impl Bind for EnIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.e.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => EnIn { a: Bind::from_val(&l[0]), e: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct EnInT {
  /// A documented member
  pub a: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub e: Option<NewT>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<LeafT>,
}
impl Bind for EnInT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.e.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => EnInT { a: Bind::from_val(&l[0]), e: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct EnInV {
  #[cfg(not(any()))]
  pub e: Vec<NewE>,
  pub U: Option<u8>,
  /// A documented member
  pub f: Option<UnitE>,
}
impl Bind for EnInV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.U.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => EnInV { e: Bind::from_val(&l[0]), U: Bind::from_val(&l[1]), f: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct EnSame {
  #[allow(unused)]
  #[doc(hidden)]
  pub S: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub N: Option<u32>,
  #[cfg(not(any()))]
  pub e: NewE,
  pub L: Vec<Leaf>,
}
impl Bind for EnSame {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.S.to_val(), self.N.to_val(), self.e.to_val(), self.L.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => EnSame { S: Bind::from_val(&l[0]), N: Bind::from_val(&l[1]), e: Bind::from_val(&l[2]), L: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct EnInC {
  pub x: Cross,
  /// A documented member
  pub A: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub y: Option<Conf>,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub t: String,
}
impl Bind for EnInC {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.A.to_val(), self.y.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => EnInC { x: Bind::from_val(&l[0]), A: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]), t: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct EnInN {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub Z: Option<u8>,
  #[cfg(not(any()))]
  pub e: EnNest,
  pub S: Option<UnitE>,
}
impl Bind for EnInN {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.Z.to_val(), self.e.to_val(), self.S.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => EnInN { Z: Bind::from_val(&l[0]), e: Bind::from_val(&l[1]), S: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsA {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<u8>,
}
impl Bind for NsA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsA { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[allow(unused)] #[yaserde(prefix = "n",)] #[allow(unused)] #[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" },)]
pub struct NsB {
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub a: Option<String>,
  #[yaserde(rename = "a", prefix = "m")]
  pub b: Option<String>,
  /// A documented member
  #[yaserde(rename = "a")]
  pub c: Option<String>,
}
impl Bind for NsB {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsB { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "in", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsIn {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub v: Option<String>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Option<u8>,
}
impl Bind for NsIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsIn { v: Bind::from_val(&l[0]), w: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "out", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsOut {
  #[yaserde(prefix = "n")]
  pub i: Option<NsIn>,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub j: Vec<NsIn>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub v: Option<String>,
}
impl Bind for NsOut {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.i.to_val(), self.j.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsOut { i: Bind::from_val(&l[0]), j: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsAttr {
  #[yaserde(attribute = true)] #[yaserde()] #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub y: Option<u8>,
  #[yaserde(prefix = "n")]
  pub z: Option<String>,
}
impl Bind for NsAttr {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsAttr { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]), z: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "leaf", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsLeaf {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub t: Option<String>,
}
impl Bind for NsLeaf {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => NsLeaf { t: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[yaserde(prefix = "n",)] #[yaserde(default_namespace = "n",)] #[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" },)]
pub struct NsDflt {
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub a: Option<String>,
  #[yaserde(prefix = "m")]
  pub b: Option<u8>,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub l: Option<NsLeaf>,
}
impl Bind for NsDflt {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.l.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsDflt { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", namespaces = { "n" = "urn:n" })]
pub struct NsNone {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<u8>,
}
impl Bind for NsNone {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsNone { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "m", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsTwoV {
  #[yaserde(prefix = "n")]
  pub a: Vec<String>,
  /// A documented member
  #[yaserde(rename = "a", prefix = "m")]
  pub b: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "a2")] #[allow(unused)] #[yaserde(prefix = "m")]
  pub c: Vec<NsLeaf>,
}
impl Bind for NsTwoV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsTwoV { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "in", namespaces = { "n" = "urn:other" })]
pub struct NsShadIn {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<String>,
}
impl Bind for NsShadIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => NsShadIn { v: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[yaserde()] #[yaserde(prefix = "n",)] #[yaserde()] #[yaserde(namespaces = { "n" = "urn:n" },)]
pub struct NsShad {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub i: Option<NsShadIn>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub v: Option<String>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Option<NsIn>,
}
impl Bind for NsShad {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.i.to_val(), self.v.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsShad { i: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), w: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "ens", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub enum NsE {
  A,
  /// A documented variant
  #[yaserde(prefix = "n")]
  S(String),
  #[yaserde(prefix = "n")]
  L(Leaf),
  #[yaserde(prefix = "m")]
  T(NsLeaf),
  /// A documented variant
  #[yaserde(prefix = "n")]
  V(Vec<NsLeaf>),
}
impl Bind for NsE {
  fn to_val(&self) -> Val {
    match self {
      NsE::A => Val::Var(0, None),
      NsE::S(x) => Val::var(1, x.to_val()),
      NsE::L(x) => Val::var(2, x.to_val()),
      NsE::T(x) => Val::var(3, x.to_val()),
      NsE::V(x) => Val::var(4, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NsE::A,
      Val::Var(1, Some(x)) => NsE::S(Bind::from_val(x)),
      Val::Var(2, Some(x)) => NsE::L(Bind::from_val(x)),
      Val::Var(3, Some(x)) => NsE::T(Bind::from_val(x)),
      Val::Var(4, Some(x)) => NsE::V(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NsE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "nsu", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub enum NsU {
  #[yaserde(prefix = "n")]
  A,
  /// A documented variant
  B,
  #[yaserde(prefix = "m")]
  C,
  #[yaserde(prefix = "m")]
  D(u8),
  /// A documented variant
  #[yaserde(rename = "e.e")] #[yaserde(prefix = "m")]
  E,
}
impl Bind for NsU {
  fn to_val(&self) -> Val {
    match self {
      NsU::A => Val::Var(0, None),
      NsU::B => Val::Var(1, None),
      NsU::C => Val::Var(2, None),
      NsU::D(x) => Val::var(3, x.to_val()),
      NsU::E => Val::Var(4, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NsU::A,
      Val::Var(1, None) => NsU::B,
      Val::Var(2, None) => NsU::C,
      Val::Var(3, Some(x)) => NsU::D(Bind::from_val(x)),
      Val::Var(4, None) => NsU::E,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NsU {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "nsu", prefix = "n", default_namespace = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub enum NsUD {
  #[yaserde(prefix = "n")]
  A,
  /// A documented variant
  B,
  #[yaserde(prefix = "m")]
  C,
}
impl Bind for NsUD {
  fn to_val(&self) -> Val {
    match self {
      NsUD::A => Val::Var(0, None),
      NsUD::B => Val::Var(1, None),
      NsUD::C => Val::Var(2, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NsUD::A,
      Val::Var(1, None) => NsUD::B,
      Val::Var(2, None) => NsUD::C,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NsUD {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsEnum {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: Option<NsE>,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub x: Option<u8>,
  #[yaserde(prefix = "m")]
  pub u: Option<UnitE>,
}
impl Bind for NsEnum {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.x.to_val(), self.u.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsEnum { e: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]), u: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsPrim {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub p: Option<PrimI>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub q: Vec<Hex8>,
  #[yaserde(cdata = true,)] #[allow(unused)] #[yaserde(prefix = "n",)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub c: String,
}
impl Bind for NsPrim {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.q.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsPrim { p: Bind::from_val(&l[0]), q: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "fin", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsFlIn {
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub a: Option<String>,
  #[yaserde(prefix = "n")]
  pub b: Option<u8>,
}
impl Bind for NsFlIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsFlIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root")] #[yaserde()] #[yaserde(prefix = "n")] #[yaserde()] #[yaserde(namespaces = { "n" = "urn:n" })]
pub struct NsFl {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: NsFlIn,
}
impl Bind for NsFl {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsFl { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsFlTw {
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub b: Option<u8>,
}
impl Bind for NsFlTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlTw { x: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsFlP {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub f: FlIn,
}
impl Bind for NsFlP {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsFlP { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[yaserde(prefix = "n",)] #[yaserde(namespaces = { "n" = "urn:n" },)]
pub struct NsFlPTw {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub a: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<u32>,
}
impl Bind for NsFlPTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlPTw { x: Bind::from_val(&l[0]), a: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsFlPO {
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  pub f: Option<FlIn>,
  /// A documented member
  pub y: Option<String>,
}
impl Bind for NsFlPO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlPO { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "fin", prefix = "m", namespaces = { "m" = "urn:m" })]
pub struct NsFlMIn {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub a: Option<String>,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<NsLeaf>,
  #[cfg(not(any()))]
  pub w: Option<u8>,
}
impl Bind for NsFlMIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.v.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlMIn { a: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), w: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root")] #[allow(unused)] #[yaserde(prefix = "n")] #[allow(unused)] #[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsFlM {
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: NsFlMIn,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
}
impl Bind for NsFlM {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlM { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), a: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsFlMTw {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[yaserde(rename = "a", prefix = "m")]
  #[cfg(not(any()))]
  pub aa: Option<String>,
  #[yaserde(prefix = "m")]
  pub v: Vec<NsLeaf>,
  /// A documented member
  pub w: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
}
impl Bind for NsFlMTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.aa.to_val(), self.v.to_val(), self.w.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => NsFlMTw { x: Bind::from_val(&l[0]), aa: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), w: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[yaserde()] #[yaserde(prefix = "n",)] #[yaserde()] #[yaserde(namespaces = { "n" = "urn:n" },)]
pub struct NsFlQ {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub f: NsFlMIn,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
}
impl Bind for NsFlQ {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlQ { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), a: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsFlQTw {
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub x: Option<u8>,
  #[yaserde(rename = "a", prefix = "m")]
  pub aa: Option<String>,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub v: Vec<NsLeaf>,
  #[allow(unused)]
  #[doc(hidden)]
  pub w: Option<u8>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
}
impl Bind for NsFlQTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.aa.to_val(), self.v.to_val(), self.w.to_val(), self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => NsFlQTw { x: Bind::from_val(&l[0]), aa: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), w: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rin")] #[yaserde(namespaces = { "k" = "urn:k" })]
pub struct NsFlRIn {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "k")]
  pub c: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub i: Option<u8>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub g: NsFlMIn,
}
impl Bind for NsFlRIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.i.to_val(), self.g.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlRIn { c: Bind::from_val(&l[0]), i: Bind::from_val(&l[1]), g: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsFlR {
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: NsFlRIn,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub y: Vec<NsLeaf>,
}
impl Bind for NsFlR {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlR { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m", "k" = "urn:k" })]
pub struct NsFlRTw {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[yaserde(prefix = "k")]
  #[cfg(not(any()))]
  pub c: String,
  #[yaserde(attribute = true)]
  pub i: Option<u8>,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub v: Vec<NsLeaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub w: Option<u8>,
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub y: Vec<NsLeaf>,
}
impl Bind for NsFlRTw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.c.to_val(), self.i.to_val(), self.a.to_val(), self.v.to_val(), self.w.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 7 => NsFlRTw { x: Bind::from_val(&l[0]), c: Bind::from_val(&l[1]), i: Bind::from_val(&l[2]), a: Bind::from_val(&l[3]), v: Bind::from_val(&l[4]), w: Bind::from_val(&l[5]), y: Bind::from_val(&l[6]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[allow(unused)] #[yaserde(prefix = "n",)] #[allow(unused)] #[yaserde(namespaces = { "n" = "urn:n" },)]
pub struct NsFlRO {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub x: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub f: Option<NsFlRIn>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: Option<NsFlQ>,
}
impl Bind for NsFlRO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.f.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsFlRO { x: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), y: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "fre", prefix = "n", namespaces = { "n" = "urn:n" })]
pub enum NsFlRE {
  #[yaserde(prefix = "n")]
  A,
  /// A documented variant
  #[yaserde(prefix = "n")]
  B(NsFlQ),
  #[yaserde(rename = "c-c", prefix = "n")]
  C(NsFlR),
  #[yaserde(prefix = "n")]
  D(Vec<NsFlRO>),
}
impl Bind for NsFlRE {
  fn to_val(&self) -> Val {
    match self {
      NsFlRE::A => Val::Var(0, None),
      NsFlRE::B(x) => Val::var(1, x.to_val()),
      NsFlRE::C(x) => Val::var(2, x.to_val()),
      NsFlRE::D(x) => Val::var(3, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NsFlRE::A,
      Val::Var(1, Some(x)) => NsFlRE::B(Bind::from_val(x)),
      Val::Var(2, Some(x)) => NsFlRE::C(Bind::from_val(x)),
      Val::Var(3, Some(x)) => NsFlRE::D(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NsFlRE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "d2")] #[yaserde()] #[yaserde(namespaces = { "k" = "urn:k" })]
pub struct NsDeep2 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "k")]
  pub c: Option<String>,
}
impl Bind for NsDeep2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => NsDeep2 { c: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "d1", namespaces = { "m" = "urn:m" })]
pub struct NsDeep1 {
  #[yaserde(prefix = "m")]
  pub b: Option<NsDeep2>,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub c: Option<String>,
}
impl Bind for NsDeep1 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.b.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsDeep1 { b: Bind::from_val(&l[0]), c: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "d0", prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct NsDeep {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<NsDeep1>,
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub b: Option<String>,
}
impl Bind for NsDeep {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsDeep { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root",)] #[yaserde(prefix = "n",)] #[yaserde(namespaces = { "n" = "urn:n" },)]
pub struct NsText {
  /// A documented member
  #[yaserde(text = true)]
  pub t: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub x: Option<String>,
}
impl Bind for NsText {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.t.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsText { t: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:a&b" })]
pub struct NsAmp {
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub a: Option<String>,
}
impl Bind for NsAmp {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 1 => NsAmp { a: Bind::from_val(&l[0]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "http://e.org/n/", "m" = "http://e.org/n", "k" = "http://e.org/N/" })]
pub struct NsUri {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
  #[yaserde(rename = "a", prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<String>,
  #[yaserde(rename = "a")] #[allow(unused)] #[yaserde(prefix = "k")]
  #[cfg(not(any()))]
  pub c: Vec<u8>,
  #[yaserde(prefix = "m")]
  pub d: Option<NsUriIn>,
}
impl Bind for NsUri {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => NsUri { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "d", prefix = "q", namespaces = { "q" = "http://e.org/n/#" })]
pub struct NsUriIn {
  #[yaserde(prefix = "q")]
  pub a: Option<String>,
  /// A documented member
  pub b: Option<String>,
}
impl Bind for NsUriIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsUriIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root")] #[yaserde(prefix = "nn")] #[yaserde(namespaces = { "n" = "nn", "nn" = "n", "n_n" = "n-n", "k" = "N" })]
pub struct NsPre {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[yaserde(rename = "a",)] #[yaserde()] #[yaserde(prefix = "nn",)]
  #[cfg(not(any()))]
  pub b: Option<String>,
  #[yaserde(rename = "a", prefix = "n_n")]
  pub c: Option<u8>,
  /// A documented member
  #[yaserde(rename = "a", prefix = "k")]
  pub d: Vec<u8>,
}
impl Bind for NsPre {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => NsPre { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "nst", prefix = "n", namespaces = { "n" = "urn:n" })]
pub enum NsT {
  A,
  /// A documented variant
  B,
  #[yaserde(rename = "see")]
  C,
}
impl Bind for NsT {
  fn to_val(&self) -> Val {
    match self {
      NsT::A => Val::Var(0, None),
      NsT::B => Val::Var(1, None),
      NsT::C => Val::Var(2, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NsT::A,
      Val::Var(1, None) => NsT::B,
      Val::Var(2, None) => NsT::C,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NsT {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct NsAttrT {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub x: NsT,
  #[yaserde(attribute = true, rename = "yy")]
  pub y: Option<NsUD>,
  /// A documented member
  pub z: Option<NsT>,
}
impl Bind for NsAttrT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsAttrT { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]), z: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root", prefix = "m", namespaces = { "m" = "urn:m" })]
pub struct NsAttrU {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(rename = "t",)]
  pub x: Option<NsT>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: NsUD,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub z: Vec<NsAttrT>,
}
impl Bind for NsAttrU {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.z.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NsAttrU { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]), z: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct NsAttrV {
  #[yaserde(attribute = true)]
  pub w: Vec<NsT>,
  /// A documented member
  pub x: Option<u8>,
}
impl Bind for NsAttrV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.w.to_val(), self.x.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => NsAttrV { w: Bind::from_val(&l[0]), x: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "gen")]
pub struct Gen<T>
where
  T: YaSerialize + YaDeserialize,
{
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: T,
  #[cfg(not(any()))]
  pub o: Option<T>,
  pub l: Vec<T>,
}
impl<T: YaSerialize + YaDeserialize + Bind> Bind for Gen<T> {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.o.to_val(), self.l.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => Gen { v: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct GenUse {
  #[allow(unused)]
  #[doc(hidden)]
  pub g: Gen<Leaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub h: Option<Gen<UnitE>>,
}
impl Bind for GenUse {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.g.to_val(), self.h.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 2 => GenUse { g: Bind::from_val(&l[0]), h: Bind::from_val(&l[1]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
macro_rules! mk_mac {
  ($n:ident, $s:ty, $o:ty, $v:ty, $l:ty) => {
    #[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
    pub struct $n {
      pub a: $s,
      pub o: Option<$o>,
      pub v: Vec<$v>,
      pub l: $l,
    }
  };
}
mk_mac!(Mac, String, u32, Leaf, Leaf);
impl Bind for Mac {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.o.to_val(), self.v.to_val(), self.l.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Mac { a: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), l: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Paths {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: std::string::String,
  #[cfg(not(any()))]
  pub o: std::option::Option<u8>,
  pub v: std::vec::Vec<std::string::String>,
  /// A documented member
  pub l: crate::Leaf,
  #[allow(unused)]
  #[doc(hidden)]
  pub m: Option<crate::LeafA>,
}
impl Bind for Paths {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.o.to_val(), self.v.to_val(), self.l.to_val(), self.m.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => Paths { a: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), l: Bind::from_val(&l[3]), m: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Outer {
  /// A documented member
  #[yaserde(rename = "type")]
  pub r_type: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "mod")]
  pub r_mod: Option<u8>,
  #[yaserde(rename = "self")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r_self: Option<Leaf>,
}
impl Bind for Outer {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r_type.to_val(), self.r_mod.to_val(), self.r_self.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => Outer { r_type: Bind::from_val(&l[0]), r_mod: Bind::from_val(&l[1]), r_self: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "ed", prefix = "n", default_namespace = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub enum NsED {
  #[yaserde(prefix = "n")]
  A,
  /// A documented variant
  #[yaserde(rename = "bee")] #[yaserde()] #[yaserde(prefix = "n")]
  B(u8),
  #[yaserde(rename = "c.c", prefix = "m")]
  C(NsLeaf),
  #[yaserde(prefix = "n")]
  D(String),
  /// A documented variant
  #[yaserde(rename = "ef", prefix = "n")]
  F(Vec<u16>),
}
impl Bind for NsED {
  fn to_val(&self) -> Val {
    match self {
      NsED::A => Val::Var(0, None),
      NsED::B(x) => Val::var(1, x.to_val()),
      NsED::C(x) => Val::var(2, x.to_val()),
      NsED::D(x) => Val::var(3, x.to_val()),
      NsED::F(x) => Val::var(4, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NsED::A,
      Val::Var(1, Some(x)) => NsED::B(Bind::from_val(x)),
      Val::Var(2, Some(x)) => NsED::C(Bind::from_val(x)),
      Val::Var(3, Some(x)) => NsED::D(Bind::from_val(x)),
      Val::Var(4, Some(x)) => NsED::F(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NsED {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "dr", prefix = "n", default_namespace = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct NsDR {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "x-y",)] #[yaserde(prefix = "n",)]
  pub a: Option<String>,
  #[yaserde(rename = "b.b", prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<u8>,
  #[yaserde(rename = "see", prefix = "n")]
  #[cfg(not(any()))]
  pub c: Option<NsED>,
  #[yaserde(rename = "dee")] #[allow(unused)] #[yaserde(prefix = "m")]
  pub d: Option<NsED>,
  /// A documented member
  #[yaserde(attribute = true, prefix = "m")]
  pub e: Option<u8>,
}
impl Bind for NsDR {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => NsDR { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "un", namespaces = { "n" = "urn:n", "m" = "urn:m", "k" = "urn:k" })]
pub struct NsUn {
  pub a: Option<String>,
  /// A documented member
  #[yaserde(rename = "a",)] #[yaserde()] #[yaserde(prefix = "n",)]
  pub b: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub c: Option<Leaf>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub d: Vec<NsLeaf>,
}
impl Bind for NsUn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => NsUn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct AttrV {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub ids: Vec<u8>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub n: Option<String>,
  #[yaserde(attribute = true)]
  pub aa: Vec<String>,
  /// A documented member
  #[yaserde(attribute = true, default = "df_attrv_zz")]
  pub zz: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub e: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: Vec<Leaf>,
}
impl Bind for AttrV {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.ids.to_val(), self.n.to_val(), self.aa.to_val(), self.zz.to_val(), self.e.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => AttrV { ids: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), aa: Bind::from_val(&l[2]), zz: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]), f: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_attrv_zz() -> u32 {
  Bind::from_val(&Val::s("4"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct AttrVS {
  /// A documented member
  #[yaserde(attribute = true)]
  pub k: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub sub: Vec<AttrV>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub l: Vec<PrimI>,
  #[cfg(not(any()))]
  pub u: Option<AttrV>,
  #[yaserde(text = true)]
  pub t: String,
}
impl Bind for AttrVS {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.sub.to_val(), self.l.to_val(), self.u.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => AttrVS { k: Bind::from_val(&l[0]), sub: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]), u: Bind::from_val(&l[3]), t: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlAIn2 {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub j: Option<u8>,
  #[yaserde(attribute = true)]
  pub m: String,
  /// A documented member
  pub c: Option<String>,
}
impl Bind for FlAIn2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.j.to_val(), self.m.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => FlAIn2 { j: Bind::from_val(&l[0]), m: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct FlTwoA {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub k: Option<u8>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: FlAIn,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub g: FlAIn2,
  pub y: Option<u8>,
}
impl Bind for FlTwoA {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.f.to_val(), self.g.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => FlTwoA { k: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), g: Bind::from_val(&l[2]), y: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "FlTwoA")]
pub struct FlTwoATw {
  #[yaserde(attribute = true)]
  pub k: Option<u8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub i: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub l: Option<Leaf>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub j: Option<u8>,
  #[yaserde(attribute = true)]
  pub m: String,
  /// A documented member
  pub c: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub y: Option<u8>,
}
impl Bind for FlTwoATw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.i.to_val(), self.a.to_val(), self.l.to_val(), self.j.to_val(), self.m.to_val(), self.c.to_val(), self.y.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => FlTwoATw { k: Bind::from_val(&l[0]), i: Bind::from_val(&l[1]), a: Bind::from_val(&l[2]), l: Bind::from_val(&l[3]), j: Bind::from_val(&l[4]), m: Bind::from_val(&l[5]), c: Bind::from_val(&l[6]), y: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Raw {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r#type: String,
  #[cfg(not(any()))]
  pub r#mod: Option<u8>,
  pub r#in: Vec<String>,
  /// A documented member
  pub r#for: Option<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub r#ref: Option<String>,
  #[yaserde(attribute = true)] #[yaserde(default = "df_raw_use")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub r#use: u32,
  #[yaserde(rename = "m-m")]
  #[cfg(not(any()))]
  pub r#match: Vec<Leaf>,
}
impl Bind for Raw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r#type.to_val(), self.r#mod.to_val(), self.r#in.to_val(), self.r#for.to_val(), self.r#ref.to_val(), self.r#use.to_val(), self.r#match.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 7 => Raw { r#type: Bind::from_val(&l[0]), r#mod: Bind::from_val(&l[1]), r#in: Bind::from_val(&l[2]), r#for: Bind::from_val(&l[3]), r#ref: Bind::from_val(&l[4]), r#use: Bind::from_val(&l[5]), r#match: Bind::from_val(&l[6]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_raw_use() -> u32 {
  Bind::from_val(&Val::s("3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum RawE {
  A,
  /// A documented variant
  r#type(String),
  r#fn,
  r#loop(Leaf),
  /// A documented variant
  r#box(Vec<u8>),
}
impl Bind for RawE {
  fn to_val(&self) -> Val {
    match self {
      RawE::A => Val::Var(0, None),
      RawE::r#type(x) => Val::var(1, x.to_val()),
      RawE::r#fn => Val::Var(2, None),
      RawE::r#loop(x) => Val::var(3, x.to_val()),
      RawE::r#box(x) => Val::var(4, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => RawE::A,
      Val::Var(1, Some(x)) => RawE::r#type(Bind::from_val(x)),
      Val::Var(2, None) => RawE::r#fn,
      Val::Var(3, Some(x)) => RawE::r#loop(Bind::from_val(x)),
      Val::Var(4, Some(x)) => RawE::r#box(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for RawE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "raw-t")]
pub struct RawT {
  #[cfg(not(any()))]
  pub r#as: Option<RawE>,
  #[yaserde(text = true)]
  pub r#where: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub r#dyn: FlIn,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_impl")]
  pub r#impl: Option<u8>,
}
impl Bind for RawT {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.r#as.to_val(), self.r#where.to_val(), self.r#dyn.to_val(), self.r#impl.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => RawT { r#as: Bind::from_val(&l[0]), r#where: Bind::from_val(&l[1]), r#dyn: Bind::from_val(&l[2]), r#impl: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl RawT {
  fn p_impl(&self, v: &Option<u8>) -> bool {
    pred("never", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Vars {
  #[allow(unused)]
  #[doc(hidden)]
  pub reader: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub writer: Option<u8>,
  #[cfg(not(any()))]
  pub depth: Vec<u8>,
  pub event: Leaf,
  /// A documented member
  pub name: Option<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  pub attributes: Option<UnitE>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub value: u8,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub namespace: Option<String>,
  pub buf: Vec<Leaf>,
}
impl Bind for Vars {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.reader.to_val(), self.writer.to_val(), self.depth.to_val(), self.event.to_val(), self.name.to_val(), self.attributes.to_val(), self.value.to_val(), self.namespace.to_val(), self.buf.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 9 => Vars { reader: Bind::from_val(&l[0]), writer: Bind::from_val(&l[1]), depth: Bind::from_val(&l[2]), event: Bind::from_val(&l[3]), name: Bind::from_val(&l[4]), attributes: Bind::from_val(&l[5]), value: Bind::from_val(&l[6]), namespace: Bind::from_val(&l[7]), buf: Bind::from_val(&l[8]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Vars2 {
  pub visitor: String,
  /// A documented member
  pub result: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub content: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub item: Vec<LeafA>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub tag: Option<String>,
  #[yaserde(attribute = true, default = "df_vars2_skip")]
  pub skip: u8,
  /// A documented member
  #[yaserde(text = true)]
  pub s: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub struct_start_event: FlIn,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub yaserde_inner: Option<PrimI>,
}
impl Bind for Vars2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.visitor.to_val(), self.result.to_val(), self.content.to_val(), self.item.to_val(), self.tag.to_val(), self.skip.to_val(), self.s.to_val(), self.struct_start_event.to_val(), self.yaserde_inner.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 9 => Vars2 { visitor: Bind::from_val(&l[0]), result: Bind::from_val(&l[1]), content: Bind::from_val(&l[2]), item: Bind::from_val(&l[3]), tag: Bind::from_val(&l[4]), skip: Bind::from_val(&l[5]), s: Bind::from_val(&l[6]), struct_start_event: Bind::from_val(&l[7]), yaserde_inner: Bind::from_val(&l[8]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_vars2_skip() -> u8 {
  Bind::from_val(&Val::s("1"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Vars3 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub start_depth: u8,
  #[cfg(not(any()))]
  pub named_element: Option<String>,
  pub struct_namespace: Option<String>,
  /// A documented member
  pub field_depth: Vec<bool>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub unused_xml_elements: FlAIn,
  #[yaserde(skip_serializing_if = "p_yaserde_value", default = "df_vars3_yaserde_value")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub yaserde_value: String,
  #[cfg(not(any()))]
  pub text_content: Option<Leaf>,
  pub yaserde_item: Option<u8>,
  /// A documented member
  pub label: Vec<String>,
}
impl Bind for Vars3 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.start_depth.to_val(), self.named_element.to_val(), self.struct_namespace.to_val(), self.field_depth.to_val(), self.unused_xml_elements.to_val(), self.yaserde_value.to_val(), self.text_content.to_val(), self.yaserde_item.to_val(), self.label.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 9 => Vars3 { start_depth: Bind::from_val(&l[0]), named_element: Bind::from_val(&l[1]), struct_namespace: Bind::from_val(&l[2]), field_depth: Bind::from_val(&l[3]), unused_xml_elements: Bind::from_val(&l[4]), yaserde_value: Bind::from_val(&l[5]), text_content: Bind::from_val(&l[6]), yaserde_item: Bind::from_val(&l[7]), label: Bind::from_val(&l[8]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Vars3 {
  fn p_yaserde_value(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_vars3_yaserde_value() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct NoFlags {
  /// A documented member
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub attribute: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub text: Option<String>,
  #[cfg(not(any()))]
  pub cdata: Option<bool>,
  pub flatten: Option<Leaf>,
  /// A documented member
  pub default: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub rename: Option<u8>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub prefix: Option<String>,
}
impl Bind for NoFlags {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.attribute.to_val(), self.text.to_val(), self.cdata.to_val(), self.flatten.to_val(), self.default.to_val(), self.rename.to_val(), self.prefix.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => NoFlags { a: Bind::from_val(&l[0]), attribute: Bind::from_val(&l[1]), text: Bind::from_val(&l[2]), cdata: Bind::from_val(&l[3]), flatten: Bind::from_val(&l[4]), default: Bind::from_val(&l[5]), rename: Bind::from_val(&l[6]), prefix: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct UseCust {
  #[cfg(not(any()))]
  pub c: Cust,
  pub d: Option<Cust>,
  /// A documented member
  pub e: Vec<Cust>,
  #[allow(unused)]
  #[doc(hidden)]
  pub f: String,
}
impl Bind for UseCust {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.d.to_val(), self.e.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => UseCust { c: Bind::from_val(&l[0]), d: Bind::from_val(&l[1]), e: Bind::from_val(&l[2]), f: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "gen2")]
pub struct Gen2<T, U>
where
  T: YaSerialize + YaDeserialize, U: YaSerialize + YaDeserialize,
{
  #[allow(unused)]
  #[doc(hidden)]
  pub a: T,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<U>,
  #[cfg(not(any()))]
  pub c: Option<T>,
  #[yaserde(attribute = true)]
  pub n: u8,
}
impl<T: YaSerialize + YaDeserialize + Bind, U: YaSerialize + YaDeserialize + Bind> Bind for Gen2<T, U> {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.n.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => Gen2 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), n: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Turbo {
  pub a: Vec::<String>,
  /// A documented member
  pub b: Option::<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub c: Vec::<Leaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub d: ::std::option::Option::<LeafA>,
  #[cfg(not(any()))]
  pub e: core::option::Option<bool>,
}
impl Bind for Turbo {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => Turbo { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]), e: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Many {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub m00: u8,
  #[cfg(not(any()))]
  pub m01: Option<String>,
  pub m02: Vec<u8>,
  /// A documented member
  #[yaserde(rename = "m03x")]
  pub m03: Option<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub m04: Option<u8>,
  #[yaserde(default = "df_many_m05")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub m05: bool,
  #[cfg(not(any()))]
  pub m06: u8,
  pub m07: Option<String>,
  /// A documented member
  pub m08: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "m09x")]
  pub m09: Option<Leaf>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub m10: Option<u8>,
  #[yaserde(default = "df_many_m11")]
  #[cfg(not(any()))]
  pub m11: bool,
  pub m12: u8,
  /// A documented member
  pub m13: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub m14: Vec<u8>,
  #[yaserde(rename = "m15x")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub m15: Option<Leaf>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub m16: Option<u8>,
  #[yaserde(default = "df_many_m17")]
  pub m17: bool,
  /// A documented member
  pub m18: u8,
  #[allow(unused)]
  #[doc(hidden)]
  pub m19: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub m20: Vec<u8>,
  #[yaserde(rename = "m21x")]
  #[cfg(not(any()))]
  pub m21: Option<Leaf>,
  #[yaserde(attribute = true)]
  pub m22: Option<u8>,
  /// A documented member
  #[yaserde(default = "df_many_m23")]
  pub m23: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub m24: u8,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub m25: Option<String>,
  #[cfg(not(any()))]
  pub m26: Vec<u8>,
  #[yaserde(rename = "m27x")]
  pub m27: Option<Leaf>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub m28: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_many_m29")]
  pub m29: bool,
}
impl Bind for Many {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.m00.to_val(), self.m01.to_val(), self.m02.to_val(), self.m03.to_val(), self.m04.to_val(), self.m05.to_val(), self.m06.to_val(), self.m07.to_val(), self.m08.to_val(), self.m09.to_val(), self.m10.to_val(), self.m11.to_val(), self.m12.to_val(), self.m13.to_val(), self.m14.to_val(), self.m15.to_val(), self.m16.to_val(), self.m17.to_val(), self.m18.to_val(), self.m19.to_val(), self.m20.to_val(), self.m21.to_val(), self.m22.to_val(), self.m23.to_val(), self.m24.to_val(), self.m25.to_val(), self.m26.to_val(), self.m27.to_val(), self.m28.to_val(), self.m29.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 30 => Many { m00: Bind::from_val(&l[0]), m01: Bind::from_val(&l[1]), m02: Bind::from_val(&l[2]), m03: Bind::from_val(&l[3]), m04: Bind::from_val(&l[4]), m05: Bind::from_val(&l[5]), m06: Bind::from_val(&l[6]), m07: Bind::from_val(&l[7]), m08: Bind::from_val(&l[8]), m09: Bind::from_val(&l[9]), m10: Bind::from_val(&l[10]), m11: Bind::from_val(&l[11]), m12: Bind::from_val(&l[12]), m13: Bind::from_val(&l[13]), m14: Bind::from_val(&l[14]), m15: Bind::from_val(&l[15]), m16: Bind::from_val(&l[16]), m17: Bind::from_val(&l[17]), m18: Bind::from_val(&l[18]), m19: Bind::from_val(&l[19]), m20: Bind::from_val(&l[20]), m21: Bind::from_val(&l[21]), m22: Bind::from_val(&l[22]), m23: Bind::from_val(&l[23]), m24: Bind::from_val(&l[24]), m25: Bind::from_val(&l[25]), m26: Bind::from_val(&l[26]), m27: Bind::from_val(&l[27]), m28: Bind::from_val(&l[28]), m29: Bind::from_val(&l[29]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_many_m05() -> bool {
  Bind::from_val(&Val::s("true"))
}
fn df_many_m11() -> bool {
  Bind::from_val(&Val::s("true"))
}
fn df_many_m17() -> bool {
  Bind::from_val(&Val::s("true"))
}
fn df_many_m23() -> bool {
  Bind::from_val(&Val::s("true"))
}
fn df_many_m29() -> bool {
  Bind::from_val(&Val::s("true"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct Buchar {
  #[cfg(not(any()))]
  pub e: char,
  pub o: Option<char>,
  /// A documented member
  pub v: Vec<char>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "re-named")]
  pub r: Option<char>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: char,
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(rename = "b.b",)]
  #[cfg(not(any()))]
  pub b: Option<char>,
}
impl Bind for Buchar {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Buchar { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum BuEchar {
  N,
  /// A documented variant
  V(char),
  O(Option<char>),
  W(Vec<char>),
  /// A documented variant
  M {
  x: char,
  /// A documented member
  #[yaserde(rename = "oo")]
  o: Option<char>,
  #[allow(unused)]
  #[doc(hidden)]
  v: Vec<char>,
  },
}
impl Bind for BuEchar {
  fn to_val(&self) -> Val {
    match self {
      BuEchar::N => Val::Var(0, None),
      BuEchar::V(x) => Val::var(1, x.to_val()),
      BuEchar::O(x) => Val::var(2, x.to_val()),
      BuEchar::W(x) => Val::var(3, x.to_val()),
      BuEchar::M { x: f0, o: f1, v: f2 } => Val::var(4, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val()])),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => BuEchar::N,
      Val::Var(1, Some(x)) => BuEchar::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => BuEchar::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => BuEchar::W(Bind::from_val(x)),
      Val::Var(4, Some(x)) => match &**x {
        Val::Struct(l) => BuEchar::M { x: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]) },
        x => panic!("bad value {:?}", x),
      },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for BuEchar {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct Buusize {
  /// A documented member
  pub e: usize,
  #[allow(unused)]
  #[doc(hidden)]
  pub o: Option<usize>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<usize>,
  #[yaserde(rename = "re-named")]
  #[cfg(not(any()))]
  pub r: Option<usize>,
  #[yaserde(attribute = true)]
  pub a: usize,
  /// A documented member
  #[yaserde(attribute = true, rename = "b.b")]
  pub b: Option<usize>,
}
impl Bind for Buusize {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Buusize { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum BuEusize {
  N,
  /// A documented variant
  V(usize),
  O(Option<usize>),
  W(Vec<usize>),
  /// A documented variant
  M {
  #[allow(unused)]
  #[doc(hidden)]
  x: usize,
  #[yaserde(rename = "oo")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  o: Option<usize>,
  #[cfg(not(any()))]
  v: Vec<usize>,
  },
}
impl Bind for BuEusize {
  fn to_val(&self) -> Val {
    match self {
      BuEusize::N => Val::Var(0, None),
      BuEusize::V(x) => Val::var(1, x.to_val()),
      BuEusize::O(x) => Val::var(2, x.to_val()),
      BuEusize::W(x) => Val::var(3, x.to_val()),
      BuEusize::M { x: f0, o: f1, v: f2 } => Val::var(4, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val()])),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => BuEusize::N,
      Val::Var(1, Some(x)) => BuEusize::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => BuEusize::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => BuEusize::W(Bind::from_val(x)),
      Val::Var(4, Some(x)) => match &**x {
        Val::Struct(l) => BuEusize::M { x: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]) },
        x => panic!("bad value {:?}", x),
      },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for BuEusize {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct Buisize {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: isize,
  #[cfg(not(any()))]
  pub o: Option<isize>,
  pub v: Vec<isize>,
  /// A documented member
  #[yaserde(rename = "re-named")]
  pub r: Option<isize>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: isize,
  #[yaserde(attribute = true, rename = "b.b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<isize>,
}
impl Bind for Buisize {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.o.to_val(), self.v.to_val(), self.r.to_val(), self.a.to_val(), self.b.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Buisize { e: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), r: Bind::from_val(&l[3]), a: Bind::from_val(&l[4]), b: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum BuEisize {
  N,
  /// A documented variant
  V(isize),
  O(Option<isize>),
  W(Vec<isize>),
  /// A documented variant
  M {
  #[cfg(not(any()))]
  x: isize,
  #[yaserde(rename = "oo")]
  o: Option<isize>,
  /// A documented member
  v: Vec<isize>,
  },
}
impl Bind for BuEisize {
  fn to_val(&self) -> Val {
    match self {
      BuEisize::N => Val::Var(0, None),
      BuEisize::V(x) => Val::var(1, x.to_val()),
      BuEisize::O(x) => Val::var(2, x.to_val()),
      BuEisize::W(x) => Val::var(3, x.to_val()),
      BuEisize::M { x: f0, o: f1, v: f2 } => Val::var(4, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val()])),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => BuEisize::N,
      Val::Var(1, Some(x)) => BuEisize::V(Bind::from_val(x)),
      Val::Var(2, Some(x)) => BuEisize::O(Bind::from_val(x)),
      Val::Var(3, Some(x)) => BuEisize::W(Bind::from_val(x)),
      Val::Var(4, Some(x)) => match &**x {
        Val::Struct(l) => BuEisize::M { x: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]) },
        x => panic!("bad value {:?}", x),
      },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for BuEisize {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct BuFlIn {
  #[allow(unused)]
  #[doc(hidden)]
  pub c: char,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<usize>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub i: Option<isize>,
}
impl Bind for BuFlIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.n.to_val(), self.i.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => BuFlIn { c: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), i: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct BuFl {
  pub a: u8,
  /// A documented member
  #[yaserde(flatten = true)]
  pub f: BuFlIn,
  #[allow(unused)]
  #[doc(hidden)]
  pub g: Option<BuFlIn>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: BuEchar,
  #[cfg(not(any()))]
  pub h: Vec<BuEusize>,
  #[yaserde(text = true)]
  pub t: String,
}
impl Bind for BuFl {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.f.to_val(), self.g.to_val(), self.e.to_val(), self.h.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => BuFl { a: Bind::from_val(&l[0]), f: Bind::from_val(&l[1]), g: Bind::from_val(&l[2]), e: Bind::from_val(&l[3]), h: Bind::from_val(&l[4]), t: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]
#[yaserde(rename = "root", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct BuNs {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub c: char,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub n: Vec<usize>,
  #[yaserde(prefix = "n")]
  pub l: Option<Leaf>,
  /// A documented member
  pub i: Option<isize>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_j")]
  pub j: isize,
  #[yaserde(rename = "x-y")] #[yaserde()] #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub k: char,
}
impl Bind for BuNs {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.c.to_val(), self.n.to_val(), self.l.to_val(), self.i.to_val(), self.j.to_val(), self.k.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => BuNs { c: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]), i: Bind::from_val(&l[3]), j: Bind::from_val(&l[4]), k: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl BuNs {
  fn p_j(&self, v: &isize) -> bool {
    pred("zero", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SimCase {
  /// A documented member
  pub a: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub A: Option<u8>,
  #[yaserde(attribute = true, rename = "a")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<u8>,
  #[yaserde(attribute = true,)] #[yaserde(rename = "A",)]
  #[cfg(not(any()))]
  pub c: Option<u8>,
}
impl Bind for SimCase {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.A.to_val(), self.b.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => SimCase { a: Bind::from_val(&l[0]), A: Bind::from_val(&l[1]), b: Bind::from_val(&l[2]), c: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SimLists {
  #[cfg(not(any()))]
  pub li: Vec<u8>,
  pub LI: Vec<u8>,
  /// A documented member
  #[yaserde(rename = "lI")]
  pub l: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "Li")]
  pub m: Vec<Leaf>,
}
impl Bind for SimLists {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.li.to_val(), self.LI.to_val(), self.l.to_val(), self.m.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => SimLists { li: Bind::from_val(&l[0]), LI: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]), m: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SimPunct {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "a.b")]
  pub x: Option<u8>,
  #[yaserde(rename = "a-b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub y: Option<u8>,
  #[cfg(not(any()))]
  pub a_b: Option<u8>,
  pub aB: Option<u8>,
  /// A documented member
  pub ab: Option<u8>,
}
impl Bind for SimPunct {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.a_b.to_val(), self.aB.to_val(), self.ab.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SimPunct { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]), a_b: Bind::from_val(&l[2]), aB: Bind::from_val(&l[3]), ab: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "n", namespaces = { "n" = "urn:n" })]
pub struct SimNs {
  #[yaserde(prefix = "n")]
  pub a_b: Option<u8>,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub aB: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "a-b")]
  pub n_a: Option<u8>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<u8>,
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub A: Option<u8>,
}
impl Bind for SimNs {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a_b.to_val(), self.aB.to_val(), self.n_a.to_val(), self.a.to_val(), self.A.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SimNs { a_b: Bind::from_val(&l[0]), aB: Bind::from_val(&l[1]), n_a: Bind::from_val(&l[2]), a: Bind::from_val(&l[3]), A: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum SimE {
  a,
  /// A documented variant
  A,
  a_b(u8),
  aB(u8),
  /// A documented variant
  #[yaserde(rename = "a.b")]
  x(Leaf),
  #[yaserde(rename = "a-b")]
  y(Leaf),
}
impl Bind for SimE {
  fn to_val(&self) -> Val {
    match self {
      SimE::a => Val::Var(0, None),
      SimE::A => Val::Var(1, None),
      SimE::a_b(x) => Val::var(2, x.to_val()),
      SimE::aB(x) => Val::var(3, x.to_val()),
      SimE::x(x) => Val::var(4, x.to_val()),
      SimE::y(x) => Val::var(5, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => SimE::a,
      Val::Var(1, None) => SimE::A,
      Val::Var(2, Some(x)) => SimE::a_b(Bind::from_val(x)),
      Val::Var(3, Some(x)) => SimE::aB(Bind::from_val(x)),
      Val::Var(4, Some(x)) => SimE::x(Bind::from_val(x)),
      Val::Var(5, Some(x)) => SimE::y(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for SimE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct SimUse {
  /// A documented member
  pub e: SimE,
  #[allow(unused)]
  #[doc(hidden)]
  pub E: Option<SimE>,
  #[yaserde(rename = "_")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: Vec<SimE>,
  #[yaserde(rename = "S")]
  #[cfg(not(any()))]
  pub s: SimPunct,
  #[yaserde(rename = "s")]
  pub S: SimCase,
}
impl Bind for SimUse {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.e.to_val(), self.E.to_val(), self.f.to_val(), self.s.to_val(), self.S.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => SimUse { e: Bind::from_val(&l[0]), E: Bind::from_val(&l[1]), f: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), S: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "geni")]
pub struct GenI<T: YaSerialize + YaDeserialize = Leaf, const N: usize = 3> {
  #[cfg(not(any()))]
  pub a: T,
  pub b: Vec<T>,
  /// A documented member
  pub c: Option<T>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub n: u8,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub t: String,
}
impl<T: YaSerialize + YaDeserialize + Bind, const N: usize> Bind for GenI<T, N> {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.n.to_val(), self.t.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 5 => GenI { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), n: Bind::from_val(&l[3]), t: Bind::from_val(&l[4]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct GenIUse {
  pub p: GenI<Leaf, 3>,
  /// A documented member
  pub q: Option<GenI<UnitE, 7>>,
  #[allow(unused)]
  #[doc(hidden)]
  pub r: Vec<GenI<Leaf, 3>>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub f: FlIn,
}
impl Bind for GenIUse {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.p.to_val(), self.q.to_val(), self.r.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => GenIUse { p: Bind::from_val(&l[0]), q: Bind::from_val(&l[1]), r: Bind::from_val(&l[2]), f: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]
#[yaserde(rename = "genb")]
pub struct GenB<T>
where
  T: YaSerialize,
{
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: T,
  #[cfg(not(any()))]
  pub o: Option<T>,
  pub l: Vec<T>,
  /// A documented member
  pub w: Option<Leaf>,
}
impl<T: YaSerialize + Bind> Bind for GenB<T> {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.v.to_val(), self.o.to_val(), self.l.to_val(), self.w.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => GenB { v: Bind::from_val(&l[0]), o: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]), w: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct GenBUse {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: GenB<u32>,
  #[cfg(not(any()))]
  pub b: Vec<GenB<char>>,
  pub c: Option<GenB<LeafAT>>,
}
impl Bind for GenBUse {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => GenBUse { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum NamedO {
  U,
  /// A documented variant
  A {
  #[cfg(not(any()))]
  a: Option<u8>,
  #[yaserde(rename = "b-b")]
  b: Option<String>,
  /// A documented member
  v: Vec<u16>,
  #[allow(unused)]
  #[doc(hidden)]
  w: Vec<bool>,
  },
  #[yaserde(rename = "bb")]
  B {
  #[allow(unused)]
  #[doc(hidden)]
  l: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  v: Vec<i64>,
  #[cfg(not(any()))]
  e: Option<UnitE>,
  c: Option<f64>,
  /// A documented member
  p: Option<PrimI>,
  },
}
impl Bind for NamedO {
  fn to_val(&self) -> Val {
    match self {
      NamedO::U => Val::Var(0, None),
      NamedO::A { a: f0, b: f1, v: f2, w: f3 } => Val::var(1, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val(), f3.to_val()])),
      NamedO::B { l: f0, v: f1, e: f2, c: f3, p: f4 } => Val::var(2, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val(), f3.to_val(), f4.to_val()])),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NamedO::U,
      Val::Var(1, Some(x)) => match &**x {
        Val::Struct(l) => NamedO::A { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), v: Bind::from_val(&l[2]), w: Bind::from_val(&l[3]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(2, Some(x)) => match &**x {
        Val::Struct(l) => NamedO::B { l: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), e: Bind::from_val(&l[2]), c: Bind::from_val(&l[3]), p: Bind::from_val(&l[4]) },
        x => panic!("bad value {:?}", x),
      },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NamedO {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]
#[yaserde(rename = "nvo", prefix = "n", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub enum NamedON {
  A {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  a: Option<String>,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  b: Option<NsLeaf>,
  #[yaserde(prefix = "m")]
  c: Vec<u8>,
  /// A documented member
  d: Option<u8>,
  },
  /// A documented variant
  B,
}
impl Bind for NamedON {
  fn to_val(&self) -> Val {
    match self {
      NamedON::A { a: f0, b: f1, c: f2, d: f3 } => Val::var(0, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val(), f3.to_val()])),
      NamedON::B => Val::Var(1, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => match &**x {
        Val::Struct(l) => NamedON::A { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(1, None) => NamedON::B,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NamedON {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct NamedOIn {
  /// A documented member
  pub a: NamedO,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<NamedON>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub c: Vec<NamedO>,
  #[cfg(not(any()))]
  pub d: Option<u8>,
}
impl Bind for NamedOIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => NamedOIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum NamedV {
  U,
  /// A documented variant
  A {
  #[allow(unused)]
  #[doc(hidden)]
  a: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  b: u8,
  },
  B {
  l: Leaf,
  /// A documented member
  v: Vec<LeafA>,
  #[allow(unused)]
  #[doc(hidden)]
  w: bool,
  },
  #[yaserde(rename = "cc")]
  C {
  #[yaserde(rename = "x-y")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  n: i64,
  #[yaserde(rename = "mm")]
  #[cfg(not(any()))]
  m: UnitE,
  },
  /// A documented variant
  D {
  /// A documented member
  reader: String,
  #[allow(unused)]
  #[doc(hidden)]
  item: f64,
  },
}
impl Bind for NamedV {
  fn to_val(&self) -> Val {
    match self {
      NamedV::U => Val::Var(0, None),
      NamedV::A { a: f0, b: f1 } => Val::var(1, Val::Struct(vec![f0.to_val(), f1.to_val()])),
      NamedV::B { l: f0, v: f1, w: f2 } => Val::var(2, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val()])),
      NamedV::C { n: f0, m: f1 } => Val::var(3, Val::Struct(vec![f0.to_val(), f1.to_val()])),
      NamedV::D { reader: f0, item: f1 } => Val::var(4, Val::Struct(vec![f0.to_val(), f1.to_val()])),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NamedV::U,
      Val::Var(1, Some(x)) => match &**x {
        Val::Struct(l) => NamedV::A { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(2, Some(x)) => match &**x {
        Val::Struct(l) => NamedV::B { l: Bind::from_val(&l[0]), v: Bind::from_val(&l[1]), w: Bind::from_val(&l[2]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(3, Some(x)) => match &**x {
        Val::Struct(l) => NamedV::C { n: Bind::from_val(&l[0]), m: Bind::from_val(&l[1]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(4, Some(x)) => match &**x {
        Val::Struct(l) => NamedV::D { reader: Bind::from_val(&l[0]), item: Bind::from_val(&l[1]) },
        x => panic!("bad value {:?}", x),
      },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NamedV {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]
#[yaserde(rename = "nv")] #[allow(unused)] #[yaserde(prefix = "n")] #[allow(unused)] #[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub enum NamedN {
  A {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  a: String,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  b: NsLeaf,
  },
  /// A documented variant
  B,
}
impl Bind for NamedN {
  fn to_val(&self) -> Val {
    match self {
      NamedN::A { a: f0, b: f1 } => Val::var(0, Val::Struct(vec![f0.to_val(), f1.to_val()])),
      NamedN::B => Val::Var(1, None),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => match &**x {
        Val::Struct(l) => NamedN::A { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(1, None) => NamedN::B,
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NamedN {
  fn default() -> Self {
    Bind::from_val(&Val::Var(1, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub enum NamedW {
  U,
  /// A documented variant
  A {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  i: Vec<Deep1>,
  #[cfg(not(any()))]
  n: Vec<NewE>,
  f: Vec<FlA>,
  /// A documented member
  o: Option<Deep2>,
  #[allow(unused)]
  #[doc(hidden)]
  r: Vec<PrimI>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  t: Vec<Tagged>,
  #[cfg(not(any()))]
  s: Deep3,
  },
  B {
  /// A documented member
  x: Option<EnNest>,
  #[allow(unused)]
  #[doc(hidden)]
  y: Vec<LeafAT>,
  },
}
impl Bind for NamedW {
  fn to_val(&self) -> Val {
    match self {
      NamedW::U => Val::Var(0, None),
      NamedW::A { i: f0, n: f1, f: f2, o: f3, r: f4, t: f5, s: f6 } => Val::var(1, Val::Struct(vec![f0.to_val(), f1.to_val(), f2.to_val(), f3.to_val(), f4.to_val(), f5.to_val(), f6.to_val()])),
      NamedW::B { x: f0, y: f1 } => Val::var(2, Val::Struct(vec![f0.to_val(), f1.to_val()])),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => NamedW::U,
      Val::Var(1, Some(x)) => match &**x {
        Val::Struct(l) => NamedW::A { i: Bind::from_val(&l[0]), n: Bind::from_val(&l[1]), f: Bind::from_val(&l[2]), o: Bind::from_val(&l[3]), r: Bind::from_val(&l[4]), t: Bind::from_val(&l[5]), s: Bind::from_val(&l[6]) },
        x => panic!("bad value {:?}", x),
      },
      Val::Var(2, Some(x)) => match &**x {
        Val::Struct(l) => NamedW::B { x: Bind::from_val(&l[0]), y: Bind::from_val(&l[1]) },
        x => panic!("bad value {:?}", x),
      },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for NamedW {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct NamedWIn {
  #[cfg(not(any()))]
  pub a: Vec<NamedW>,
  pub b: Option<NamedW>,
  /// A documented member
  pub c: Deep3,
}
impl Bind for NamedWIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => NamedWIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize)]

pub struct NamedIn {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: NamedV,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<NamedV>,
  #[cfg(not(any()))]
  pub c: Vec<NamedV>,
  pub d: Option<u8>,
}
impl Bind for NamedIn {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 4 => NamedIn { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), c: Bind::from_val(&l[2]), d: Bind::from_val(&l[3]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
pub mod alias_alias {
  use super::*;
  #[allow(dead_code)]
  type Result<T> = std::result::Result<T, ()>;
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Alias {
  pub k: String,
  /// A documented member
  #[yaserde(attribute = true)]
  pub m: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub l: Vec<Leaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub e: Option<NewE>,
  #[yaserde(default = "df_alias_d")]
  #[cfg(not(any()))]
  pub d: u8,
  #[yaserde(flatten = true)]
  pub f: FlIn,
}
}
pub use alias_alias::Alias;
impl Bind for Alias {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.k.to_val(), self.m.to_val(), self.l.to_val(), self.e.to_val(), self.d.to_val(), self.f.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Alias { k: Bind::from_val(&l[0]), m: Bind::from_val(&l[1]), l: Bind::from_val(&l[2]), e: Bind::from_val(&l[3]), d: Bind::from_val(&l[4]), f: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_alias_d() -> u8 {
  Bind::from_val(&Val::s("2"))
}
pub mod alias_aliase {
  use super::*;
  #[allow(dead_code)]
  type Result<T> = std::result::Result<T, ()>;
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub enum AliasE {
  A,
  /// A documented variant
  B(String),
  C(Vec<Leaf>),
  D(Option<u8>),
  /// A documented variant
  E(Leaf),
}
}
pub use alias_aliase::AliasE;
impl Bind for AliasE {
  fn to_val(&self) -> Val {
    match self {
      AliasE::A => Val::Var(0, None),
      AliasE::B(x) => Val::var(1, x.to_val()),
      AliasE::C(x) => Val::var(2, x.to_val()),
      AliasE::D(x) => Val::var(3, x.to_val()),
      AliasE::E(x) => Val::var(4, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, None) => AliasE::A,
      Val::Var(1, Some(x)) => AliasE::B(Bind::from_val(x)),
      Val::Var(2, Some(x)) => AliasE::C(Bind::from_val(x)),
      Val::Var(3, Some(x)) => AliasE::D(Bind::from_val(x)),
      Val::Var(4, Some(x)) => AliasE::E(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for AliasE {
  fn default() -> Self {
    Bind::from_val(&Val::Var(0, None))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PrF {
  /// A documented member
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub pc: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pl: Option<Leaf>,
}
impl Bind for PrF {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.pi.to_val(), self.pc.to_val(), self.pl.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => PrF { pi: Bind::from_val(&l[0]), pc: Bind::from_val(&l[1]), pl: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PrG {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub qi: u32,
  pub qc: Vec<String>,
  /// A documented member
  pub qs: Option<LeafA>,
}
impl Bind for PrG {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.qi.to_val(), self.qc.to_val(), self.qs.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => PrG { qi: Bind::from_val(&l[0]), qc: Bind::from_val(&l[1]), qs: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct PrO {
  #[allow(unused)]
  #[doc(hidden)]
  pub oa: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub ob: Option<u32>,
  #[cfg(not(any()))]
  pub oc: Option<Two>,
}
impl Bind for PrO {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.oa.to_val(), self.ob.to_val(), self.oc.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 3 => PrO { oa: Bind::from_val(&l[0]), ob: Bind::from_val(&l[1]), oc: Bind::from_val(&l[2]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub enum PrE {
  Ea(LeafA),
  /// A documented variant
  Ed(Leaf),
  Ex(LeafAT),
}
impl Bind for PrE {
  fn to_val(&self) -> Val {
    match self {
      PrE::Ea(x) => Val::var(0, x.to_val()),
      PrE::Ed(x) => Val::var(1, x.to_val()),
      PrE::Ex(x) => Val::var(2, x.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Var(0, Some(x)) => PrE::Ea(Bind::from_val(x)),
      Val::Var(1, Some(x)) => PrE::Ed(Bind::from_val(x)),
      Val::Var(2, Some(x)) => PrE::Ex(Bind::from_val(x)),
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Default for PrE {
  fn default() -> Self {
    Bind::from_val(&Val::var(1, Val::Struct(vec![Val::s("a")])))
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr0 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[cfg(not(any()))]
  pub b: Option<i32>,
  pub n: Option<String>,
  /// A documented member
  pub s: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: i64,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: String,
}
impl Bind for Pr0 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr0 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr1 {
  /// A documented member
  pub a: i64,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Leaf,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<u8>,
  #[cfg(not(any()))]
  pub s: Vec<String>,
  pub x: Option<Tagged>,
  /// A documented member
  pub v: i64,
}
impl Bind for Pr1 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr1 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr2 {
  #[cfg(not(any()))]
  pub a: Option<LeafA>,
  pub b: i64,
  /// A documented member
  pub n: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<i32>,
  #[yaserde(default = "df_pr2_v")]
  #[cfg(not(any()))]
  pub v: u32,
}
impl Bind for Pr2 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr2 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr2_v() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr3 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<i32>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<Two>,
  #[cfg(not(any()))]
  pub n: Vec<String>,
  pub s: Vec<u8>,
  /// A documented member
  pub x: Leaf,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Option<i32>,
}
impl Bind for Pr3 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr3 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr4 {
  pub a: Vec<String>,
  /// A documented member
  pub b: Deep2,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<LeafA>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub x: String,
  pub v: Vec<String>,
}
impl Bind for Pr4 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr4 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr5 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<LeafA>,
  #[cfg(not(any()))]
  pub b: Vec<u8>,
  pub n: String,
  /// A documented member
  pub s: Deep2,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Vec<Two>,
  #[yaserde(skip_serializing_if = "p_v")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<Leaf>,
}
impl Bind for Pr5 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr5 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr5 {
  fn p_v(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr6 {
  /// A documented member
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Vec<Two>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: i64,
  #[cfg(not(any()))]
  pub s: Vec<UnitE>,
  pub x: Option<LeafA>,
  /// A documented member
  #[yaserde(rename = "r-v")]
  pub v: Option<ANode>,
}
impl Bind for Pr6 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr6 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr7 {
  #[cfg(not(any()))]
  pub a: NewE,
  #[yaserde(rename = "r-b")]
  pub b: Option<ANode>,
  /// A documented member
  pub n: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Option<Tagged>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<u8>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub v: String,
}
impl Bind for Pr7 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr7 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr8 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Leaf,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: String,
  #[yaserde(rename = "r-n")]
  #[cfg(not(any()))]
  pub n: Option<ANode>,
  #[yaserde(attribute = true)]
  pub s: PrimI,
  /// A documented member
  pub x: NewE,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Leaf,
}
impl Bind for Pr8 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr8 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr9 {
  pub a: Option<UnitE>,
  /// A documented member
  pub b: Vec<Two>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: String,
  #[yaserde(attribute = true, rename = "u.s")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<UnitE>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub x: PrG,
  pub v: Option<UnitE>,
}
impl Bind for Pr9 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr9 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr9")]
pub struct Pr9Tw {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<UnitE>,
  #[cfg(not(any()))]
  pub b: Vec<Two>,
  pub n: String,
  /// A documented member
  #[yaserde(attribute = true, rename = "u.s")]
  pub s: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub qi: u32,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qc: Vec<String>,
  #[cfg(not(any()))]
  pub qs: Option<LeafA>,
  pub v: Option<UnitE>,
}
impl Bind for Pr9Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr9Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), qi: Bind::from_val(&l[4]), qc: Bind::from_val(&l[5]), qs: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr10 {
  /// A documented member
  pub a: NewE,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub b: PrG,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: i64,
  #[cfg(not(any()))]
  pub s: Vec<Two>,
  pub x: Deep2,
  /// A documented member
  pub v: NewE,
}
impl Bind for Pr10 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr10 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr10")]
pub struct Pr10Tw {
  #[cfg(not(any()))]
  pub a: NewE,
  #[yaserde(attribute = true)]
  pub qi: u32,
  /// A documented member
  pub qc: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub qs: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: i64,
  #[cfg(not(any()))]
  pub s: Vec<Two>,
  pub x: Deep2,
  /// A documented member
  pub v: NewE,
}
impl Bind for Pr10Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr10Tw { a: Bind::from_val(&l[0]), qi: Bind::from_val(&l[1]), qc: Bind::from_val(&l[2]), qs: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr11 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<Tagged>,
  #[cfg(not(any()))]
  pub n: Vec<String>,
  pub s: Vec<UnitE>,
  /// A documented member
  pub x: Vec<Two>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Option<String>,
}
impl Bind for Pr11 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr11 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr12 {
  pub a: Vec<UnitE>,
  /// A documented member
  pub b: Option<Hex8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: String,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<PrO>,
  #[cfg(not(any()))]
  pub x: PrimI,
  pub v: Vec<UnitE>,
}
impl Bind for Pr12 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr12 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr13 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<UnitE>,
  #[cfg(not(any()))]
  pub b: NewE,
  pub n: Option<i32>,
  /// A documented member
  pub s: Option<LeafA>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Vec<UnitE>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: PrE,
}
impl Bind for Pr13 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr13 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr14 {
  /// A documented member
  pub a: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<Tagged>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: String,
  #[cfg(not(any()))]
  pub s: Option<Hex8>,
  #[yaserde(flatten = true)]
  pub x: PrE,
  /// A documented member
  #[yaserde(attribute = true,)] #[yaserde()] #[yaserde(default = "df_pr14_v",)]
  pub v: i16,
}
impl Bind for Pr14 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr14 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr14_v() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr15 {
  #[cfg(not(any()))]
  pub a: bool,
  pub b: Option<UnitE>,
  /// A documented member
  #[yaserde(rename = "r-n")]
  pub n: Option<ANode>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_s")]
  pub s: Vec<Leaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<String>,
  #[cfg(not(any()))]
  pub v: bool,
}
impl Bind for Pr15 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr15 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr15 {
  fn p_s(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr16 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Vec<PrimS>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<UnitE>,
  #[cfg(not(any()))]
  pub n: Option<UnitE>,
  pub s: Deep2,
  /// A documented member
  pub x: i64,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Vec<PrimS>,
}
impl Bind for Pr16 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr16 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr17 {
  #[yaserde(attribute = true)]
  pub a: Option<u8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub b: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Vec<PrimS>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub x: Option<String>,
  #[yaserde(attribute = true)]
  pub v: Option<u8>,
}
impl Bind for Pr17 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr17 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr18 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Deep2,
  #[cfg(not(any()))]
  pub b: Vec<u8>,
  pub n: Option<String>,
  /// A documented member
  #[yaserde(rename = "r-s")]
  pub s: Option<ANode>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<UnitE>,
  #[yaserde(attribute = true, skip_serializing_if = "p_v", default = "df_pr18_v")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: u32,
}
impl Bind for Pr18 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr18 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr18 {
  fn p_v(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr18_v() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr19 {
  /// A documented member
  #[yaserde(attribute = true, rename = "u.a")]
  pub a: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub b: PrimI,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<Leaf>,
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub s: Option<String>,
  pub x: String,
  /// A documented member
  pub v: Vec<PrimS>,
}
impl Bind for Pr19 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr19 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr20 {
  #[cfg(not(any()))]
  pub a: Vec<PrimS>,
  pub b: Option<Tagged>,
  /// A documented member
  pub n: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: PrimI,
  #[cfg(not(any()))]
  pub v: Leaf,
}
impl Bind for Pr20 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr20 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr21 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub a: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: PrimI,
  #[cfg(not(any()))]
  pub n: i64,
  pub s: Option<Hex8>,
  /// A documented member
  #[yaserde(attribute = true)] #[yaserde(rename = "u.x")]
  pub x: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub v: String,
}
impl Bind for Pr21 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr21 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr22 {
  pub a: Vec<u8>,
  /// A documented member
  pub b: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: bool,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Vec<PrimS>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub x: Vec<u8>,
  pub v: Vec<u8>,
}
impl Bind for Pr22 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr22 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr23 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: PrimI,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub b: String,
  #[yaserde(rename = "r-n")]
  pub n: Option<ANode>,
  /// A documented member
  pub s: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Deep2,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: PrimI,
}
impl Bind for Pr23 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr23 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr24 {
  /// A documented member
  #[yaserde(cdata = true)]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub b: PrG,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: String,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub s: Option<String>,
  #[yaserde(flatten = true)]
  pub x: PrF,
  /// A documented member
  #[yaserde(cdata = true)]
  pub v: String,
}
impl Bind for Pr24 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr24 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr24")]
pub struct Pr24Tw {
  #[yaserde(cdata = true)]
  #[cfg(not(any()))]
  pub a: String,
  #[yaserde(attribute = true)]
  pub qi: u32,
  /// A documented member
  pub qc: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub qs: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: String,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub s: Option<String>,
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  pub pc: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub pl: Option<Leaf>,
  #[yaserde(cdata = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: String,
}
impl Bind for Pr24Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.n.to_val(), self.s.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 10 => Pr24Tw { a: Bind::from_val(&l[0]), qi: Bind::from_val(&l[1]), qc: Bind::from_val(&l[2]), qs: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), pi: Bind::from_val(&l[6]), pc: Bind::from_val(&l[7]), pl: Bind::from_val(&l[8]), v: Bind::from_val(&l[9]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr25 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_pr25_a")]
  pub a: u32,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<PrO>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub n: PrF,
  #[yaserde(text = true)]
  pub s: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub x: PrE,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: String,
}
impl Bind for Pr25 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr25 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr25_a() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr25")]
pub struct Pr25Tw {
  #[yaserde(default = "df_pr25tw_a")]
  pub a: u32,
  /// A documented member
  #[yaserde(flatten = true)]
  pub b: Option<PrO>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  #[yaserde(text = true)]
  pub s: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub x: PrE,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: String,
}
impl Bind for Pr25Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr25Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), pi: Bind::from_val(&l[2]), pc: Bind::from_val(&l[3]), pl: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr25tw_a() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr26 {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<u8>,
  #[cfg(not(any()))]
  pub b: PrimI,
  pub n: NewE,
  /// A documented member
  #[yaserde(attribute = true)]
  pub s: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Vec<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<UnitE>,
}
impl Bind for Pr26 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr26 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr27 {
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<Hex8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<Two>,
  #[yaserde(default = "df_pr27_s")]
  #[cfg(not(any()))]
  pub s: u32,
  pub x: bool,
  /// A documented member
  pub v: Option<Tagged>,
}
impl Bind for Pr27 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr27 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr27_s() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr28 {
  #[cfg(not(any()))]
  pub a: Option<String>,
  pub b: Vec<u8>,
  /// A documented member
  pub n: Option<LeafA>,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: NewE,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<PrO>,
  #[cfg(not(any()))]
  pub v: Option<Hex8>,
}
impl Bind for Pr28 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr28 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr29 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_a", default = "df_pr29_a")]
  pub a: String,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<String>,
  #[yaserde(attribute = true, default = "df_pr29_n")]
  #[cfg(not(any()))]
  pub n: i16,
  pub s: String,
  /// A documented member
  #[yaserde(default = "df_pr29_x")]
  pub x: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_v",)] #[allow(unused)] #[yaserde(default = "df_pr29_v",)]
  pub v: String,
}
impl Bind for Pr29 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr29 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr29 {
  fn p_a(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_v(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr29_a() -> String {
  Bind::from_val(&Val::s(""))
}
fn df_pr29_n() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
fn df_pr29_x() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_pr29_v() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr30 {
  pub a: Deep2,
  /// A documented member
  pub b: Option<Tagged>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub n: Option<u8>,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Vec<Leaf>,
  #[cfg(not(any()))]
  pub x: Option<i32>,
  pub v: Deep2,
}
impl Bind for Pr30 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr30 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr31 {
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[cfg(not(any()))]
  pub b: Leaf,
  #[yaserde(attribute = true)]
  pub n: Vec<u8>,
  /// A documented member
  pub s: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Vec<Two>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: String,
}
impl Bind for Pr31 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr31 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr32 {
  /// A documented member
  pub a: i64,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<UnitE>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: PrimI,
  #[cfg(not(any()))]
  pub s: PrimI,
  #[yaserde(attribute = true)]
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_v", default = "df_pr32_v")]
  pub v: String,
}
impl Bind for Pr32 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr32 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr32 {
  fn p_v(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr32_v() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr33 {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: String,
  pub b: bool,
  /// A documented member
  #[yaserde(cdata = true)]
  pub n: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Deep2,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: String,
  #[cfg(not(any()))]
  pub v: Vec<UnitE>,
}
impl Bind for Pr33 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr33 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr34 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "u.a")]
  pub a: Option<UnitE>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<Hex8>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub n: Option<u8>,
  pub s: i64,
  /// A documented member
  #[yaserde(text = true)]
  pub x: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub v: String,
}
impl Bind for Pr34 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr34 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr35 {
  #[yaserde(skip_serializing_if = "p_a")] #[yaserde()] #[yaserde(default = "df_pr35_a")]
  pub a: String,
  /// A documented member
  pub b: Vec<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: NewE,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: bool,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub x: Option<u8>,
  #[yaserde(attribute = true, rename = "u.v")]
  pub v: Option<UnitE>,
}
impl Bind for Pr35 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr35 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr35 {
  fn p_a(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr35_a() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr36 {
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub b: String,
  pub n: Leaf,
  /// A documented member
  pub s: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<LeafA>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: PrG,
}
impl Bind for Pr36 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr36 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr36")]
pub struct Pr36Tw {
  /// A documented member
  #[yaserde(text = true)]
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub b: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Leaf,
  #[cfg(not(any()))]
  pub s: PrimI,
  pub x: Option<LeafA>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub qi: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub qc: Vec<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qs: Option<LeafA>,
}
impl Bind for Pr36Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr36Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), qi: Bind::from_val(&l[5]), qc: Bind::from_val(&l[6]), qs: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr37 {
  #[yaserde(attribute = true, default = "df_pr37_a")]
  #[cfg(not(any()))]
  pub a: i16,
  #[yaserde(text = true)]
  pub b: Option<String>,
  /// A documented member
  pub n: i64,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true,)] #[yaserde(skip_serializing_if = "p_s",)] #[yaserde(default = "df_pr37_s",)]
  pub s: u32,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: PrE,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub v: Option<PrO>,
}
impl Bind for Pr37 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr37 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr37 {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr37_a() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
fn df_pr37_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr38 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Leaf,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<PrimS>,
  #[cfg(not(any()))]
  pub n: Option<String>,
  #[yaserde(text = true)]
  pub s: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub x: PrF,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "u.v")]
  pub v: Option<UnitE>,
}
impl Bind for Pr38 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr38 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr38")]
pub struct Pr38Tw {
  pub a: Leaf,
  /// A documented member
  pub b: Vec<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<String>,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub pi: Option<u8>,
  pub pc: String,
  /// A documented member
  pub pl: Option<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "u.v")]
  pub v: Option<UnitE>,
}
impl Bind for Pr38Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr38Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), pi: Bind::from_val(&l[4]), pc: Bind::from_val(&l[5]), pl: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr39 {
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: PrF,
  #[cfg(not(any()))]
  pub b: PrimI,
  #[yaserde(flatten = true)]
  pub n: Option<PrO>,
  /// A documented member
  #[yaserde(default = "df_pr39_s")]
  pub s: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: i64,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<String>,
}
impl Bind for Pr39 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr39 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr39_s() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr39")]
pub struct Pr39Tw {
  /// A documented member
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub pc: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pl: Option<Leaf>,
  #[cfg(not(any()))]
  pub b: PrimI,
  #[yaserde(flatten = true)]
  pub n: Option<PrO>,
  /// A documented member
  #[yaserde(default = "df_pr39tw_s")]
  pub s: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: i64,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<String>,
}
impl Bind for Pr39Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr39Tw { pi: Bind::from_val(&l[0]), pc: Bind::from_val(&l[1]), pl: Bind::from_val(&l[2]), b: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr39tw_s() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr40 {
  #[cfg(not(any()))]
  pub a: Option<Hex8>,
  #[yaserde(rename = "r-b")]
  pub b: Option<ANode>,
  /// A documented member
  pub n: Option<i32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub s: Vec<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<PrimS>,
  #[cfg(not(any()))]
  pub v: Option<Hex8>,
}
impl Bind for Pr40 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr40 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr41 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<Hex8>,
  #[yaserde(skip_serializing_if = "p_b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<Leaf>,
  #[cfg(not(any()))]
  pub n: Option<UnitE>,
  pub s: Option<String>,
  /// A documented member
  pub x: Leaf,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub v: Option<String>,
}
impl Bind for Pr41 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr41 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr41 {
  fn p_b(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr42 {
  pub a: Deep2,
  /// A documented member
  pub b: bool,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<Hex8>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: PrimI,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub x: PrF,
  #[yaserde(flatten = true)]
  pub v: PrG,
}
impl Bind for Pr42 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr42 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr42")]
pub struct Pr42Tw {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Deep2,
  #[cfg(not(any()))]
  pub b: bool,
  pub n: Option<Hex8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub s: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  #[yaserde(attribute = true)]
  pub qi: u32,
  /// A documented member
  pub qc: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub qs: Option<LeafA>,
}
impl Bind for Pr42Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 10 => Pr42Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), pi: Bind::from_val(&l[4]), pc: Bind::from_val(&l[5]), pl: Bind::from_val(&l[6]), qi: Bind::from_val(&l[7]), qc: Bind::from_val(&l[8]), qs: Bind::from_val(&l[9]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr43 {
  /// A documented member
  #[yaserde(cdata = true)]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: bool,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Option<String>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub s: Option<PrO>,
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(default = "df_pr43_x")]
  pub x: i16,
  /// A documented member
  pub v: NewE,
}
impl Bind for Pr43 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr43 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr43_x() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr44 {
  #[yaserde(attribute = true, rename = "u.a")]
  #[cfg(not(any()))]
  pub a: Option<UnitE>,
  #[yaserde(text = true)]
  pub b: Option<String>,
  /// A documented member
  pub n: Option<i32>,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Option<Tagged>,
  #[yaserde(rename = "r-x")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<ANode>,
  #[yaserde(attribute = true, rename = "u.v")]
  #[cfg(not(any()))]
  pub v: Option<UnitE>,
}
impl Bind for Pr44 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr44 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr45 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub a: PrE,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: NewE,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub n: Option<String>,
  pub s: Option<String>,
  /// A documented member
  pub x: Vec<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_v")]
  pub v: Vec<Leaf>,
}
impl Bind for Pr45 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr45 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr45 {
  fn p_v(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr46 {
  #[yaserde(skip_serializing_if = "p_a",)] #[yaserde()] #[yaserde(default = "df_pr46_a",)]
  pub a: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub b: PrE,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub n: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<LeafA>,
  #[cfg(not(any()))]
  pub x: Option<Tagged>,
  pub v: Option<UnitE>,
}
impl Bind for Pr46 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr46 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr46 {
  fn p_a(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr46_a() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr47 {
  #[yaserde(attribute = true, skip_serializing_if = "p_a", default = "df_pr47_a")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: u32,
  #[cfg(not(any()))]
  pub b: Vec<PrimS>,
  pub n: Vec<String>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub s: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "r-x")]
  pub x: Option<ANode>,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<String>,
}
impl Bind for Pr47 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr47 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr47 {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr47_a() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr48 {
  /// A documented member
  pub a: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub b: String,
  #[yaserde(default = "df_pr48_n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: u32,
  #[cfg(not(any()))]
  pub s: Option<Hex8>,
  pub x: Vec<u8>,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub v: Vec<Leaf>,
}
impl Bind for Pr48 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr48 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr48_n() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr49 {
  #[cfg(not(any()))]
  pub a: Option<i32>,
  #[yaserde(prefix = "m")]
  pub b: Vec<Leaf>,
  /// A documented member
  pub n: NewE,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub s: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: PrimI,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub v: String,
}
impl Bind for Pr49 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr49 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr50 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub a: PrE,
  #[yaserde(attribute = true, skip_serializing_if = "p_b", default = "df_pr50_b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: u32,
  #[yaserde(skip_serializing_if = "p_n")] #[yaserde(default = "df_pr50_n")]
  #[cfg(not(any()))]
  pub n: String,
  pub s: i64,
  /// A documented member
  #[yaserde(attribute = true)]
  pub x: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub v: PrG,
}
impl Bind for Pr50 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr50 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr50 {
  fn p_b(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_n(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr50_b() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr50_n() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr51 {
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
  /// A documented member
  #[yaserde(flatten = true)]
  pub b: PrG,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<String>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub x: Vec<Leaf>,
  #[yaserde(flatten = true)]
  pub v: PrE,
}
impl Bind for Pr51 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr51 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr51", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr51Tw {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub qi: u32,
  pub qc: Vec<String>,
  /// A documented member
  pub qs: Option<LeafA>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<String>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub x: Vec<Leaf>,
  #[yaserde(flatten = true)]
  pub v: PrE,
}
impl Bind for Pr51Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr51Tw { a: Bind::from_val(&l[0]), qi: Bind::from_val(&l[1]), qc: Bind::from_val(&l[2]), qs: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr52 {
  /// A documented member
  #[yaserde(skip_serializing_if = "p_a", default = "df_pr52_a")]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub b: Option<PrO>,
  #[yaserde(cdata = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: String,
  #[cfg(not(any()))]
  pub s: Vec<PrimS>,
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_x",)] #[allow(unused)] #[yaserde(default = "df_pr52_x",)]
  pub x: u32,
  /// A documented member
  pub v: Option<i32>,
}
impl Bind for Pr52 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr52 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr52 {
  fn p_a(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_x(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr52_a() -> String {
  Bind::from_val(&Val::s(""))
}
fn df_pr52_x() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr53 {
  #[yaserde(skip_serializing_if = "p_a")]
  #[cfg(not(any()))]
  pub a: Vec<Leaf>,
  #[yaserde(text = true)]
  pub b: String,
  /// A documented member
  pub n: i64,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_pr53_s")]
  pub s: i16,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<String>,
  #[yaserde(skip_serializing_if = "p_v")]
  #[cfg(not(any()))]
  pub v: Vec<Leaf>,
}
impl Bind for Pr53 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr53 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr53 {
  fn p_a(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_v(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr53_s() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr54 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<i32>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<String>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub n: PrF,
  #[yaserde(attribute = true)]
  pub s: PrimI,
  /// A documented member
  pub x: bool,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, skip_serializing_if = "p_v", default = "df_pr54_v")]
  pub v: u32,
}
impl Bind for Pr54 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr54 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr54 {
  fn p_v(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr54_v() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr54", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr54Tw {
  pub a: Option<i32>,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub b: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  #[yaserde(attribute = true)]
  pub s: PrimI,
  /// A documented member
  pub x: bool,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)] #[yaserde()] #[yaserde(skip_serializing_if = "p_v")] #[yaserde()] #[yaserde(default = "df_pr54tw_v")]
  pub v: u32,
}
impl Bind for Pr54Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr54Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), pi: Bind::from_val(&l[2]), pc: Bind::from_val(&l[3]), pl: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr54Tw {
  fn p_v(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr54tw_v() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr55 {
  #[yaserde(attribute = true, skip_serializing_if = "p_a", default = "df_pr55_a")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: u32,
  #[yaserde(attribute = true,)] #[yaserde(rename = "u.b",)]
  #[cfg(not(any()))]
  pub b: Option<UnitE>,
  #[yaserde(flatten = true)]
  pub n: PrF,
  /// A documented member
  pub s: Deep2,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_pr55_x")]
  pub x: i16,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Leaf,
}
impl Bind for Pr55 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr55 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr55 {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr55_a() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr55_x() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr55")]
pub struct Pr55Tw {
  /// A documented member
  #[yaserde(attribute = true, skip_serializing_if = "p_a", default = "df_pr55tw_a")]
  pub a: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(rename = "u.b")]
  pub b: Option<UnitE>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pi: Option<u8>,
  #[cfg(not(any()))]
  pub pc: String,
  pub pl: Option<Leaf>,
  /// A documented member
  pub s: Deep2,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_pr55tw_x")]
  pub x: i16,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Leaf,
}
impl Bind for Pr55Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr55Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), pi: Bind::from_val(&l[2]), pc: Bind::from_val(&l[3]), pl: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr55Tw {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr55tw_a() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr55tw_x() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr56 {
  #[yaserde(default = "df_pr56_a")]
  #[cfg(not(any()))]
  pub a: u32,
  #[yaserde(flatten = true)]
  pub b: PrG,
  /// A documented member
  pub n: Leaf,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_pr56_s")]
  pub s: i16,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[cfg(not(any()))]
  pub v: Vec<UnitE>,
}
impl Bind for Pr56 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr56 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr56_a() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_pr56_s() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr56")]
pub struct Pr56Tw {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_pr56tw_a")]
  pub a: u32,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qi: u32,
  #[cfg(not(any()))]
  pub qc: Vec<String>,
  pub qs: Option<LeafA>,
  /// A documented member
  pub n: Leaf,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true,)] #[yaserde()] #[yaserde(default = "df_pr56tw_s",)]
  pub s: i16,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<u8>,
  #[cfg(not(any()))]
  pub v: Vec<UnitE>,
}
impl Bind for Pr56Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr56Tw { a: Bind::from_val(&l[0]), qi: Bind::from_val(&l[1]), qc: Bind::from_val(&l[2]), qs: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr56tw_a() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_pr56tw_s() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr57 {
  pub a: Option<LeafA>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub b: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "n")]
  pub n: Option<String>,
  #[yaserde(cdata = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[yaserde(attribute = true, rename = "u.x")]
  #[cfg(not(any()))]
  pub x: Option<UnitE>,
  pub v: Option<LeafA>,
}
impl Bind for Pr57 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr57 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr58 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Vec<UnitE>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub b: String,
  #[yaserde(attribute = true)]
  pub n: Vec<u8>,
  /// A documented member
  pub s: Option<i32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub x: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<UnitE>,
}
impl Bind for Pr58 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr58 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr59 {
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Vec<Two>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<u8>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub s: Option<PrO>,
  pub x: Option<String>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub v: PrimI,
}
impl Bind for Pr59 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr59 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr60 {
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub a: Vec<Leaf>,
  #[yaserde(attribute = true, default = "df_pr60_b")]
  pub b: i16,
  /// A documented member
  pub n: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub s: PrG,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<Hex8>,
  #[cfg(not(any()))]
  pub v: Option<LeafA>,
}
impl Bind for Pr60 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr60 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr60_b() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr60", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr60Tw {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub a: Vec<Leaf>,
  #[yaserde(attribute = true)] #[yaserde(default = "df_pr60tw_b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: i16,
  #[cfg(not(any()))]
  pub n: Vec<String>,
  #[yaserde(attribute = true)]
  pub qi: u32,
  /// A documented member
  pub qc: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub qs: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<Hex8>,
  #[cfg(not(any()))]
  pub v: Option<LeafA>,
}
impl Bind for Pr60Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr60Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), qi: Bind::from_val(&l[3]), qc: Bind::from_val(&l[4]), qs: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr60tw_b() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr61 {
  #[yaserde(flatten = true)]
  pub a: PrG,
  /// A documented member
  pub b: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "u.n")]
  pub n: Option<UnitE>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<PrO>,
  #[cfg(not(any()))]
  pub x: bool,
  #[yaserde(skip_serializing_if = "p_v",)] #[allow(unused)] #[yaserde(default = "df_pr61_v",)]
  pub v: String,
}
impl Bind for Pr61 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr61 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr61 {
  fn p_v(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr61_v() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr61")]
pub struct Pr61Tw {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qi: u32,
  #[cfg(not(any()))]
  pub qc: Vec<String>,
  pub qs: Option<LeafA>,
  /// A documented member
  pub b: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "u.n")]
  pub n: Option<UnitE>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<PrO>,
  #[cfg(not(any()))]
  pub x: bool,
  #[yaserde(skip_serializing_if = "p_v", default = "df_pr61tw_v")]
  pub v: String,
}
impl Bind for Pr61Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr61Tw { qi: Bind::from_val(&l[0]), qc: Bind::from_val(&l[1]), qs: Bind::from_val(&l[2]), b: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr61Tw {
  fn p_v(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr61tw_v() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr62 {
  /// A documented member
  #[yaserde(skip_serializing_if = "p_a")]
  pub a: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)] #[yaserde()] #[yaserde(rename = "u.b")]
  pub b: Option<UnitE>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<UnitE>,
  #[yaserde(attribute = true, skip_serializing_if = "p_s", default = "df_pr62_s")]
  #[cfg(not(any()))]
  pub s: u32,
  pub x: Vec<u8>,
  /// A documented member
  #[yaserde(default = "df_pr62_v")]
  pub v: u32,
}
impl Bind for Pr62 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr62 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr62 {
  fn p_a(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr62_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr62_v() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr63 {
  #[cfg(not(any()))]
  pub a: Option<Tagged>,
  #[yaserde(flatten = true)]
  pub b: PrG,
  /// A documented member
  #[yaserde(default = "df_pr63_n")]
  pub n: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_s")]
  pub s: Vec<Leaf>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: PrimI,
  #[cfg(not(any()))]
  pub v: Option<i32>,
}
impl Bind for Pr63 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr63 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr63 {
  fn p_s(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr63_n() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr63")]
pub struct Pr63Tw {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<Tagged>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qi: u32,
  #[cfg(not(any()))]
  pub qc: Vec<String>,
  pub qs: Option<LeafA>,
  /// A documented member
  #[yaserde(default = "df_pr63tw_n")]
  pub n: u32,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_s")]
  pub s: Vec<Leaf>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: PrimI,
  #[cfg(not(any()))]
  pub v: Option<i32>,
}
impl Bind for Pr63Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr63Tw { a: Bind::from_val(&l[0]), qi: Bind::from_val(&l[1]), qc: Bind::from_val(&l[2]), qs: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr63Tw {
  fn p_s(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr63tw_n() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr64 {
  #[yaserde(default = "df_pr64_a")]
  pub a: u32,
  /// A documented member
  #[yaserde(attribute = true, rename = "u.b")]
  pub b: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub n: Vec<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Vec<String>,
  #[cfg(not(any()))]
  pub x: PrimI,
  pub v: NewE,
}
impl Bind for Pr64 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr64 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr64_a() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr65 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<i32>,
  #[yaserde(skip_serializing_if = "p_b")]
  #[cfg(not(any()))]
  pub b: Vec<Leaf>,
  #[yaserde(text = true)]
  pub n: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub s: Option<PrO>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub x: Option<u8>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: PrG,
}
impl Bind for Pr65 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr65 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr65 {
  fn p_b(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr65")]
pub struct Pr65Tw {
  /// A documented member
  pub a: Option<i32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_b")]
  pub b: Vec<Leaf>,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: String,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub s: Option<PrO>,
  #[yaserde(attribute = true)]
  pub x: Option<u8>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub qi: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub qc: Vec<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qs: Option<LeafA>,
}
impl Bind for Pr65Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr65Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), qi: Bind::from_val(&l[5]), qc: Bind::from_val(&l[6]), qs: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr65Tw {
  fn p_b(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr66 {
  #[cfg(not(any()))]
  pub a: Vec<Two>,
  #[yaserde(flatten = true)]
  pub b: PrE,
  /// A documented member
  pub n: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub s: PrF,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<String>,
  #[cfg(not(any()))]
  pub v: Option<i32>,
}
impl Bind for Pr66 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr66 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr66",)] #[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" },)]
pub struct Pr66Tw {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Vec<Two>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: PrE,
  #[cfg(not(any()))]
  pub n: PrimI,
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  pub pc: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub pl: Option<Leaf>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<String>,
  #[cfg(not(any()))]
  pub v: Option<i32>,
}
impl Bind for Pr66Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr66Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), pi: Bind::from_val(&l[3]), pc: Bind::from_val(&l[4]), pl: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr67 {
  pub a: Vec<String>,
  /// A documented member
  pub b: Vec<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub n: String,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: PrE,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub x: Vec<Leaf>,
  #[yaserde(default = "df_pr67_v")]
  pub v: u32,
}
impl Bind for Pr67 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr67 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr67_v() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr68 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Vec<u8>,
  #[cfg(not(any()))]
  pub b: Vec<UnitE>,
  #[yaserde(prefix = "n")]
  pub n: Option<String>,
  /// A documented member
  #[yaserde(text = true)]
  pub s: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_x", default = "df_pr68_x")]
  pub x: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<String>,
}
impl Bind for Pr68 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr68 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr68 {
  fn p_x(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr68_x() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr69 {
  /// A documented member
  #[yaserde(flatten = true)]
  pub a: PrF,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(prefix = "m")]
  pub b: Vec<Leaf>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Option<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub s: Vec<u8>,
  #[yaserde(rename = "r-x")]
  pub x: Option<ANode>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub v: Option<u8>,
}
impl Bind for Pr69 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr69 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr70 {
  #[yaserde(attribute = true, skip_serializing_if = "p_a", default = "df_pr70_a")]
  #[cfg(not(any()))]
  pub a: u32,
  #[yaserde(skip_serializing_if = "p_b")]
  pub b: Vec<Leaf>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub n: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Option<Tagged>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: NewE,
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_v")] #[allow(unused)] #[yaserde(default = "df_pr70_v")]
  #[cfg(not(any()))]
  pub v: u32,
}
impl Bind for Pr70 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr70 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr70 {
  fn p_a(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
  fn p_b(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_v(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr70_a() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr70_v() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr71 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<UnitE>,
  #[yaserde(attribute = true, default = "df_pr71_b")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: i16,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub n: PrF,
  pub s: Option<Tagged>,
  /// A documented member
  pub x: Vec<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub v: String,
}
impl Bind for Pr71 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr71 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr71_b() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr71")]
pub struct Pr71Tw {
  pub a: Option<UnitE>,
  /// A documented member
  #[yaserde(attribute = true, default = "df_pr71tw_b")]
  pub b: i16,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  pub s: Option<Tagged>,
  /// A documented member
  pub x: Vec<PrimS>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub v: String,
}
impl Bind for Pr71Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr71Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), pi: Bind::from_val(&l[2]), pc: Bind::from_val(&l[3]), pl: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr71tw_b() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr72 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Leaf,
  #[yaserde(default = "df_pr72_b")]
  #[cfg(not(any()))]
  pub b: u32,
  pub n: Option<UnitE>,
  /// A documented member
  pub s: Deep2,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub x: Option<PrO>,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<String>,
}
impl Bind for Pr72 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr72 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr72_b() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr73 {
  /// A documented member
  #[yaserde(skip_serializing_if = "p_a",)] #[yaserde()] #[yaserde(default = "df_pr73_a",)]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub b: String,
  #[yaserde(skip_serializing_if = "p_n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<Leaf>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub s: PrF,
  pub x: Vec<Two>,
  /// A documented member
  pub v: Vec<u8>,
}
impl Bind for Pr73 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr73 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr73 {
  fn p_a(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_n(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr73_a() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr73")]
pub struct Pr73Tw {
  #[yaserde(skip_serializing_if = "p_a", default = "df_pr73tw_a")]
  #[cfg(not(any()))]
  pub a: String,
  #[yaserde(attribute = true)]
  pub b: String,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_n")]
  pub n: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  pub x: Vec<Two>,
  /// A documented member
  pub v: Vec<u8>,
}
impl Bind for Pr73Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr73Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), pi: Bind::from_val(&l[3]), pc: Bind::from_val(&l[4]), pl: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr73Tw {
  fn p_a(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_n(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr73tw_a() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr74 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(default = "df_pr74_a")]
  pub a: u32,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<Two>,
  #[yaserde(attribute = true, skip_serializing_if = "p_n", default = "df_pr74_n")]
  #[cfg(not(any()))]
  pub n: u32,
  pub s: Option<String>,
  /// A documented member
  pub x: Vec<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub v: String,
}
impl Bind for Pr74 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr74 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr74 {
  fn p_n(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr74_a() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_pr74_n() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr75 {
  pub a: Leaf,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_b")]
  pub b: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub n: PrE,
  #[yaserde(cdata = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[yaserde(skip_serializing_if = "p_x")] #[yaserde(default = "df_pr75_x")]
  #[cfg(not(any()))]
  pub x: String,
  pub v: Option<Hex8>,
}
impl Bind for Pr75 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr75 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr75 {
  fn p_b(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_x(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr75_x() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr76 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Vec<Two>,
  #[cfg(not(any()))]
  pub b: Vec<PrimS>,
  #[yaserde(attribute = true, default = "df_pr76_n")]
  pub n: i16,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub s: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub x: Option<PrO>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<Two>,
}
impl Bind for Pr76 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr76 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr76_n() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr77 {
  /// A documented member
  #[yaserde(cdata = true)]
  pub a: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub b: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub s: Option<u8>,
  #[yaserde(skip_serializing_if = "p_x")]
  pub x: Vec<Leaf>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub v: Vec<u8>,
}
impl Bind for Pr77 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr77 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr77 {
  fn p_x(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr78 {
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub a: PrF,
  pub b: Option<Hex8>,
  /// A documented member
  pub n: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, skip_serializing_if = "p_s", default = "df_pr78_s")]
  pub s: u32,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<String>,
  #[cfg(not(any()))]
  pub v: Option<UnitE>,
}
impl Bind for Pr78 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr78 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr78 {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr78_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr78", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr78Tw {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  pub b: Option<Hex8>,
  /// A documented member
  pub n: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_s",)] #[allow(unused)] #[yaserde(default = "df_pr78tw_s",)]
  pub s: u32,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<String>,
  #[cfg(not(any()))]
  pub v: Option<UnitE>,
}
impl Bind for Pr78Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr78Tw { pi: Bind::from_val(&l[0]), pc: Bind::from_val(&l[1]), pl: Bind::from_val(&l[2]), b: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr78Tw {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr78tw_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr79 {
  #[yaserde(flatten = true)]
  pub a: PrE,
  /// A documented member
  pub b: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub n: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<u8>,
  #[yaserde(rename = "r-x")]
  #[cfg(not(any()))]
  pub x: Option<ANode>,
  #[yaserde(flatten = true)]
  pub v: PrF,
}
impl Bind for Pr79 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr79 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr79")]
pub struct Pr79Tw {
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: PrE,
  #[cfg(not(any()))]
  pub b: Vec<u8>,
  #[yaserde(attribute = true)]
  pub n: String,
  /// A documented member
  #[yaserde(attribute = true)]
  pub s: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "r-x")]
  pub x: Option<ANode>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pi: Option<u8>,
  #[cfg(not(any()))]
  pub pc: String,
  pub pl: Option<Leaf>,
}
impl Bind for Pr79Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr79Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), pi: Bind::from_val(&l[5]), pc: Bind::from_val(&l[6]), pl: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr80 {
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<String>,
  #[yaserde(attribute = true, default = "df_pr80_s")]
  #[cfg(not(any()))]
  pub s: i16,
  #[yaserde(text = true)]
  pub x: String,
  /// A documented member
  pub v: Option<i32>,
}
impl Bind for Pr80 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr80 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr80_s() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr81 {
  #[yaserde(skip_serializing_if = "p_a")]
  #[cfg(not(any()))]
  pub a: Vec<Leaf>,
  pub b: Deep2,
  /// A documented member
  #[yaserde(default = "df_pr81_n")]
  pub n: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: Option<LeafA>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<PrimS>,
  #[yaserde(skip_serializing_if = "p_v")] #[yaserde()] #[yaserde(default = "df_pr81_v")]
  #[cfg(not(any()))]
  pub v: String,
}
impl Bind for Pr81 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr81 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr81 {
  fn p_a(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
  fn p_v(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr81_n() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_pr81_v() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr82 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Option<LeafA>,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<Leaf>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub n: Option<String>,
  pub s: Vec<UnitE>,
  /// A documented member
  pub x: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub v: PrimI,
}
impl Bind for Pr82 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr82 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr83 {
  #[yaserde(attribute = true)]
  pub a: Vec<u8>,
  /// A documented member
  pub b: Vec<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Leaf,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Vec<Leaf>,
  #[cfg(not(any()))]
  pub x: Option<Tagged>,
  #[yaserde(flatten = true)]
  pub v: PrF,
}
impl Bind for Pr83 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr83 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr84 {
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<u8>,
  #[cfg(not(any()))]
  pub b: Vec<u8>,
  #[yaserde(attribute = true, default = "df_pr84_n")]
  pub n: i16,
  /// A documented member
  pub s: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub x: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<String>,
}
impl Bind for Pr84 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr84 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr84_n() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr85 {
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub b: Option<PrO>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<u8>,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub s: PrE,
  pub x: Vec<String>,
  /// A documented member
  pub v: Leaf,
}
impl Bind for Pr85 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr85 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr86 {
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub a: PrG,
  #[yaserde(prefix = "n")]
  pub b: Option<String>,
  /// A documented member
  pub n: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, skip_serializing_if = "p_s", default = "df_pr86_s")]
  pub s: u32,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<Two>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub v: String,
}
impl Bind for Pr86 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr86 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr86 {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr86_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr86", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr86Tw {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub qi: u32,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qc: Vec<String>,
  #[cfg(not(any()))]
  pub qs: Option<LeafA>,
  #[yaserde(prefix = "n")]
  pub b: Option<String>,
  /// A documented member
  pub n: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true,)] #[yaserde(skip_serializing_if = "p_s",)] #[yaserde(default = "df_pr86tw_s",)]
  pub s: u32,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<Two>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub v: String,
}
impl Bind for Pr86Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr86Tw { qi: Bind::from_val(&l[0]), qc: Bind::from_val(&l[1]), qs: Bind::from_val(&l[2]), b: Bind::from_val(&l[3]), n: Bind::from_val(&l[4]), s: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr86Tw {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr86tw_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr87 {
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  /// A documented member
  pub b: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_n", default = "df_pr87_n")]
  pub n: String,
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Option<String>,
  #[cfg(not(any()))]
  pub x: Deep2,
  pub v: Leaf,
}
impl Bind for Pr87 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr87 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr87 {
  fn p_n(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr87_n() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr88 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub b: Vec<Leaf>,
  #[yaserde(attribute = true)]
  pub n: Option<u8>,
  /// A documented member
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_s")] #[allow(unused)] #[yaserde(default = "df_pr88_s")]
  pub s: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<LeafA>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<u8>,
}
impl Bind for Pr88 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr88 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr88 {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr88_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr89 {
  /// A documented member
  #[yaserde(prefix = "n")]
  pub a: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: Vec<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Option<Tagged>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub s: Option<String>,
  pub x: NewE,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub v: Option<String>,
}
impl Bind for Pr89 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr89 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr90 {
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub a: Option<String>,
  #[yaserde(prefix = "m")]
  pub b: Vec<Leaf>,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_n", default = "df_pr90_n")]
  pub n: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub s: bool,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: i64,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub v: Vec<Leaf>,
}
impl Bind for Pr90 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr90 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr90 {
  fn p_n(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr90_n() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr91 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: Vec<Two>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<Hex8>,
  #[yaserde(text = true)]
  #[cfg(not(any()))]
  pub n: String,
  pub s: Vec<PrimS>,
  /// A documented member
  pub x: NewE,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_v", default = "df_pr91_v")]
  pub v: String,
}
impl Bind for Pr91 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr91 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr91 {
  fn p_v(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr91_v() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr92 {
  #[yaserde(attribute = true,)] #[yaserde()] #[yaserde(default = "df_pr92_a",)]
  pub a: i16,
  /// A documented member
  #[yaserde(attribute = true, rename = "u.b")]
  pub b: Option<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "r-n")]
  pub n: Option<ANode>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: String,
  #[cfg(not(any()))]
  pub x: Option<String>,
  #[yaserde(attribute = true, default = "df_pr92_v")]
  pub v: i16,
}
impl Bind for Pr92 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr92 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr92_a() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
fn df_pr92_v() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr93 {
  #[yaserde(prefix = "n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<String>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub b: Vec<u8>,
  #[yaserde(default = "df_pr93_n")]
  pub n: u32,
  /// A documented member
  #[yaserde(cdata = true)]
  pub s: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: i64,
  #[yaserde(rename = "r-v")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Option<ANode>,
}
impl Bind for Pr93 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr93 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr93_n() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr94 {
  /// A documented member
  #[yaserde(flatten = true)]
  pub a: Option<PrO>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub b: PrG,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Option<Tagged>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub s: Vec<u8>,
  #[yaserde(skip_serializing_if = "p_x")] #[yaserde(default = "df_pr94_x")]
  pub x: String,
  /// A documented member
  #[yaserde(rename = "r-v")]
  pub v: Option<ANode>,
}
impl Bind for Pr94 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr94 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr94 {
  fn p_x(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr94_x() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr95 {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: PrimI,
  pub b: Deep2,
  /// A documented member
  #[yaserde(cdata = true)]
  pub n: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, rename = "u.s")]
  pub s: Option<UnitE>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: PrE,
  #[cfg(not(any()))]
  pub v: Vec<Two>,
}
impl Bind for Pr95 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr95 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr96 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  #[yaserde(flatten = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<PrO>,
  #[yaserde(prefix = "m")]
  #[cfg(not(any()))]
  pub n: Vec<Leaf>,
  #[yaserde(attribute = true, rename = "u.s")]
  pub s: Option<UnitE>,
  /// A documented member
  #[yaserde(skip_serializing_if = "p_x")]
  pub x: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Option<UnitE>,
}
impl Bind for Pr96 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr96 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr96 {
  fn p_x(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr97 {
  pub a: Option<LeafA>,
  /// A documented member
  pub b: Vec<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: i64,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: NewE,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub x: PrF,
  pub v: Option<LeafA>,
}
impl Bind for Pr97 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr97 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr97")]
pub struct Pr97Tw {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Option<LeafA>,
  #[cfg(not(any()))]
  pub b: Vec<String>,
  pub n: i64,
  /// A documented member
  pub s: NewE,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub pi: Option<u8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub pc: String,
  #[cfg(not(any()))]
  pub pl: Option<Leaf>,
  pub v: Option<LeafA>,
}
impl Bind for Pr97Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr97Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), pi: Bind::from_val(&l[4]), pc: Bind::from_val(&l[5]), pl: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr98 {
  /// A documented member
  #[yaserde(attribute = true)]
  pub a: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: NewE,
  #[yaserde(rename = "r-n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Option<ANode>,
  #[yaserde(default = "df_pr98_s")]
  #[cfg(not(any()))]
  pub s: u32,
  #[yaserde(attribute = true)]
  pub x: String,
  /// A documented member
  #[yaserde(default = "df_pr98_v")]
  pub v: u32,
}
impl Bind for Pr98 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr98 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr98_s() -> u32 {
  Bind::from_val(&Val::s("7"))
}
fn df_pr98_v() -> u32 {
  Bind::from_val(&Val::s("7"))
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr99 {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: Vec<u8>,
  #[yaserde(flatten = true)]
  pub b: PrE,
  /// A documented member
  #[yaserde(attribute = true)]
  pub n: PrimI,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(flatten = true)]
  pub s: PrF,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Vec<UnitE>,
  #[yaserde(skip_serializing_if = "p_v")]
  #[cfg(not(any()))]
  pub v: Vec<Leaf>,
}
impl Bind for Pr99 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr99 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr99 {
  fn p_v(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr100 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Vec<u8>,
  #[cfg(not(any()))]
  pub n: Option<String>,
  #[yaserde(flatten = true)]
  pub s: PrG,
  /// A documented member
  pub x: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Vec<PrimS>,
}
impl Bind for Pr100 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr100 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr100")]
pub struct Pr100Tw {
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  /// A documented member
  pub b: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<String>,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qi: u32,
  #[cfg(not(any()))]
  pub qc: Vec<String>,
  pub qs: Option<LeafA>,
  /// A documented member
  pub x: Vec<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Vec<PrimS>,
}
impl Bind for Pr100Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr100Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), qi: Bind::from_val(&l[3]), qc: Bind::from_val(&l[4]), qs: Bind::from_val(&l[5]), x: Bind::from_val(&l[6]), v: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr101 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Deep2,
  #[cfg(not(any()))]
  pub b: bool,
  pub n: Vec<Two>,
  /// A documented member
  #[yaserde(attribute = true)]
  pub s: Option<u8>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub x: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: Vec<Two>,
}
impl Bind for Pr101 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr101 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr102 {
  /// A documented member
  pub a: NewE,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true,)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_b",)] #[allow(unused)] #[yaserde(default = "df_pr102_b",)]
  pub b: u32,
  #[yaserde(attribute = true, default = "df_pr102_n")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: i16,
  #[cfg(not(any()))]
  pub s: bool,
  pub x: PrimI,
  /// A documented member
  #[yaserde(prefix = "m")]
  pub v: Vec<Leaf>,
}
impl Bind for Pr102 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr102 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr102 {
  fn p_b(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr102_b() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr102_n() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr103 {
  #[cfg(not(any()))]
  pub a: Option<i32>,
  #[yaserde(attribute = true, default = "df_pr103_b")]
  pub b: i16,
  /// A documented member
  #[yaserde(cdata = true)]
  pub n: String,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub s: PrimI,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<Tagged>,
  #[cfg(not(any()))]
  pub v: Vec<u8>,
}
impl Bind for Pr103 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr103 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr103_b() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr104 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(text = true)]
  pub a: Option<String>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: Option<Hex8>,
  #[cfg(not(any()))]
  pub n: Option<Tagged>,
  #[yaserde(flatten = true)]
  pub s: Option<PrO>,
  /// A documented member
  pub x: Option<LeafA>,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: Deep2,
}
impl Bind for Pr104 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr104 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr105 {
  pub a: Vec<PrimS>,
  /// A documented member
  #[yaserde(prefix = "n")]
  pub b: Option<String>,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: Option<Hex8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Vec<UnitE>,
  #[yaserde(attribute = true)] #[yaserde()] #[yaserde(default = "df_pr105_x")]
  #[cfg(not(any()))]
  pub x: i16,
  #[yaserde(flatten = true)]
  pub v: PrG,
}
impl Bind for Pr105 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr105 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr105_x() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Pr105", namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr105Tw {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: Vec<PrimS>,
  #[yaserde(prefix = "n")]
  #[cfg(not(any()))]
  pub b: Option<String>,
  pub n: Option<Hex8>,
  /// A documented member
  pub s: Vec<UnitE>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true, default = "df_pr105tw_x")]
  pub x: i16,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub qi: u32,
  #[cfg(not(any()))]
  pub qc: Vec<String>,
  pub qs: Option<LeafA>,
}
impl Bind for Pr105Tw {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.qi.to_val(), self.qc.to_val(), self.qs.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 8 => Pr105Tw { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), qi: Bind::from_val(&l[5]), qc: Bind::from_val(&l[6]), qs: Bind::from_val(&l[7]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
fn df_pr105tw_x() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr106 {
  /// A documented member
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: PrimI,
  #[yaserde(cdata = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: String,
  #[cfg(not(any()))]
  pub s: Leaf,
  pub x: Vec<u8>,
  /// A documented member
  #[yaserde(attribute = true,)] #[yaserde(rename = "u.v",)]
  pub v: Option<UnitE>,
}
impl Bind for Pr106 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr106 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr107 {
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub a: Vec<u8>,
  pub b: String,
  /// A documented member
  pub n: Option<Tagged>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(cdata = true)]
  pub s: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: Option<UnitE>,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub v: Vec<u8>,
}
impl Bind for Pr107 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr107 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr108 {
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(rename = "r-a")]
  pub a: Option<ANode>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: bool,
  #[yaserde(flatten = true)]
  #[cfg(not(any()))]
  pub n: PrE,
  #[yaserde(attribute = true, rename = "u.s")]
  pub s: Option<UnitE>,
  /// A documented member
  pub x: Deep2,
  #[allow(unused)]
  #[doc(hidden)]
  pub v: bool,
}
impl Bind for Pr108 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr108 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr109 {
  #[yaserde(attribute = true)]
  pub a: String,
  /// A documented member
  pub b: Option<i32>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_n", default = "df_pr109_n")]
  pub n: String,
  #[yaserde(attribute = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: PrimI,
  #[cfg(not(any()))]
  pub x: Option<String>,
  pub v: PrimI,
}
impl Bind for Pr109 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr109 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr109 {
  fn p_n(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr109_n() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr110 {
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[cfg(not(any()))]
  pub b: Option<LeafA>,
  pub n: Leaf,
  /// A documented member
  #[yaserde(attribute = true)] #[allow(unused)] #[yaserde(skip_serializing_if = "p_s")] #[allow(unused)] #[yaserde(default = "df_pr110_s")]
  pub s: u32,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Option<Hex8>,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: String,
}
impl Bind for Pr110 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr110 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr110 {
  fn p_s(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr110_s() -> u32 {
  Bind::from_val(&Val::s("0"))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "n" = "urn:n", "m" = "urn:m" })]
pub struct Pr111 {
  /// A documented member
  #[yaserde(skip_serializing_if = "p_a")]
  pub a: Vec<Leaf>,
  #[allow(unused)]
  #[doc(hidden)]
  pub b: String,
  #[yaserde(prefix = "m")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub n: Vec<Leaf>,
  #[cfg(not(any()))]
  pub s: Leaf,
  #[yaserde(text = true)]
  pub x: String,
  /// A documented member
  #[yaserde(attribute = true)]
  pub v: PrimI,
}
impl Bind for Pr111 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr111 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr111 {
  fn p_a(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr112 {
  #[yaserde(attribute = true, default = "df_pr112_a")]
  #[cfg(not(any()))]
  pub a: i16,
  pub b: Deep2,
  /// A documented member
  #[yaserde(flatten = true)]
  pub n: PrF,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(skip_serializing_if = "p_s", default = "df_pr112_s")]
  pub s: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub x: NewE,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub v: Vec<u8>,
}
impl Bind for Pr112 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr112 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr112 {
  fn p_s(&self, v: &String) -> bool {
    pred("empty", &v.to_val())
  }
}
fn df_pr112_a() -> i16 {
  Bind::from_val(&Val::s("-3"))
}
fn df_pr112_s() -> String {
  Bind::from_val(&Val::s(""))
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr113 {
  #[allow(unused)]
  #[doc(hidden)]
  pub a: String,
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub b: String,
  #[cfg(not(any()))]
  pub n: String,
  #[yaserde(attribute = true)]
  pub s: String,
  /// A documented member
  #[yaserde(flatten = true)]
  pub x: Option<PrO>,
  #[allow(unused)]
  #[doc(hidden)]
  #[yaserde(attribute = true)]
  pub v: String,
}
impl Bind for Pr113 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr113 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
#[derive(Debug, PartialEq, Clone, YaSerialize, YaDeserialize)]

pub struct Pr114 {
  pub a: String,
  /// A documented member
  pub b: String,
  #[allow(unused)]
  #[doc(hidden)]
  pub n: PrimI,
  #[yaserde(skip_serializing_if = "p_s")]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub s: Vec<Leaf>,
  #[yaserde(rename = "r-x")]
  #[cfg(not(any()))]
  pub x: Option<ANode>,
  pub v: PrimI,
}
impl Bind for Pr114 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr114 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr114 {
  fn p_s(&self, v: &Vec<Leaf>) -> bool {
    pred("empty", &v.to_val())
  }
}
#[derive(Debug, PartialEq, Clone, YaDeserialize)]

pub struct Pr115 {
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub a: String,
  #[yaserde(attribute = true)]
  #[cfg(not(any()))]
  pub b: Vec<u8>,
  #[yaserde(attribute = true,)] #[yaserde()] #[yaserde(skip_serializing_if = "p_n",)] #[yaserde()] #[yaserde(default = "df_pr115_n",)]
  pub n: u32,
  /// A documented member
  #[yaserde(attribute = true, default = "df_pr115_s")]
  pub s: i16,
  #[allow(unused)]
  #[doc(hidden)]
  pub x: Deep2,
  #[yaserde(text = true)]
  /// A documented member
  ///
  /// attribute = true, rename = "x"
  pub v: String,
}
impl Bind for Pr115 {
  fn to_val(&self) -> Val {
    Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.n.to_val(), self.s.to_val(), self.x.to_val(), self.v.to_val()])
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Struct(l) if l.len() == 6 => Pr115 { a: Bind::from_val(&l[0]), b: Bind::from_val(&l[1]), n: Bind::from_val(&l[2]), s: Bind::from_val(&l[3]), x: Bind::from_val(&l[4]), v: Bind::from_val(&l[5]) },
      _ => panic!("bad value {:?}", v),
    }
  }
}
impl Pr115 {
  fn p_n(&self, v: &u32) -> bool {
    pred("zero", &v.to_val())
  }
}
fn df_pr115_n() -> u32 {
  Bind::from_val(&Val::s("0"))
}
fn df_pr115_s() -> i16 {
  Bind::from_val(&Val::s("-3"))
}

pub fn schema() -> Schema {
  Schema {
    list_attrs: false,
    tys: vec![
      Ty { id: 0, rust: "Leaf", root: "Leaf", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io" },
      Ty { id: 1, rust: "LeafN", root: "LeafN", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 2, rust: "LeafO", root: "LeafO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 3, rust: "LeafV", root: "LeafV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "i", name: "i", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 4, rust: "LeafA", root: "LeafA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io" },
      Ty { id: 5, rust: "LeafAS", root: "LeafAS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str" },
      Ty { id: 6, rust: "LeafT", root: "LeafT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io str" },
      Ty { id: 7, rust: "LeafAT", root: "LeafAT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str" },
      Ty { id: 8, rust: "LeafOT", root: "LeafOT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 9, rust: "Empty", root: "Empty", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 10, rust: "Two", root: "Two", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io" },
      Ty { id: 11, rust: "ANode", root: "node", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "id", name: "id", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 12, rust: "UnitE", root: "UnitE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "C", name: "see", prefix: None, flatten: false, named: false, payload: None }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "io en" },
      Ty { id: 13, rust: "UnitD", root: "unit-d", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "Weird", name: "x.y-z", prefix: None, flatten: false, named: false, payload: None }], Val::Var(1, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 14, rust: "NewE", root: "NewE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "U", name: "U", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "S", name: "S", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U32))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Bool))) }, Variant { ident: "L", name: "L", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(4))) }, Variant { ident: "OS", name: "OS", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::Str))) }, Variant { ident: "OL", name: "OL", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(0))) }, Variant { ident: "VS", name: "VS", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::Str))) }, Variant { ident: "VN", name: "VN", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U16))) }, Variant { ident: "VL", name: "vl", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(0))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "io en" },
      Ty { id: 15, rust: "NewT", root: "NewT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "T", name: "T", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(6))) }, Variant { ident: "AT", name: "AT", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(7))) }, Variant { ident: "E", name: "E", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(9))) }, Variant { ident: "I", name: "I", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(12))) }, Variant { ident: "X", name: "two", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(10))) }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(7))) }, Variant { ident: "VE", name: "VE", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(12))) }, Variant { ident: "D", name: "D", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::F64))) }], Val::var(0, Val::Struct(vec![Val::s("a")]))), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 16, rust: "NewA", root: "NewA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "S", name: "a", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "T", name: "b", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "None", name: "None", prefix: None, flatten: false, named: false, payload: None }], Val::Var(2, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 17, rust: "PrimS", root: "PrimS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::Str), ser: true, de: true, rt: true, groups: "prim str" },
      Ty { id: 18, rust: "PrimI", root: "PrimI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::I32), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 19, rust: "PrimU", root: "PrimU", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::U8), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 20, rust: "PrimB", root: "PrimB", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::Bool), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 21, rust: "PrimF", root: "PrimF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::F64), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 22, rust: "PrimL", root: "PrimL", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::U64), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 23, rust: "Hex8", root: "Hex8", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Hex(8, 0xff), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 24, rust: "Hex16", root: "Hex16", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Hex(16, 0xffff), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 25, rust: "Hex32", root: "Hex32", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Hex(32, 0xffffffff), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 26, rust: "Hex64", root: "Hex64", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Hex(64, 0xffffffffffffffff), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 27, rust: "HexM", root: "HexM", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Hex(16, 0xf0f1), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 28, rust: "DefI", root: "DefI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::I16), ser: true, de: true, rt: true, groups: "prim" },
      Ty { id: 29, rust: "DefS", root: "DefS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::Str), ser: true, de: true, rt: true, groups: "prim str" },
      Ty { id: 30, rust: "Cust", root: "Cust", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::Str), ser: true, de: true, rt: true, groups: "prim str probe" },
      Ty { id: 31, rust: "PosPrimS", root: "PosPrimS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(17), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 32, rust: "PosVPrimS", root: "PosVPrimS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 33, rust: "PosEPrimS", root: "PosEPrimS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(17))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(17))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(17))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 34, rust: "PosPrimI", root: "PosPrimI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 35, rust: "PosVPrimI", root: "PosVPrimI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 36, rust: "PosEPrimI", root: "PosEPrimI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(18))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(18))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(18))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 37, rust: "PosPrimU", root: "PosPrimU", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(19), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(19), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(19), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(19), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(19), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(19), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 38, rust: "PosVPrimU", root: "PosVPrimU", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(19), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 39, rust: "PosEPrimU", root: "PosEPrimU", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(19))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(19))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(19))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 40, rust: "PosPrimB", root: "PosPrimB", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(20), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(20), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(20), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(20), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(20), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(20), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 41, rust: "PosVPrimB", root: "PosVPrimB", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(20), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 42, rust: "PosEPrimB", root: "PosEPrimB", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(20))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(20))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(20))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 43, rust: "PosPrimF", root: "PosPrimF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(21), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(21), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(21), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(21), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(21), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(21), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 44, rust: "PosVPrimF", root: "PosVPrimF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(21), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 45, rust: "PosEPrimF", root: "PosEPrimF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(21))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(21))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(21))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 46, rust: "PosPrimL", root: "PosPrimL", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(22), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(22), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(22), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(22), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(22), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(22), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 47, rust: "PosVPrimL", root: "PosVPrimL", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(22), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 48, rust: "PosEPrimL", root: "PosEPrimL", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(22))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(22))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(22))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 49, rust: "PosHex8", root: "PosHex8", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 50, rust: "PosVHex8", root: "PosVHex8", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 51, rust: "PosEHex8", root: "PosEHex8", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(23))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(23))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(23))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 52, rust: "PosHex16", root: "PosHex16", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(24), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 53, rust: "PosVHex16", root: "PosVHex16", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 54, rust: "PosEHex16", root: "PosEHex16", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(24))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(24))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(24))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 55, rust: "PosHex32", root: "PosHex32", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(25), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(25), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(25), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(25), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(25), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(25), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 56, rust: "PosVHex32", root: "PosVHex32", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(25), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 57, rust: "PosEHex32", root: "PosEHex32", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(25))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(25))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(25))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 58, rust: "PosHex64", root: "PosHex64", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(26), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(26), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(26), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(26), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(26), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(26), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 59, rust: "PosVHex64", root: "PosVHex64", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(26), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 60, rust: "PosEHex64", root: "PosEHex64", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(26))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(26))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(26))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 61, rust: "PosHexM", root: "PosHexM", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(27), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(27), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(27), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(27), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(27), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(27), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 62, rust: "PosVHexM", root: "PosVHexM", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(27), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 63, rust: "PosEHexM", root: "PosEHexM", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(27))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(27))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(27))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 64, rust: "PosDefI", root: "PosDefI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(28), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 65, rust: "PosVDefI", root: "PosVDefI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 66, rust: "PosEDefI", root: "PosEDefI", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(28))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(28))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(28))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 67, rust: "PosDefS", root: "PosDefS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(29), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(29), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(29), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(29), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(29), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(29), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 68, rust: "PosVDefS", root: "PosVDefS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(29), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 69, rust: "PosEDefS", root: "PosEDefS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(29))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(29))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(29))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 70, rust: "PosCust", root: "PosCust", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(30), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pos" },
      Ty { id: 71, rust: "PosVCust", root: "PosVCust", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "posv" },
      Ty { id: 72, rust: "PosECust", root: "PosECust", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(30))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(30))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(30))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "pose" },
      Ty { id: 73, rust: "SScal", root: "SScal", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_string", name: "r_string", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_bool", name: "r_bool", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r_i8", name: "r_i8", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I8), default: None, skip: false, skip_if: None }, Field { ident: "r_u8", name: "r_u8", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_i16", name: "r_i16", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I16), default: None, skip: false, skip_if: None }, Field { ident: "r_u16", name: "r_u16", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "r_i32", name: "r_i32", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "r_u32", name: "r_u32", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "r_i64", name: "r_i64", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "r_u64", name: "r_u64", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U64), default: None, skip: false, skip_if: None }, Field { ident: "r_f32", name: "r_f32", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::F32), default: None, skip: false, skip_if: None }, Field { ident: "r_f64", name: "r_f64", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "sc" },
      Ty { id: 74, rust: "SScalA", root: "SScalA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_string", name: "r_string", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_bool", name: "r_bool", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r_i8", name: "r_i8", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I8), default: None, skip: false, skip_if: None }, Field { ident: "r_u8", name: "r_u8", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_i16", name: "r_i16", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: None, skip: false, skip_if: None }, Field { ident: "r_u16", name: "r_u16", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "r_i32", name: "r_i32", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "r_u32", name: "r_u32", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "r_i64", name: "r_i64", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "r_u64", name: "r_u64", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U64), default: None, skip: false, skip_if: None }, Field { ident: "r_f32", name: "r_f32", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::F32), default: None, skip: false, skip_if: None }, Field { ident: "r_f64", name: "r_f64", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "sc" },
      Ty { id: 75, rust: "OScal", root: "OScal", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_string", name: "r_string", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_bool", name: "r_bool", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r_i8", name: "r_i8", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I8), default: None, skip: false, skip_if: None }, Field { ident: "r_u8", name: "r_u8", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_i16", name: "r_i16", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I16), default: None, skip: false, skip_if: None }, Field { ident: "r_u16", name: "r_u16", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "r_i32", name: "r_i32", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "r_u32", name: "r_u32", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "r_i64", name: "r_i64", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "r_u64", name: "r_u64", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U64), default: None, skip: false, skip_if: None }, Field { ident: "r_f32", name: "r_f32", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::F32), default: None, skip: false, skip_if: None }, Field { ident: "r_f64", name: "r_f64", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "sc" },
      Ty { id: 76, rust: "OScalA", root: "OScalA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_string", name: "r_string", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_bool", name: "r_bool", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r_i8", name: "r_i8", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::I8), default: None, skip: false, skip_if: None }, Field { ident: "r_u8", name: "r_u8", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_i16", name: "r_i16", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::I16), default: None, skip: false, skip_if: None }, Field { ident: "r_u16", name: "r_u16", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "r_i32", name: "r_i32", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "r_u32", name: "r_u32", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "r_i64", name: "r_i64", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "r_u64", name: "r_u64", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U64), default: None, skip: false, skip_if: None }, Field { ident: "r_f32", name: "r_f32", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::F32), default: None, skip: false, skip_if: None }, Field { ident: "r_f64", name: "r_f64", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "sc" },
      Ty { id: 77, rust: "VScal", root: "VScal", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_string", name: "r_string", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_bool", name: "r_bool", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r_i8", name: "r_i8", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::I8), default: None, skip: false, skip_if: None }, Field { ident: "r_u8", name: "r_u8", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_i16", name: "r_i16", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::I16), default: None, skip: false, skip_if: None }, Field { ident: "r_u16", name: "r_u16", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "r_i32", name: "r_i32", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "r_u32", name: "r_u32", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "r_i64", name: "r_i64", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "r_u64", name: "r_u64", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U64), default: None, skip: false, skip_if: None }, Field { ident: "r_f32", name: "r_f32", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::F32), default: None, skip: false, skip_if: None }, Field { ident: "r_f64", name: "r_f64", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "sc" },
      Ty { id: 78, rust: "VScalA", root: "VScalA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_string", name: "r_string", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_bool", name: "r_bool", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r_i8", name: "r_i8", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::I8), default: None, skip: false, skip_if: None }, Field { ident: "r_u8", name: "r_u8", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_i16", name: "r_i16", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::I16), default: None, skip: false, skip_if: None }, Field { ident: "r_u16", name: "r_u16", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "r_i32", name: "r_i32", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "r_u32", name: "r_u32", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "r_i64", name: "r_i64", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "r_u64", name: "r_u64", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U64), default: None, skip: false, skip_if: None }, Field { ident: "r_f32", name: "r_f32", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::F32), default: None, skip: false, skip_if: None }, Field { ident: "r_f64", name: "r_f64", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "sc" },
      Ty { id: 79, rust: "EScal", root: "EScal", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "VString", name: "VString", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "VBool", name: "VBool", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Bool))) }, Variant { ident: "VI8", name: "VI8", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::I8))) }, Variant { ident: "VU8", name: "VU8", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "VI16", name: "VI16", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::I16))) }, Variant { ident: "VU16", name: "VU16", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U16))) }, Variant { ident: "VI32", name: "VI32", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::I32))) }, Variant { ident: "VU32", name: "VU32", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U32))) }, Variant { ident: "VI64", name: "VI64", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::I64))) }, Variant { ident: "VU64", name: "VU64", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U64))) }, Variant { ident: "VF32", name: "VF32", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::F32))) }, Variant { ident: "VF64", name: "VF64", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::F64))) }], Val::var(0, Val::s("a"))), ser: true, de: true, rt: true, groups: "sc en" },
      Ty { id: 80, rust: "EOScal", root: "EOScal", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "VString", name: "VString", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::Str))) }, Variant { ident: "VBool", name: "VBool", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::Bool))) }, Variant { ident: "VI8", name: "VI8", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::I8))) }, Variant { ident: "VU8", name: "VU8", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::U8))) }, Variant { ident: "VI16", name: "VI16", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::I16))) }, Variant { ident: "VU16", name: "VU16", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::U16))) }, Variant { ident: "VI32", name: "VI32", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::I32))) }, Variant { ident: "VU32", name: "VU32", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::U32))) }, Variant { ident: "VI64", name: "VI64", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::I64))) }, Variant { ident: "VU64", name: "VU64", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::U64))) }, Variant { ident: "VF32", name: "VF32", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::F32))) }, Variant { ident: "VF64", name: "VF64", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::F64))) }], Val::var(0, Val::None)), ser: true, de: true, rt: true, groups: "sc en" },
      Ty { id: 81, rust: "EVScal", root: "EVScal", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "VString", name: "VString", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::Str))) }, Variant { ident: "VBool", name: "VBool", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::Bool))) }, Variant { ident: "VI8", name: "VI8", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::I8))) }, Variant { ident: "VU8", name: "VU8", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U8))) }, Variant { ident: "VI16", name: "VI16", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::I16))) }, Variant { ident: "VU16", name: "VU16", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U16))) }, Variant { ident: "VI32", name: "VI32", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::I32))) }, Variant { ident: "VU32", name: "VU32", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U32))) }, Variant { ident: "VI64", name: "VI64", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::I64))) }, Variant { ident: "VU64", name: "VU64", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U64))) }, Variant { ident: "VF32", name: "VF32", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::F32))) }, Variant { ident: "VF64", name: "VF64", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::F64))) }], Val::var(0, Val::List(vec![]))), ser: true, de: true, rt: true, groups: "sc en" },
      Ty { id: 82, rust: "STypes", root: "STypes", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "leaf", name: "leaf", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "at", name: "at", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(7), default: None, skip: false, skip_if: None }, Field { ident: "unit", name: "unit", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "new", name: "new", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(24), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 83, rust: "OTypes", root: "OTypes", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "leaf", name: "leaf", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "at", name: "at", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(7), default: None, skip: false, skip_if: None }, Field { ident: "unit", name: "unit", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "new", name: "new", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io" },
      Ty { id: 84, rust: "VTypes", root: "VTypes", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "leaf", name: "leaf", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "at", name: "at", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(7), default: None, skip: false, skip_if: None }, Field { ident: "unit", name: "unit", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "new", name: "new", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(23), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "list" },
      Ty { id: 85, rust: "ATypes", root: "ATypes", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(24), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 86, rust: "OATypes", root: "OATypes", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(28), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 87, rust: "VATypes", root: "VATypes", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "" },
      Ty { id: 88, rust: "Mixed", root: "Mixed", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "id", name: "id", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "tag", name: "tag", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "name", name: "name", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "list", name: "list", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "sub", name: "sub", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "osub", name: "osub", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "subs", name: "subs", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(6), default: None, skip: false, skip_if: None }, Field { ident: "kind", name: "kind", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "txt", name: "txt", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io mix" },
      Ty { id: 89, rust: "MixedT", root: "MixedT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "lang", name: "lang", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(14), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io mix" },
      Ty { id: 90, rust: "TwoV", root: "TwoV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "list io" },
      Ty { id: 91, rust: "TwoVS", root: "TwoVS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "m", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "bee", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(6), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "list" },
      Ty { id: 92, rust: "VEnum", root: "VEnum", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "item", name: "item", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "other", name: "other", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "list" },
      Ty { id: 93, rust: "ThreeV", root: "ThreeV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "list" },
      Ty { id: 94, rust: "Deep3", root: "c", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 95, rust: "Deep2", root: "b", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(94), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(94), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 96, rust: "Deep1", root: "a", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(94), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io" },
      Ty { id: 97, rust: "Rec", root: "Rec", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "r", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(97), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "io rec" },
      Ty { id: 98, rust: "RecA", root: "item", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "item", name: "item", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(98), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 99, rust: "RecF", root: "RecF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(100), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 100, rust: "RecFIn", root: "RecFIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "r", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(99), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 101, rust: "RecM", root: "RecM", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "m", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(102), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 102, rust: "RecN", root: "RecN", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(101), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 103, rust: "RecP", root: "RecP", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(104), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 104, rust: "RecK", root: "RecK", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "P", name: "P", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(103))) }, Variant { ident: "Z", name: "Z", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(103))) }], Val::Var(1, None)), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 105, rust: "RecNs", root: "RecNs", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: Some("n"), kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "r", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(105), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rec ns" },
      Ty { id: 106, rust: "RecE", root: "RecE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "Leaf", name: "Leaf", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "Nil", name: "Nil", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "Node", name: "Node", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(106))) }], Val::Var(1, None)), ser: true, de: true, rt: true, groups: "rec io" },
      Ty { id: 107, rust: "SameRoot", root: "SameRoot", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "SameRoot", name: "SameRoot", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 108, rust: "RootField", root: "root", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "root", name: "root", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name io" },
      Ty { id: 109, rust: "RootFieldS", root: "root", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "root", name: "root", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 110, rust: "RootFieldV", root: "root", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "root", name: "root", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 111, rust: "InnerN", root: "inner", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "inner", name: "inner", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 112, rust: "OuterN", root: "outer", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "inner", name: "inner", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(111), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "other", name: "other", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(111), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 113, rust: "SwapIn", root: "SwapIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 114, rust: "SwapOut", root: "SwapOut", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(113), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(113), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 115, rust: "Case", root: "Case", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "item", name: "item", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "Item", name: "Item", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "ITEM", name: "ITEM", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "iTEM", name: "iTEM", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 116, rust: "Renamed", root: "re-named.x", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "x-y", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "p.q", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "a.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "z-1", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 117, rust: "Swapped", root: "Swapped", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 118, rust: "AttrElem", root: "AttrElem", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 119, rust: "AttrElemS", root: "AttrElemS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "leaf", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "leaf", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 120, rust: "Under", root: "Under", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "_a", name: "_a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b_c", name: "b_c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "d__", name: "d__", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 121, rust: "Uni", root: "Uni", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "élément", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "à", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 122, rust: "TextOnlyO", root: "TextOnlyO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str" },
      Ty { id: 123, rust: "TextKids", root: "TextKids", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(6), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "mix" },
      Ty { id: 124, rust: "CData", root: "CData", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str io" },
      Ty { id: 125, rust: "CData2", root: "CData2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "e", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str" },
      Ty { id: 126, rust: "Strs", root: "Strs", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str io" },
      Ty { id: 127, rust: "StrSub", root: "StrSub", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(6), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(29), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "str" },
      Ty { id: 128, rust: "DefF", root: "DefF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("dflt")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("true")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "def io skip" },
      Ty { id: 129, rust: "DefA", root: "DefA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("dflt")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I32), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "def skip" },
      Ty { id: 130, rust: "DefT", root: "DefT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("none")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "def skip" },
      Ty { id: 131, rust: "DefS_", root: "DefS_", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: Some(Val::Struct(vec![Val::s("q")])), skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(12), default: Some(Val::Var(1, None)), skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: Some(Val::var(2, Val::s("9"))), skip: false, skip_if: None }, Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: Some(Val::s("4")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "def skip" },
      Ty { id: 132, rust: "DefOV", root: "DefOV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: Some(Val::some(Val::s("3"))), skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: Some(Val::List(vec![Val::s("i")])), skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "def skip" },
      Ty { id: 133, rust: "DefAll", root: "DefAll", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: Some(Val::s("1")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U16), default: Some(Val::s("2")), skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("3")), skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U64), default: Some(Val::s("4")), skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I8), default: Some(Val::s("-1")), skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-2")), skip: false, skip_if: None }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I32), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: Some(Val::s("-4")), skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::F32), default: Some(Val::s("0.5")), skip: false, skip_if: None }, Field { ident: "j", name: "j", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::F64), default: Some(Val::s("1.5")), skip: false, skip_if: None }, Field { ident: "k", name: "k", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("false")), skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "def skip" },
      Ty { id: 134, rust: "Skip", root: "Skip", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("gone")), skip: true, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: true, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: true, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 135, rust: "SkipA", root: "SkipA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("gone")), skip: true, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: true, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 136, rust: "SkipIf", root: "SkipIf", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("first_o") }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("one") }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: Some("first") }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 137, rust: "SkipIfA", root: "SkipIfA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: Some("zero_o") }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: Some("zero") }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 138, rust: "SkipIfT", root: "SkipIfT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("a") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("never") }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("always") }, Field { ident: "z", name: "z", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 139, rust: "SkipMid", root: "SkipMid", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: Some("first") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: Some("first") }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: true, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 140, rust: "SkipDef", root: "SkipDef", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("5")), skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("5")), skip: true, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("5")), skip: false, skip_if: Some("zero") }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 141, rust: "SkipFlIn", root: "SkipFlIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: true, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: Some("one") }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("dflt")), skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 142, rust: "SkipFl", root: "SkipFl", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(141), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 143, rust: "SkipFlO", root: "SkipFlO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(141), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("a") }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 144, rust: "SkipFlX", root: "SkipFlX", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: Some("first") }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: Some("first") }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: Some("zero") }]), ser: true, de: false, rt: false, groups: "skip" },
      Ty { id: 145, rust: "SkipFlS", root: "SkipFlS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: true, skip_if: None }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(153), default: None, skip: true, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "skip" },
      Ty { id: 146, rust: "SkipEn", root: "SkipEn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "U", name: "U", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(137))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(138))) }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(137))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(142))) }], Val::Var(0, None)), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 147, rust: "SkipOut", root: "SkipOut", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(137), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(137), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(138), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(146), default: None, skip: false, skip_if: Some("first") }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(142), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 148, rust: "SkipTy", root: "SkipTy", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: Some("first") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: Some("zero") }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: true, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: true, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(14), default: None, skip: true, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: Some("first") }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "skip" },
      Ty { id: 149, rust: "SkipVA", root: "SkipVA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: Some(Val::s("1")), skip: true, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: true, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: true, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: Some("never") }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "skip" },
      Ty { id: 150, rust: "FlIn", root: "FlIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 151, rust: "Fl", root: "Fl", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl io" },
      Ty { id: 152, rust: "FlTw", root: "Fl", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 153, rust: "FlAIn", root: "FlAIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 154, rust: "FlA", root: "FlA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(153), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 155, rust: "FlATw", root: "FlA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 156, rust: "FlVIn", root: "FlVIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 157, rust: "FlV", root: "FlV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(156), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 158, rust: "FlVTw", root: "FlV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 159, rust: "FlTIn", root: "FlTIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 160, rust: "FlT", root: "FlT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(159), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 161, rust: "FlTTw", root: "FlT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 162, rust: "FlO", root: "FlO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(150), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl io" },
      Ty { id: 163, rust: "FlOA", root: "FlOA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 164, rust: "FlOATw", root: "FlOA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "xx", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 165, rust: "Fl2In", root: "Fl2In", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 166, rust: "Fl2", root: "Fl2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(165), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl io" },
      Ty { id: 167, rust: "Fl2Tw", root: "Fl2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 168, rust: "FlTwoB", root: "FlTwoB", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 169, rust: "FlTwo", root: "FlTwo", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(168), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 170, rust: "FlTwoTw", root: "FlTwo", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 171, rust: "FlEn", root: "FlEn", prefix: None, dns: None, nss: vec![], flatten: true, tag: None, def: Def::Enum(vec![Variant { ident: "Non", name: "Non", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "Ea", name: "Ea", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "Eb", name: "Eb", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "Ec", name: "Ec", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U8))) }], Val::Var(0, None)), ser: true, de: true, rt: false, groups: "" },
      Ty { id: 172, rust: "FlE", root: "FlE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(171), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "fl flen" },
      Ty { id: 173, rust: "FlEnL", root: "FlEnL", prefix: None, dns: None, nss: vec![], flatten: true, tag: None, def: Def::Enum(vec![Variant { ident: "Ea", name: "Ea", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(4))) }, Variant { ident: "Eb", name: "Eb", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(6))) }, Variant { ident: "Ed", name: "Ed", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }], Val::var(2, Val::Struct(vec![Val::s("a")]))), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 174, rust: "FlEL", root: "FlEL", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(173), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl flen" },
      Ty { id: 175, rust: "FlOE", root: "FlOE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(173), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "flen" },
      Ty { id: 176, rust: "FlMix", root: "FlMix", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(153), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 177, rust: "FlMixTw", root: "FlMix", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 178, rust: "FlVec", root: "FlVec", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Vec, base: Base::Ty(150), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "flser" },
      Ty { id: 179, rust: "FlSub", root: "FlSub", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(151), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(151), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(162), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl io" },
      Ty { id: 180, rust: "FlDefIn", root: "FlDefIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("da")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 181, rust: "FlDef", root: "FlDef", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(180), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 182, rust: "FlDefTw", root: "FlDef", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("da")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 183, rust: "RootFl", root: "RootFl", prefix: None, dns: None, nss: vec![], flatten: true, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "rootfl" },
      Ty { id: 184, rust: "RootFlE", root: "RootFlE", prefix: None, dns: None, nss: vec![], flatten: true, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(4))) }, Variant { ident: "C", name: "cc", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(10))) }], Val::var(0, Val::Struct(vec![Val::s("a")]))), ser: true, de: true, rt: true, groups: "rootfl io" },
      Ty { id: 185, rust: "VarFl", root: "VarFl", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: true, named: false, payload: Some((Mult::One, Base::Ty(4))) }, Variant { ident: "B", name: "Leaf", prefix: None, flatten: true, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }], Val::var(0, Val::Struct(vec![Val::s("5")]))), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 186, rust: "VarFlO", root: "VarFlO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(185))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(185))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(185))) }], Val::var(0, Val::var(0, Val::Struct(vec![Val::s("5")])))), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 187, rust: "VarFlS", root: "VarFlS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(185), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(185), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(185), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(186), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(185), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 188, rust: "Tagged", root: "Tagged", prefix: None, dns: None, nss: vec![], flatten: false, tag: Some("kind"), def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "C", name: "see", prefix: None, flatten: false, named: false, payload: None }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "tag" },
      Ty { id: 189, rust: "TaggedN", root: "tg", prefix: None, dns: None, nss: vec![], flatten: false, tag: Some("type"), def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "B", name: "b-b", prefix: None, flatten: false, named: false, payload: None }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "tag" },
      Ty { id: 190, rust: "TagIn", root: "TagIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(189), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "tag" },
      Ty { id: 191, rust: "TagNew", root: "TagNew", prefix: None, dns: None, nss: vec![], flatten: false, tag: Some("kind"), def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "S", name: "S", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "L", name: "l.l", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U8))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(7))) }, Variant { ident: "E", name: "E", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(12))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "tag" },
      Ty { id: 192, rust: "TagNewIn", root: "TagNewIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(191), default: None, skip: false, skip_if: None }, Field { ident: "S", name: "S", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(191), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "tag" },
      Ty { id: 193, rust: "Cross", root: "Cross", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "B", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "B", name: "A", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "N", name: "C", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "C", name: "N", prefix: None, flatten: false, named: false, payload: None }], Val::Var(2, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 194, rust: "Conf", root: "Conf", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "a", name: "a", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "ab", name: "a-b", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "n", name: "n", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "Conf", name: "Conf", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::U8))) }], Val::Var(3, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 195, rust: "EnNest", root: "EnNest", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "Z", name: "Z", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "S", name: "S", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(12))) }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(14))) }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(14))) }, Variant { ident: "K", name: "K", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(188))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(193))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 196, rust: "EnIn", root: "EnIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "enin" },
      Ty { id: 197, rust: "EnInT", root: "EnInT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(15), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(6), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "enin" },
      Ty { id: 198, rust: "EnInV", root: "EnInV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "U", name: "U", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "enin" },
      Ty { id: 199, rust: "EnSame", root: "EnSame", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "S", name: "S", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "N", name: "N", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "L", name: "L", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "enin" },
      Ty { id: 200, rust: "EnInC", root: "EnInC", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(193), default: None, skip: false, skip_if: None }, Field { ident: "A", name: "A", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(194), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "enin" },
      Ty { id: 201, rust: "EnInN", root: "EnInN", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "Z", name: "Z", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(195), default: None, skip: false, skip_if: None }, Field { ident: "S", name: "S", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "enin" },
      Ty { id: 202, rust: "NsA", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns io" },
      Ty { id: 203, rust: "NsB", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 204, rust: "NsIn", root: "in", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 205, rust: "NsOut", root: "out", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "i", name: "i", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(204), default: None, skip: false, skip_if: None }, Field { ident: "j", name: "j", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(204), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns io" },
      Ty { id: 206, rust: "NsAttr", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 207, rust: "NsLeaf", root: "leaf", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 208, rust: "NsDflt", root: "root", prefix: Some("n"), dns: Some("n"), nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(207), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 209, rust: "NsNone", root: "root", prefix: None, dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 210, rust: "NsTwoV", root: "root", prefix: Some("m"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "a2", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns list" },
      Ty { id: 211, rust: "NsShadIn", root: "in", prefix: None, dns: None, nss: vec![("n", "urn:other")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 212, rust: "NsShad", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "i", name: "i", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(211), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(204), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "ns" },
      Ty { id: 213, rust: "NsE", root: "ens", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "S", name: "S", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "L", name: "L", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "T", name: "T", prefix: Some("m"), flatten: false, named: false, payload: Some((Mult::One, Base::Ty(207))) }, Variant { ident: "V", name: "V", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(207))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "ns en" },
      Ty { id: 214, rust: "NsU", root: "nsu", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: Some("n"), flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "C", name: "C", prefix: Some("m"), flatten: false, named: false, payload: None }, Variant { ident: "D", name: "D", prefix: Some("m"), flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "E", name: "e.e", prefix: Some("m"), flatten: false, named: false, payload: None }], Val::Var(1, None)), ser: true, de: true, rt: true, groups: "ns en" },
      Ty { id: 215, rust: "NsUD", root: "nsu", prefix: Some("n"), dns: Some("n"), nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: Some("n"), flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "C", name: "C", prefix: Some("m"), flatten: false, named: false, payload: None }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "ns en" },
      Ty { id: 216, rust: "NsEnum", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(213), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 217, rust: "NsPrim", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "q", name: "q", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: Some("n"), kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 218, rust: "NsFlIn", root: "fin", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 219, rust: "NsFl", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(218), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 220, rust: "NsFlTw", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 221, rust: "NsFlP", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 222, rust: "NsFlPTw", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 223, rust: "NsFlPO", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(150), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 224, rust: "NsFlMIn", root: "fin", prefix: Some("m"), dns: None, nss: vec![("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 225, rust: "NsFlM", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(224), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 226, rust: "NsFlMTw", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "aa", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 227, rust: "NsFlQ", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(224), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 228, rust: "NsFlQTw", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "aa", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 229, rust: "NsFlRIn", root: "rin", prefix: None, dns: None, nss: vec![("k", "urn:k")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: Some("k"), kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(224), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 230, rust: "NsFlR", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(229), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 231, rust: "NsFlRTw", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m"), ("k", "urn:k")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: Some("k"), kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 232, rust: "NsFlRO", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(229), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(227), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns fl" },
      Ty { id: 233, rust: "NsFlRE", root: "fre", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: Some("n"), flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::One, Base::Ty(227))) }, Variant { ident: "C", name: "c-c", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::One, Base::Ty(230))) }, Variant { ident: "D", name: "D", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(232))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "ns en" },
      Ty { id: 234, rust: "NsDeep2", root: "d2", prefix: None, dns: None, nss: vec![("k", "urn:k")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: Some("k"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 235, rust: "NsDeep1", root: "d1", prefix: None, dns: None, nss: vec![("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(234), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 236, rust: "NsDeep", root: "d0", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(235), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 237, rust: "NsText", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 238, rust: "NsAmp", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:a&b")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: false, groups: "probe" },
      Ty { id: 239, rust: "NsUri", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "http://e.org/n/"), ("m", "http://e.org/n"), ("k", "http://e.org/N/")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "a", prefix: Some("k"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(240), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 240, rust: "NsUriIn", root: "d", prefix: Some("q"), dns: None, nss: vec![("q", "http://e.org/n/#")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("q"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 241, rust: "NsPre", root: "root", prefix: Some("nn"), dns: None, nss: vec![("n", "nn"), ("nn", "n"), ("n_n", "n-n"), ("k", "N")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: Some("nn"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "a", prefix: Some("n_n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "a", prefix: Some("k"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 242, rust: "NsT", root: "nst", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "C", name: "see", prefix: None, flatten: false, named: false, payload: None }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "ns en" },
      Ty { id: 243, rust: "NsAttrT", root: "NsAttrT", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(242), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "yy", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(215), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(242), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 244, rust: "NsAttrU", root: "root", prefix: Some("m"), dns: None, nss: vec![("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "t", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(242), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(215), default: None, skip: false, skip_if: None }, Field { ident: "z", name: "z", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(243), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 245, rust: "NsAttrV", root: "NsAttrV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "w", name: "w", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(242), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "ns" },
      Ty { id: 246, rust: "Gen<Leaf>", root: "gen", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 247, rust: "Gen<UnitE>", root: "gen", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 248, rust: "Gen<PrimI>", root: "gen", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 249, rust: "GenUse", root: "GenUse", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "g", name: "g", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(246), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(247), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 250, rust: "Mac", root: "Mac", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 251, rust: "Paths", root: "Paths", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "m", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 252, rust: "Outer", root: "Outer", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "r_type", name: "type", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "r_mod", name: "mod", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "r_self", name: "self", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 253, rust: "NsED", root: "ed", prefix: Some("n"), dns: Some("n"), nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: Some("n"), flatten: false, named: false, payload: None }, Variant { ident: "B", name: "bee", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "C", name: "c.c", prefix: Some("m"), flatten: false, named: false, payload: Some((Mult::One, Base::Ty(207))) }, Variant { ident: "D", name: "D", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "F", name: "ef", prefix: Some("n"), flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U16))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "ns en" },
      Ty { id: 254, rust: "NsDR", root: "dr", prefix: Some("n"), dns: Some("n"), nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "x-y", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "see", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(253), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "dee", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(253), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: Some("m"), kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 255, rust: "NsUn", root: "un", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m"), ("k", "urn:k")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(207), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 256, rust: "AttrV", root: "AttrV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "ids", name: "ids", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "aa", name: "aa", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "zz", name: "zz", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("4")), skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "" },
      Ty { id: 257, rust: "AttrVS", root: "AttrVS", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "sub", name: "sub", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(256), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "u", name: "u", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(256), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "" },
      Ty { id: 258, rust: "FlAIn2", root: "FlAIn2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "j", name: "j", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "m", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 259, rust: "FlTwoA", root: "FlTwoA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(153), default: None, skip: false, skip_if: None }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(258), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "fl" },
      Ty { id: 260, rust: "FlTwoATw", root: "FlTwoA", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "j", name: "j", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "m", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 261, rust: "Raw", root: "Raw", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "type", name: "type", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "mod", name: "mod", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "in", name: "in", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "for", name: "for", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "ref", name: "ref", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "use", name: "use", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("3")), skip: false, skip_if: None }, Field { ident: "match", name: "m-m", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name io" },
      Ty { id: 262, rust: "RawE", root: "RawE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "type", name: "type", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "fn", name: "fn", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "loop", name: "loop", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "box", name: "box", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Sc(Sc::U8))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "name en" },
      Ty { id: 263, rust: "RawT", root: "raw-t", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "as", name: "as", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(262), default: None, skip: false, skip_if: None }, Field { ident: "where", name: "where", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "dyn", name: "dyn", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }, Field { ident: "impl", name: "impl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: Some("never") }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 264, rust: "Vars", root: "Vars", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "reader", name: "reader", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "writer", name: "writer", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "depth", name: "depth", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "event", name: "event", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "name", name: "name", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "attributes", name: "attributes", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "value", name: "value", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "namespace", name: "namespace", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "buf", name: "buf", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name io" },
      Ty { id: 265, rust: "Vars2", root: "Vars2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "visitor", name: "visitor", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "result", name: "result", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "content", name: "content", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "item", name: "item", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "tag", name: "tag", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "skip", name: "skip", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: Some(Val::s("1")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "struct_start_event", name: "struct_start_event", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }, Field { ident: "yaserde_inner", name: "yaserde_inner", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 266, rust: "Vars3", root: "Vars3", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "start_depth", name: "start_depth", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "named_element", name: "named_element", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "struct_namespace", name: "struct_namespace", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "field_depth", name: "field_depth", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "unused_xml_elements", name: "unused_xml_elements", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(153), default: None, skip: false, skip_if: None }, Field { ident: "yaserde_value", name: "yaserde_value", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "text_content", name: "text_content", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "yaserde_item", name: "yaserde_item", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "label", name: "label", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 267, rust: "NoFlags", root: "NoFlags", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "attribute", name: "attribute", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "text", name: "text", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "cdata", name: "cdata", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "flatten", name: "flatten", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "default", name: "default", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "rename", name: "rename", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "prefix", name: "prefix", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 268, rust: "UseCust", root: "UseCust", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(30), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "list io" },
      Ty { id: 269, rust: "Gen2<Leaf, PrimI>", root: "gen2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 270, rust: "Turbo", root: "Turbo", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 271, rust: "Many", root: "Many", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "m00", name: "m00", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m01", name: "m01", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m02", name: "m02", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m03", name: "m03x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m04", name: "m04", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m05", name: "m05", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("true")), skip: false, skip_if: None }, Field { ident: "m06", name: "m06", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m07", name: "m07", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m08", name: "m08", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m09", name: "m09x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m10", name: "m10", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m11", name: "m11", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("true")), skip: false, skip_if: None }, Field { ident: "m12", name: "m12", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m13", name: "m13", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m14", name: "m14", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m15", name: "m15x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m16", name: "m16", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m17", name: "m17", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("true")), skip: false, skip_if: None }, Field { ident: "m18", name: "m18", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m19", name: "m19", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m20", name: "m20", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m21", name: "m21x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m22", name: "m22", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m23", name: "m23", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("true")), skip: false, skip_if: None }, Field { ident: "m24", name: "m24", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m25", name: "m25", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m26", name: "m26", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m27", name: "m27x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m28", name: "m28", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "m29", name: "m29", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: Some(Val::s("true")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 272, rust: "char", root: "char", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::Char), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 273, rust: "Buchar", root: "Buchar", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(272), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 274, rust: "BuEchar", root: "BuEchar", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(272))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(272))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(272))) }, Variant { ident: "M", name: "M", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(275))) }], Val::Var(0, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 275, rust: "BuEchar_M", root: "BuEchar_M", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "oo", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(272), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 276, rust: "usize", root: "usize", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::U64), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 277, rust: "Buusize", root: "Buusize", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(276), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 278, rust: "BuEusize", root: "BuEusize", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(276))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(276))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(276))) }, Variant { ident: "M", name: "M", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(279))) }], Val::Var(0, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 279, rust: "BuEusize_M", root: "BuEusize_M", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "oo", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(276), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 280, rust: "isize", root: "isize", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Prim(Sc::I64), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 281, rust: "Buisize", root: "Buisize", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "re-named", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(280), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 282, rust: "BuEisize", root: "BuEisize", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "N", name: "N", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "V", name: "V", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(280))) }, Variant { ident: "O", name: "O", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Ty(280))) }, Variant { ident: "W", name: "W", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(280))) }, Variant { ident: "M", name: "M", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(283))) }], Val::Var(0, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 283, rust: "BuEisize_M", root: "BuEisize_M", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "oo", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(280), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 284, rust: "BuFlIn", root: "BuFlIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(280), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 285, rust: "BuFl", root: "BuFl", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(284), default: None, skip: false, skip_if: None }, Field { ident: "g", name: "g", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(284), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(274), default: None, skip: false, skip_if: None }, Field { ident: "h", name: "h", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(278), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 286, rust: "BuNs", root: "root", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "c", name: "c", prefix: Some("n"), kind: Kind::Elem, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(276), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "i", name: "i", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(280), default: None, skip: false, skip_if: None }, Field { ident: "j", name: "j", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(280), default: None, skip: false, skip_if: Some("zero") }, Field { ident: "k", name: "x-y", prefix: Some("n"), kind: Kind::Elem, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 287, rust: "SimCase", root: "SimCase", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "A", name: "A", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "A", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name io" },
      Ty { id: 288, rust: "SimLists", root: "SimLists", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "li", name: "li", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "LI", name: "LI", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "lI", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "Li", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name list" },
      Ty { id: 289, rust: "SimPunct", root: "SimPunct", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "a.b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "a-b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a_b", name: "a_b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "aB", name: "aB", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "ab", name: "ab", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 290, rust: "SimNs", root: "SimNs", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a_b", name: "a_b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "aB", name: "aB", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n_a", name: "a-b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "A", name: "A", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "ns" },
      Ty { id: 291, rust: "SimE", root: "SimE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "a", name: "a", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "a_b", name: "a_b", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "aB", name: "aB", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::U8))) }, Variant { ident: "x", name: "a.b", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "y", name: "a-b", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }], Val::Var(1, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 292, rust: "SimUse", root: "SimUse", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(291), default: None, skip: false, skip_if: None }, Field { ident: "E", name: "E", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(291), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "_", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(291), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "S", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(289), default: None, skip: false, skip_if: None }, Field { ident: "S", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(287), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 293, rust: "GenI<Leaf, 3>", root: "geni", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 294, rust: "GenI<UnitE, 7>", root: "geni", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 295, rust: "GenIUse", root: "GenIUse", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(293), default: None, skip: false, skip_if: None }, Field { ident: "q", name: "q", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(294), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "r", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(293), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "gen" },
      Ty { id: 296, rust: "GenB<u32>", root: "genb", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 297, rust: "GenB<bool>", root: "genb", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 298, rust: "GenB<f64>", root: "genb", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 299, rust: "GenB<char>", root: "genb", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(272), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 300, rust: "GenB<LeafAT>", root: "genb", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(7), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(7), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(7), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 301, rust: "GenBUse", root: "GenBUse", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(296), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(299), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(300), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 302, rust: "NamedO", root: "NamedO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "U", name: "U", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(303))) }, Variant { ident: "B", name: "bb", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(304))) }], Val::Var(0, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 303, rust: "NamedO_A", root: "NamedO_A", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b-b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U16), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 304, rust: "NamedO_B", root: "NamedO_B", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }, Field { ident: "p", name: "p", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 305, rust: "NamedON", root: "nvo", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(306))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }], Val::Var(1, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 306, rust: "NamedON_A", root: "NamedON_A", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(207), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 307, rust: "NamedOIn", root: "NamedOIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(302), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(305), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(302), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 308, rust: "NamedV", root: "NamedV", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "U", name: "U", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(309))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(310))) }, Variant { ident: "C", name: "cc", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(311))) }, Variant { ident: "D", name: "D", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(312))) }], Val::Var(0, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 309, rust: "NamedV_A", root: "NamedV_A", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 310, rust: "NamedV_B", root: "NamedV_B", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "w", name: "w", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 311, rust: "NamedV_C", root: "NamedV_C", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "n", name: "x-y", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "mm", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 312, rust: "NamedV_D", root: "NamedV_D", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "reader", name: "reader", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "item", name: "item", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::F64), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 313, rust: "NamedN", root: "nv", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(314))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: None }], Val::Var(1, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 314, rust: "NamedN_A", root: "NamedN_A", prefix: Some("n"), dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::One, base: Base::Ty(207), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 315, rust: "NamedW", root: "NamedW", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "U", name: "U", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "A", name: "A", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(316))) }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: true, payload: Some((Mult::One, Base::Ty(317))) }], Val::Var(0, None)), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 316, rust: "NamedW_A", root: "NamedW_A", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "i", name: "i", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(96), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(154), default: None, skip: false, skip_if: None }, Field { ident: "o", name: "o", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "r", name: "r", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "t", name: "t", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(94), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 317, rust: "NamedW_B", root: "NamedW_B", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(195), default: None, skip: false, skip_if: None }, Field { ident: "y", name: "y", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(7), default: None, skip: false, skip_if: None }]), ser: false, de: false, rt: false, groups: "" },
      Ty { id: 318, rust: "NamedWIn", root: "NamedWIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(315), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(315), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(94), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 319, rust: "NamedIn", root: "NamedIn", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(308), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(308), default: None, skip: false, skip_if: None }, Field { ident: "c", name: "c", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(308), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: false, rt: false, groups: "" },
      Ty { id: 320, rust: "Alias", root: "Alias", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "k", name: "k", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "m", name: "m", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "l", name: "l", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "e", name: "e", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "d", name: "d", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U8), default: Some(Val::s("2")), skip: false, skip_if: None }, Field { ident: "f", name: "f", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(150), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "name" },
      Ty { id: 321, rust: "AliasE", root: "AliasE", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Enum(vec![Variant { ident: "A", name: "A", prefix: None, flatten: false, named: false, payload: None }, Variant { ident: "B", name: "B", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Sc(Sc::Str))) }, Variant { ident: "C", name: "C", prefix: None, flatten: false, named: false, payload: Some((Mult::Vec, Base::Ty(0))) }, Variant { ident: "D", name: "D", prefix: None, flatten: false, named: false, payload: Some((Mult::Opt, Base::Sc(Sc::U8))) }, Variant { ident: "E", name: "E", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }], Val::Var(0, None)), ser: true, de: true, rt: true, groups: "en" },
      Ty { id: 322, rust: "PrF", root: "PrF", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 323, rust: "PrG", root: "PrG", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 324, rust: "PrO", root: "PrO", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "oa", name: "oa", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "ob", name: "ob", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "oc", name: "oc", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(10), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 325, rust: "PrE", root: "PrE", prefix: None, dns: None, nss: vec![], flatten: true, tag: None, def: Def::Enum(vec![Variant { ident: "Ea", name: "Ea", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(4))) }, Variant { ident: "Ed", name: "Ed", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(0))) }, Variant { ident: "Ex", name: "Ex", prefix: None, flatten: false, named: false, payload: Some((Mult::One, Base::Ty(7))) }], Val::var(1, Val::Struct(vec![Val::s("a")]))), ser: true, de: true, rt: true, groups: "" },
      Ty { id: 326, rust: "Pr0", root: "Pr0", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 327, rust: "Pr1", root: "Pr1", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 328, rust: "Pr2", root: "Pr2", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 329, rust: "Pr3", root: "Pr3", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 330, rust: "Pr4", root: "Pr4", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 331, rust: "Pr5", root: "Pr5", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 332, rust: "Pr6", root: "Pr6", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "r-v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 333, rust: "Pr7", root: "Pr7", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "r-b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 334, rust: "Pr8", root: "Pr8", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "r-n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 335, rust: "Pr9", root: "Pr9", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "u.s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 336, rust: "Pr9Tw", root: "Pr9", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "u.s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 337, rust: "Pr10", root: "Pr10", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 338, rust: "Pr10Tw", root: "Pr10", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 339, rust: "Pr11", root: "Pr11", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 340, rust: "Pr12", root: "Pr12", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 341, rust: "Pr13", root: "Pr13", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 342, rust: "Pr14", root: "Pr14", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 343, rust: "Pr15", root: "Pr15", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "r-n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 344, rust: "Pr16", root: "Pr16", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 345, rust: "Pr17", root: "Pr17", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 346, rust: "Pr18", root: "Pr18", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "r-s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 347, rust: "Pr19", root: "Pr19", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "u.a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 348, rust: "Pr20", root: "Pr20", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 349, rust: "Pr21", root: "Pr21", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "u.x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 350, rust: "Pr22", root: "Pr22", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 351, rust: "Pr23", root: "Pr23", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "r-n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 352, rust: "Pr24", root: "Pr24", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 353, rust: "Pr24Tw", root: "Pr24", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 354, rust: "Pr25", root: "Pr25", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 355, rust: "Pr25Tw", root: "Pr25", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 356, rust: "Pr26", root: "Pr26", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 357, rust: "Pr27", root: "Pr27", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 358, rust: "Pr28", root: "Pr28", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 359, rust: "Pr29", root: "Pr29", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 360, rust: "Pr30", root: "Pr30", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 361, rust: "Pr31", root: "Pr31", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 362, rust: "Pr32", root: "Pr32", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 363, rust: "Pr33", root: "Pr33", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 364, rust: "Pr34", root: "Pr34", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "u.a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 365, rust: "Pr35", root: "Pr35", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "u.v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 366, rust: "Pr36", root: "Pr36", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 367, rust: "Pr36Tw", root: "Pr36", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 368, rust: "Pr37", root: "Pr37", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 369, rust: "Pr38", root: "Pr38", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "u.v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 370, rust: "Pr38Tw", root: "Pr38", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "u.v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 371, rust: "Pr39", root: "Pr39", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 372, rust: "Pr39Tw", root: "Pr39", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 373, rust: "Pr40", root: "Pr40", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "r-b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 374, rust: "Pr41", root: "Pr41", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 375, rust: "Pr42", root: "Pr42", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 376, rust: "Pr42Tw", root: "Pr42", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 377, rust: "Pr43", root: "Pr43", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 378, rust: "Pr44", root: "Pr44", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "u.a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "r-x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "u.v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 379, rust: "Pr45", root: "Pr45", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 380, rust: "Pr46", root: "Pr46", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 381, rust: "Pr47", root: "Pr47", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "r-x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 382, rust: "Pr48", root: "Pr48", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 383, rust: "Pr49", root: "Pr49", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 384, rust: "Pr50", root: "Pr50", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 385, rust: "Pr51", root: "Pr51", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 386, rust: "Pr51Tw", root: "Pr51", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 387, rust: "Pr52", root: "Pr52", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 388, rust: "Pr53", root: "Pr53", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 389, rust: "Pr54", root: "Pr54", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 390, rust: "Pr54Tw", root: "Pr54", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 391, rust: "Pr55", root: "Pr55", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "u.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 392, rust: "Pr55Tw", root: "Pr55", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "u.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 393, rust: "Pr56", root: "Pr56", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 394, rust: "Pr56Tw", root: "Pr56", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 395, rust: "Pr57", root: "Pr57", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "u.x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 396, rust: "Pr58", root: "Pr58", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 397, rust: "Pr59", root: "Pr59", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 398, rust: "Pr60", root: "Pr60", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 399, rust: "Pr60Tw", root: "Pr60", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 400, rust: "Pr61", root: "Pr61", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "u.n", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 401, rust: "Pr61Tw", root: "Pr61", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "u.n", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 402, rust: "Pr62", root: "Pr62", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "u.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 403, rust: "Pr63", root: "Pr63", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 404, rust: "Pr63Tw", root: "Pr63", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 405, rust: "Pr64", root: "Pr64", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "b", name: "u.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 406, rust: "Pr65", root: "Pr65", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 407, rust: "Pr65Tw", root: "Pr65", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 408, rust: "Pr66", root: "Pr66", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 409, rust: "Pr66Tw", root: "Pr66", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 410, rust: "Pr67", root: "Pr67", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 411, rust: "Pr68", root: "Pr68", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 412, rust: "Pr69", root: "Pr69", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "r-x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 413, rust: "Pr70", root: "Pr70", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 414, rust: "Pr71", root: "Pr71", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 415, rust: "Pr71Tw", root: "Pr71", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 416, rust: "Pr72", root: "Pr72", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 417, rust: "Pr73", root: "Pr73", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 418, rust: "Pr73Tw", root: "Pr73", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 419, rust: "Pr74", root: "Pr74", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 420, rust: "Pr75", root: "Pr75", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 421, rust: "Pr76", root: "Pr76", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 422, rust: "Pr77", root: "Pr77", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 423, rust: "Pr78", root: "Pr78", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 424, rust: "Pr78Tw", root: "Pr78", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 425, rust: "Pr79", root: "Pr79", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "r-x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 426, rust: "Pr79Tw", root: "Pr79", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "r-x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 427, rust: "Pr80", root: "Pr80", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 428, rust: "Pr81", root: "Pr81", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 429, rust: "Pr82", root: "Pr82", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 430, rust: "Pr83", root: "Pr83", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 431, rust: "Pr84", root: "Pr84", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 432, rust: "Pr85", root: "Pr85", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 433, rust: "Pr86", root: "Pr86", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 434, rust: "Pr86Tw", root: "Pr86", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 435, rust: "Pr87", root: "Pr87", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "s", name: "s", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 436, rust: "Pr88", root: "Pr88", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 437, rust: "Pr89", root: "Pr89", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 438, rust: "Pr90", root: "Pr90", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 439, rust: "Pr91", root: "Pr91", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 440, rust: "Pr92", root: "Pr92", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "b", name: "u.b", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "r-n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 441, rust: "Pr93", root: "Pr93", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "r-v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 442, rust: "Pr94", root: "Pr94", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "v", name: "r-v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 443, rust: "Pr95", root: "Pr95", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "u.s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 444, rust: "Pr96", root: "Pr96", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "u.s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 445, rust: "Pr97", root: "Pr97", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 446, rust: "Pr97Tw", root: "Pr97", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::I64), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "pi", name: "pi", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "pc", name: "pc", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "pl", name: "pl", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 447, rust: "Pr98", root: "Pr98", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "r-n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("7")), skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 448, rust: "Pr99", root: "Pr99", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 449, rust: "Pr100", root: "Pr100", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 450, rust: "Pr100Tw", root: "Pr100", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 451, rust: "Pr101", root: "Pr101", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(10), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 452, rust: "Pr102", root: "Pr102", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 453, rust: "Pr103", root: "Pr103", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 454, rust: "Pr104", root: "Pr104", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Text, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 455, rust: "Pr105", root: "Pr105", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(323), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 456, rust: "Pr105Tw", root: "Pr105", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(17), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: Some("n"), kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "qi", name: "qi", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: None, skip: false, skip_if: None }, Field { ident: "qc", name: "qc", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "qs", name: "qs", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 457, rust: "Pr106", root: "Pr106", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "u.v", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 458, rust: "Pr107", root: "Pr107", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(188), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Cdata, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 459, rust: "Pr108", root: "Pr108", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "r-a", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(325), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "u.s", prefix: None, kind: Kind::Attr, mult: Mult::Opt, base: Base::Ty(12), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Bool), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 460, rust: "Pr109", root: "Pr109", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::I32), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 461, rust: "Pr110", root: "Pr110", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(4), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(23), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 462, rust: "Pr111", root: "Pr111", prefix: None, dns: None, nss: vec![("n", "urn:n"), ("m", "urn:m")], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: Some("m"), kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(0), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 463, rust: "Pr112", root: "Pr112", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Flatten, mult: Mult::One, base: Base::Ty(322), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: Some(Val::s("")), skip: false, skip_if: Some("empty") }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(14), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
      Ty { id: 464, rust: "Pr113", root: "Pr113", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Flatten, mult: Mult::Opt, base: Base::Ty(324), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 465, rust: "Pr114", root: "Pr114", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Elem, mult: Mult::Vec, base: Base::Ty(0), default: None, skip: false, skip_if: Some("empty") }, Field { ident: "x", name: "r-x", prefix: None, kind: Kind::Elem, mult: Mult::Opt, base: Base::Ty(11), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(18), default: None, skip: false, skip_if: None }]), ser: true, de: true, rt: true, groups: "pair" },
      Ty { id: 466, rust: "Pr115", root: "Pr115", prefix: None, dns: None, nss: vec![], flatten: false, tag: None, def: Def::Struct(vec![Field { ident: "a", name: "a", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }, Field { ident: "b", name: "b", prefix: None, kind: Kind::Attr, mult: Mult::Vec, base: Base::Sc(Sc::U8), default: None, skip: false, skip_if: None }, Field { ident: "n", name: "n", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::U32), default: Some(Val::s("0")), skip: false, skip_if: Some("zero") }, Field { ident: "s", name: "s", prefix: None, kind: Kind::Attr, mult: Mult::One, base: Base::Sc(Sc::I16), default: Some(Val::s("-3")), skip: false, skip_if: None }, Field { ident: "x", name: "x", prefix: None, kind: Kind::Elem, mult: Mult::One, base: Base::Ty(95), default: None, skip: false, skip_if: None }, Field { ident: "v", name: "v", prefix: None, kind: Kind::Text, mult: Mult::One, base: Base::Sc(Sc::Str), default: None, skip: false, skip_if: None }]), ser: false, de: true, rt: false, groups: "pair" },
    ],
  }
}

pub fn ops() -> Vec<Ops> {
  vec![
    Ops { de: Some(de::<Leaf>), de_r: Some(de_r::<Leaf>), ser: Some(ser::<Leaf>), ser_c: Some(ser_c::<Leaf>), ser_content: Some(ser_content::<Leaf>), ser_w: Some(ser_w::<Leaf>), ser_cw: Some(ser_cw::<Leaf>) },
    Ops { de: Some(de::<LeafN>), de_r: None, ser: Some(ser::<LeafN>), ser_c: Some(ser_c::<LeafN>), ser_content: Some(ser_content::<LeafN>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<LeafO>), de_r: None, ser: Some(ser::<LeafO>), ser_c: Some(ser_c::<LeafO>), ser_content: Some(ser_content::<LeafO>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<LeafV>), de_r: None, ser: Some(ser::<LeafV>), ser_c: Some(ser_c::<LeafV>), ser_content: Some(ser_content::<LeafV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<LeafA>), de_r: Some(de_r::<LeafA>), ser: Some(ser::<LeafA>), ser_c: Some(ser_c::<LeafA>), ser_content: Some(ser_content::<LeafA>), ser_w: Some(ser_w::<LeafA>), ser_cw: Some(ser_cw::<LeafA>) },
    Ops { de: Some(de::<LeafAS>), de_r: None, ser: Some(ser::<LeafAS>), ser_c: Some(ser_c::<LeafAS>), ser_content: Some(ser_content::<LeafAS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<LeafT>), de_r: Some(de_r::<LeafT>), ser: Some(ser::<LeafT>), ser_c: Some(ser_c::<LeafT>), ser_content: Some(ser_content::<LeafT>), ser_w: Some(ser_w::<LeafT>), ser_cw: Some(ser_cw::<LeafT>) },
    Ops { de: Some(de::<LeafAT>), de_r: None, ser: Some(ser::<LeafAT>), ser_c: Some(ser_c::<LeafAT>), ser_content: Some(ser_content::<LeafAT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<LeafOT>), de_r: None, ser: Some(ser::<LeafOT>), ser_c: Some(ser_c::<LeafOT>), ser_content: Some(ser_content::<LeafOT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Empty>), de_r: None, ser: Some(ser::<Empty>), ser_c: Some(ser_c::<Empty>), ser_content: Some(ser_content::<Empty>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Two>), de_r: Some(de_r::<Two>), ser: Some(ser::<Two>), ser_c: Some(ser_c::<Two>), ser_content: Some(ser_content::<Two>), ser_w: Some(ser_w::<Two>), ser_cw: Some(ser_cw::<Two>) },
    Ops { de: Some(de::<ANode>), de_r: None, ser: Some(ser::<ANode>), ser_c: Some(ser_c::<ANode>), ser_content: Some(ser_content::<ANode>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<UnitE>), de_r: Some(de_r::<UnitE>), ser: Some(ser::<UnitE>), ser_c: Some(ser_c::<UnitE>), ser_content: Some(ser_content::<UnitE>), ser_w: Some(ser_w::<UnitE>), ser_cw: Some(ser_cw::<UnitE>) },
    Ops { de: Some(de::<UnitD>), de_r: None, ser: Some(ser::<UnitD>), ser_c: Some(ser_c::<UnitD>), ser_content: Some(ser_content::<UnitD>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NewE>), de_r: Some(de_r::<NewE>), ser: Some(ser::<NewE>), ser_c: Some(ser_c::<NewE>), ser_content: Some(ser_content::<NewE>), ser_w: Some(ser_w::<NewE>), ser_cw: Some(ser_cw::<NewE>) },
    Ops { de: Some(de::<NewT>), de_r: None, ser: Some(ser::<NewT>), ser_c: Some(ser_c::<NewT>), ser_content: Some(ser_content::<NewT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NewA>), de_r: None, ser: Some(ser::<NewA>), ser_c: Some(ser_c::<NewA>), ser_content: Some(ser_content::<NewA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrimS>), de_r: None, ser: Some(ser::<PrimS>), ser_c: Some(ser_c::<PrimS>), ser_content: Some(ser_content::<PrimS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrimI>), de_r: None, ser: Some(ser::<PrimI>), ser_c: Some(ser_c::<PrimI>), ser_content: Some(ser_content::<PrimI>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrimU>), de_r: None, ser: Some(ser::<PrimU>), ser_c: Some(ser_c::<PrimU>), ser_content: Some(ser_content::<PrimU>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrimB>), de_r: None, ser: Some(ser::<PrimB>), ser_c: Some(ser_c::<PrimB>), ser_content: Some(ser_content::<PrimB>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrimF>), de_r: None, ser: Some(ser::<PrimF>), ser_c: Some(ser_c::<PrimF>), ser_content: Some(ser_content::<PrimF>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrimL>), de_r: None, ser: Some(ser::<PrimL>), ser_c: Some(ser_c::<PrimL>), ser_content: Some(ser_content::<PrimL>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Hex8>), de_r: None, ser: Some(ser::<Hex8>), ser_c: Some(ser_c::<Hex8>), ser_content: Some(ser_content::<Hex8>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Hex16>), de_r: None, ser: Some(ser::<Hex16>), ser_c: Some(ser_c::<Hex16>), ser_content: Some(ser_content::<Hex16>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Hex32>), de_r: None, ser: Some(ser::<Hex32>), ser_c: Some(ser_c::<Hex32>), ser_content: Some(ser_content::<Hex32>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Hex64>), de_r: None, ser: Some(ser::<Hex64>), ser_c: Some(ser_c::<Hex64>), ser_content: Some(ser_content::<Hex64>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<HexM>), de_r: None, ser: Some(ser::<HexM>), ser_c: Some(ser_c::<HexM>), ser_content: Some(ser_content::<HexM>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<DefI>), de_r: None, ser: Some(ser::<DefI>), ser_c: Some(ser_c::<DefI>), ser_content: Some(ser_content::<DefI>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<DefS>), de_r: None, ser: Some(ser::<DefS>), ser_c: Some(ser_c::<DefS>), ser_content: Some(ser_content::<DefS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Cust>), de_r: None, ser: Some(ser::<Cust>), ser_c: Some(ser_c::<Cust>), ser_content: Some(ser_content::<Cust>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosPrimS>), de_r: None, ser: Some(ser::<PosPrimS>), ser_c: Some(ser_c::<PosPrimS>), ser_content: Some(ser_content::<PosPrimS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVPrimS>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEPrimS>), de_r: None, ser: Some(ser::<PosEPrimS>), ser_c: Some(ser_c::<PosEPrimS>), ser_content: Some(ser_content::<PosEPrimS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosPrimI>), de_r: None, ser: Some(ser::<PosPrimI>), ser_c: Some(ser_c::<PosPrimI>), ser_content: Some(ser_content::<PosPrimI>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVPrimI>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEPrimI>), de_r: None, ser: Some(ser::<PosEPrimI>), ser_c: Some(ser_c::<PosEPrimI>), ser_content: Some(ser_content::<PosEPrimI>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosPrimU>), de_r: None, ser: Some(ser::<PosPrimU>), ser_c: Some(ser_c::<PosPrimU>), ser_content: Some(ser_content::<PosPrimU>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVPrimU>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEPrimU>), de_r: None, ser: Some(ser::<PosEPrimU>), ser_c: Some(ser_c::<PosEPrimU>), ser_content: Some(ser_content::<PosEPrimU>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosPrimB>), de_r: None, ser: Some(ser::<PosPrimB>), ser_c: Some(ser_c::<PosPrimB>), ser_content: Some(ser_content::<PosPrimB>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVPrimB>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEPrimB>), de_r: None, ser: Some(ser::<PosEPrimB>), ser_c: Some(ser_c::<PosEPrimB>), ser_content: Some(ser_content::<PosEPrimB>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosPrimF>), de_r: None, ser: Some(ser::<PosPrimF>), ser_c: Some(ser_c::<PosPrimF>), ser_content: Some(ser_content::<PosPrimF>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVPrimF>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEPrimF>), de_r: None, ser: Some(ser::<PosEPrimF>), ser_c: Some(ser_c::<PosEPrimF>), ser_content: Some(ser_content::<PosEPrimF>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosPrimL>), de_r: None, ser: Some(ser::<PosPrimL>), ser_c: Some(ser_c::<PosPrimL>), ser_content: Some(ser_content::<PosPrimL>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVPrimL>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEPrimL>), de_r: None, ser: Some(ser::<PosEPrimL>), ser_c: Some(ser_c::<PosEPrimL>), ser_content: Some(ser_content::<PosEPrimL>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosHex8>), de_r: None, ser: Some(ser::<PosHex8>), ser_c: Some(ser_c::<PosHex8>), ser_content: Some(ser_content::<PosHex8>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVHex8>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEHex8>), de_r: None, ser: Some(ser::<PosEHex8>), ser_c: Some(ser_c::<PosEHex8>), ser_content: Some(ser_content::<PosEHex8>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosHex16>), de_r: None, ser: Some(ser::<PosHex16>), ser_c: Some(ser_c::<PosHex16>), ser_content: Some(ser_content::<PosHex16>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVHex16>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEHex16>), de_r: None, ser: Some(ser::<PosEHex16>), ser_c: Some(ser_c::<PosEHex16>), ser_content: Some(ser_content::<PosEHex16>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosHex32>), de_r: None, ser: Some(ser::<PosHex32>), ser_c: Some(ser_c::<PosHex32>), ser_content: Some(ser_content::<PosHex32>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVHex32>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEHex32>), de_r: None, ser: Some(ser::<PosEHex32>), ser_c: Some(ser_c::<PosEHex32>), ser_content: Some(ser_content::<PosEHex32>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosHex64>), de_r: None, ser: Some(ser::<PosHex64>), ser_c: Some(ser_c::<PosHex64>), ser_content: Some(ser_content::<PosHex64>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVHex64>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEHex64>), de_r: None, ser: Some(ser::<PosEHex64>), ser_c: Some(ser_c::<PosEHex64>), ser_content: Some(ser_content::<PosEHex64>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosHexM>), de_r: None, ser: Some(ser::<PosHexM>), ser_c: Some(ser_c::<PosHexM>), ser_content: Some(ser_content::<PosHexM>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVHexM>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEHexM>), de_r: None, ser: Some(ser::<PosEHexM>), ser_c: Some(ser_c::<PosEHexM>), ser_content: Some(ser_content::<PosEHexM>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosDefI>), de_r: None, ser: Some(ser::<PosDefI>), ser_c: Some(ser_c::<PosDefI>), ser_content: Some(ser_content::<PosDefI>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVDefI>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEDefI>), de_r: None, ser: Some(ser::<PosEDefI>), ser_c: Some(ser_c::<PosEDefI>), ser_content: Some(ser_content::<PosEDefI>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosDefS>), de_r: None, ser: Some(ser::<PosDefS>), ser_c: Some(ser_c::<PosDefS>), ser_content: Some(ser_content::<PosDefS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVDefS>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosEDefS>), de_r: None, ser: Some(ser::<PosEDefS>), ser_c: Some(ser_c::<PosEDefS>), ser_content: Some(ser_content::<PosEDefS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosCust>), de_r: None, ser: Some(ser::<PosCust>), ser_c: Some(ser_c::<PosCust>), ser_content: Some(ser_content::<PosCust>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosVCust>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PosECust>), de_r: None, ser: Some(ser::<PosECust>), ser_c: Some(ser_c::<PosECust>), ser_content: Some(ser_content::<PosECust>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SScal>), de_r: None, ser: Some(ser::<SScal>), ser_c: Some(ser_c::<SScal>), ser_content: Some(ser_content::<SScal>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SScalA>), de_r: None, ser: Some(ser::<SScalA>), ser_c: Some(ser_c::<SScalA>), ser_content: Some(ser_content::<SScalA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<OScal>), de_r: None, ser: Some(ser::<OScal>), ser_c: Some(ser_c::<OScal>), ser_content: Some(ser_content::<OScal>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<OScalA>), de_r: None, ser: Some(ser::<OScalA>), ser_c: Some(ser_c::<OScalA>), ser_content: Some(ser_content::<OScalA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<VScal>), de_r: None, ser: Some(ser::<VScal>), ser_c: Some(ser_c::<VScal>), ser_content: Some(ser_content::<VScal>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<VScalA>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EScal>), de_r: None, ser: Some(ser::<EScal>), ser_c: Some(ser_c::<EScal>), ser_content: Some(ser_content::<EScal>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EOScal>), de_r: None, ser: Some(ser::<EOScal>), ser_c: Some(ser_c::<EOScal>), ser_content: Some(ser_content::<EOScal>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EVScal>), de_r: None, ser: Some(ser::<EVScal>), ser_c: Some(ser_c::<EVScal>), ser_content: Some(ser_content::<EVScal>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<STypes>), de_r: None, ser: Some(ser::<STypes>), ser_c: Some(ser_c::<STypes>), ser_content: Some(ser_content::<STypes>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<OTypes>), de_r: Some(de_r::<OTypes>), ser: Some(ser::<OTypes>), ser_c: Some(ser_c::<OTypes>), ser_content: Some(ser_content::<OTypes>), ser_w: Some(ser_w::<OTypes>), ser_cw: Some(ser_cw::<OTypes>) },
    Ops { de: Some(de::<VTypes>), de_r: None, ser: Some(ser::<VTypes>), ser_c: Some(ser_c::<VTypes>), ser_content: Some(ser_content::<VTypes>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<ATypes>), de_r: None, ser: Some(ser::<ATypes>), ser_c: Some(ser_c::<ATypes>), ser_content: Some(ser_content::<ATypes>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<OATypes>), de_r: None, ser: Some(ser::<OATypes>), ser_c: Some(ser_c::<OATypes>), ser_content: Some(ser_content::<OATypes>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<VATypes>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Mixed>), de_r: Some(de_r::<Mixed>), ser: Some(ser::<Mixed>), ser_c: Some(ser_c::<Mixed>), ser_content: Some(ser_content::<Mixed>), ser_w: Some(ser_w::<Mixed>), ser_cw: Some(ser_cw::<Mixed>) },
    Ops { de: Some(de::<MixedT>), de_r: Some(de_r::<MixedT>), ser: Some(ser::<MixedT>), ser_c: Some(ser_c::<MixedT>), ser_content: Some(ser_content::<MixedT>), ser_w: Some(ser_w::<MixedT>), ser_cw: Some(ser_cw::<MixedT>) },
    Ops { de: Some(de::<TwoV>), de_r: Some(de_r::<TwoV>), ser: Some(ser::<TwoV>), ser_c: Some(ser_c::<TwoV>), ser_content: Some(ser_content::<TwoV>), ser_w: Some(ser_w::<TwoV>), ser_cw: Some(ser_cw::<TwoV>) },
    Ops { de: Some(de::<TwoVS>), de_r: None, ser: Some(ser::<TwoVS>), ser_c: Some(ser_c::<TwoVS>), ser_content: Some(ser_content::<TwoVS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<VEnum>), de_r: None, ser: Some(ser::<VEnum>), ser_c: Some(ser_c::<VEnum>), ser_content: Some(ser_content::<VEnum>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<ThreeV>), de_r: None, ser: Some(ser::<ThreeV>), ser_c: Some(ser_c::<ThreeV>), ser_content: Some(ser_content::<ThreeV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Deep3>), de_r: None, ser: Some(ser::<Deep3>), ser_c: Some(ser_c::<Deep3>), ser_content: Some(ser_content::<Deep3>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Deep2>), de_r: None, ser: Some(ser::<Deep2>), ser_c: Some(ser_c::<Deep2>), ser_content: Some(ser_content::<Deep2>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Deep1>), de_r: Some(de_r::<Deep1>), ser: Some(ser::<Deep1>), ser_c: Some(ser_c::<Deep1>), ser_content: Some(ser_content::<Deep1>), ser_w: Some(ser_w::<Deep1>), ser_cw: Some(ser_cw::<Deep1>) },
    Ops { de: Some(de::<Rec>), de_r: Some(de_r::<Rec>), ser: Some(ser::<Rec>), ser_c: Some(ser_c::<Rec>), ser_content: Some(ser_content::<Rec>), ser_w: Some(ser_w::<Rec>), ser_cw: Some(ser_cw::<Rec>) },
    Ops { de: Some(de::<RecA>), de_r: Some(de_r::<RecA>), ser: Some(ser::<RecA>), ser_c: Some(ser_c::<RecA>), ser_content: Some(ser_content::<RecA>), ser_w: Some(ser_w::<RecA>), ser_cw: Some(ser_cw::<RecA>) },
    Ops { de: Some(de::<RecF>), de_r: Some(de_r::<RecF>), ser: Some(ser::<RecF>), ser_c: Some(ser_c::<RecF>), ser_content: Some(ser_content::<RecF>), ser_w: Some(ser_w::<RecF>), ser_cw: Some(ser_cw::<RecF>) },
    Ops { de: Some(de::<RecFIn>), de_r: None, ser: Some(ser::<RecFIn>), ser_c: Some(ser_c::<RecFIn>), ser_content: Some(ser_content::<RecFIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RecM>), de_r: Some(de_r::<RecM>), ser: Some(ser::<RecM>), ser_c: Some(ser_c::<RecM>), ser_content: Some(ser_content::<RecM>), ser_w: Some(ser_w::<RecM>), ser_cw: Some(ser_cw::<RecM>) },
    Ops { de: Some(de::<RecN>), de_r: Some(de_r::<RecN>), ser: Some(ser::<RecN>), ser_c: Some(ser_c::<RecN>), ser_content: Some(ser_content::<RecN>), ser_w: Some(ser_w::<RecN>), ser_cw: Some(ser_cw::<RecN>) },
    Ops { de: Some(de::<RecP>), de_r: Some(de_r::<RecP>), ser: Some(ser::<RecP>), ser_c: Some(ser_c::<RecP>), ser_content: Some(ser_content::<RecP>), ser_w: Some(ser_w::<RecP>), ser_cw: Some(ser_cw::<RecP>) },
    Ops { de: Some(de::<RecK>), de_r: Some(de_r::<RecK>), ser: Some(ser::<RecK>), ser_c: Some(ser_c::<RecK>), ser_content: Some(ser_content::<RecK>), ser_w: Some(ser_w::<RecK>), ser_cw: Some(ser_cw::<RecK>) },
    Ops { de: Some(de::<RecNs>), de_r: None, ser: Some(ser::<RecNs>), ser_c: Some(ser_c::<RecNs>), ser_content: Some(ser_content::<RecNs>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RecE>), de_r: Some(de_r::<RecE>), ser: Some(ser::<RecE>), ser_c: Some(ser_c::<RecE>), ser_content: Some(ser_content::<RecE>), ser_w: Some(ser_w::<RecE>), ser_cw: Some(ser_cw::<RecE>) },
    Ops { de: Some(de::<SameRoot>), de_r: None, ser: Some(ser::<SameRoot>), ser_c: Some(ser_c::<SameRoot>), ser_content: Some(ser_content::<SameRoot>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RootField>), de_r: Some(de_r::<RootField>), ser: Some(ser::<RootField>), ser_c: Some(ser_c::<RootField>), ser_content: Some(ser_content::<RootField>), ser_w: Some(ser_w::<RootField>), ser_cw: Some(ser_cw::<RootField>) },
    Ops { de: Some(de::<RootFieldS>), de_r: None, ser: Some(ser::<RootFieldS>), ser_c: Some(ser_c::<RootFieldS>), ser_content: Some(ser_content::<RootFieldS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RootFieldV>), de_r: None, ser: Some(ser::<RootFieldV>), ser_c: Some(ser_c::<RootFieldV>), ser_content: Some(ser_content::<RootFieldV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<InnerN>), de_r: None, ser: Some(ser::<InnerN>), ser_c: Some(ser_c::<InnerN>), ser_content: Some(ser_content::<InnerN>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<OuterN>), de_r: None, ser: Some(ser::<OuterN>), ser_c: Some(ser_c::<OuterN>), ser_content: Some(ser_content::<OuterN>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SwapIn>), de_r: None, ser: Some(ser::<SwapIn>), ser_c: Some(ser_c::<SwapIn>), ser_content: Some(ser_content::<SwapIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SwapOut>), de_r: None, ser: Some(ser::<SwapOut>), ser_c: Some(ser_c::<SwapOut>), ser_content: Some(ser_content::<SwapOut>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Case>), de_r: None, ser: Some(ser::<Case>), ser_c: Some(ser_c::<Case>), ser_content: Some(ser_content::<Case>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Renamed>), de_r: None, ser: Some(ser::<Renamed>), ser_c: Some(ser_c::<Renamed>), ser_content: Some(ser_content::<Renamed>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Swapped>), de_r: None, ser: Some(ser::<Swapped>), ser_c: Some(ser_c::<Swapped>), ser_content: Some(ser_content::<Swapped>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<AttrElem>), de_r: None, ser: Some(ser::<AttrElem>), ser_c: Some(ser_c::<AttrElem>), ser_content: Some(ser_content::<AttrElem>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<AttrElemS>), de_r: None, ser: Some(ser::<AttrElemS>), ser_c: Some(ser_c::<AttrElemS>), ser_content: Some(ser_content::<AttrElemS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Under>), de_r: None, ser: Some(ser::<Under>), ser_c: Some(ser_c::<Under>), ser_content: Some(ser_content::<Under>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Uni>), de_r: None, ser: Some(ser::<Uni>), ser_c: Some(ser_c::<Uni>), ser_content: Some(ser_content::<Uni>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<TextOnlyO>), de_r: None, ser: Some(ser::<TextOnlyO>), ser_c: Some(ser_c::<TextOnlyO>), ser_content: Some(ser_content::<TextOnlyO>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<TextKids>), de_r: None, ser: Some(ser::<TextKids>), ser_c: Some(ser_c::<TextKids>), ser_content: Some(ser_content::<TextKids>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<CData>), de_r: Some(de_r::<CData>), ser: Some(ser::<CData>), ser_c: Some(ser_c::<CData>), ser_content: Some(ser_content::<CData>), ser_w: Some(ser_w::<CData>), ser_cw: Some(ser_cw::<CData>) },
    Ops { de: Some(de::<CData2>), de_r: None, ser: Some(ser::<CData2>), ser_c: Some(ser_c::<CData2>), ser_content: Some(ser_content::<CData2>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Strs>), de_r: Some(de_r::<Strs>), ser: Some(ser::<Strs>), ser_c: Some(ser_c::<Strs>), ser_content: Some(ser_content::<Strs>), ser_w: Some(ser_w::<Strs>), ser_cw: Some(ser_cw::<Strs>) },
    Ops { de: Some(de::<StrSub>), de_r: None, ser: Some(ser::<StrSub>), ser_c: Some(ser_c::<StrSub>), ser_content: Some(ser_content::<StrSub>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<DefF>), de_r: Some(de_r::<DefF>), ser: Some(ser::<DefF>), ser_c: Some(ser_c::<DefF>), ser_content: Some(ser_content::<DefF>), ser_w: Some(ser_w::<DefF>), ser_cw: Some(ser_cw::<DefF>) },
    Ops { de: Some(de::<DefA>), de_r: None, ser: Some(ser::<DefA>), ser_c: Some(ser_c::<DefA>), ser_content: Some(ser_content::<DefA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<DefT>), de_r: None, ser: Some(ser::<DefT>), ser_c: Some(ser_c::<DefT>), ser_content: Some(ser_content::<DefT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<DefS_>), de_r: None, ser: Some(ser::<DefS_>), ser_c: Some(ser_c::<DefS_>), ser_content: Some(ser_content::<DefS_>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<DefOV>), ser_c: Some(ser_c::<DefOV>), ser_content: Some(ser_content::<DefOV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<DefAll>), de_r: None, ser: Some(ser::<DefAll>), ser_c: Some(ser_c::<DefAll>), ser_content: Some(ser_content::<DefAll>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Skip>), de_r: None, ser: Some(ser::<Skip>), ser_c: Some(ser_c::<Skip>), ser_content: Some(ser_content::<Skip>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipA>), de_r: None, ser: Some(ser::<SkipA>), ser_c: Some(ser_c::<SkipA>), ser_content: Some(ser_content::<SkipA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipIf>), de_r: None, ser: Some(ser::<SkipIf>), ser_c: Some(ser_c::<SkipIf>), ser_content: Some(ser_content::<SkipIf>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipIfA>), de_r: None, ser: Some(ser::<SkipIfA>), ser_c: Some(ser_c::<SkipIfA>), ser_content: Some(ser_content::<SkipIfA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipIfT>), de_r: None, ser: Some(ser::<SkipIfT>), ser_c: Some(ser_c::<SkipIfT>), ser_content: Some(ser_content::<SkipIfT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipMid>), de_r: None, ser: Some(ser::<SkipMid>), ser_c: Some(ser_c::<SkipMid>), ser_content: Some(ser_content::<SkipMid>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipDef>), de_r: None, ser: Some(ser::<SkipDef>), ser_c: Some(ser_c::<SkipDef>), ser_content: Some(ser_content::<SkipDef>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipFlIn>), de_r: None, ser: Some(ser::<SkipFlIn>), ser_c: Some(ser_c::<SkipFlIn>), ser_content: Some(ser_content::<SkipFlIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipFl>), de_r: None, ser: Some(ser::<SkipFl>), ser_c: Some(ser_c::<SkipFl>), ser_content: Some(ser_content::<SkipFl>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipFlO>), de_r: None, ser: Some(ser::<SkipFlO>), ser_c: Some(ser_c::<SkipFlO>), ser_content: Some(ser_content::<SkipFlO>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<SkipFlX>), ser_c: Some(ser_c::<SkipFlX>), ser_content: Some(ser_content::<SkipFlX>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<SkipFlS>), ser_c: Some(ser_c::<SkipFlS>), ser_content: Some(ser_content::<SkipFlS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipEn>), de_r: None, ser: Some(ser::<SkipEn>), ser_c: Some(ser_c::<SkipEn>), ser_content: Some(ser_content::<SkipEn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipOut>), de_r: None, ser: Some(ser::<SkipOut>), ser_c: Some(ser_c::<SkipOut>), ser_content: Some(ser_content::<SkipOut>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<SkipTy>), ser_c: Some(ser_c::<SkipTy>), ser_content: Some(ser_content::<SkipTy>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SkipVA>), de_r: None, ser: Some(ser::<SkipVA>), ser_c: Some(ser_c::<SkipVA>), ser_content: Some(ser_content::<SkipVA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlIn>), de_r: None, ser: Some(ser::<FlIn>), ser_c: Some(ser_c::<FlIn>), ser_content: Some(ser_content::<FlIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Fl>), de_r: Some(de_r::<Fl>), ser: Some(ser::<Fl>), ser_c: Some(ser_c::<Fl>), ser_content: Some(ser_content::<Fl>), ser_w: Some(ser_w::<Fl>), ser_cw: Some(ser_cw::<Fl>) },
    Ops { de: Some(de::<FlTw>), de_r: None, ser: Some(ser::<FlTw>), ser_c: Some(ser_c::<FlTw>), ser_content: Some(ser_content::<FlTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlAIn>), de_r: None, ser: Some(ser::<FlAIn>), ser_c: Some(ser_c::<FlAIn>), ser_content: Some(ser_content::<FlAIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlA>), de_r: None, ser: Some(ser::<FlA>), ser_c: Some(ser_c::<FlA>), ser_content: Some(ser_content::<FlA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlATw>), de_r: None, ser: Some(ser::<FlATw>), ser_c: Some(ser_c::<FlATw>), ser_content: Some(ser_content::<FlATw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlVIn>), de_r: None, ser: Some(ser::<FlVIn>), ser_c: Some(ser_c::<FlVIn>), ser_content: Some(ser_content::<FlVIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlV>), de_r: None, ser: Some(ser::<FlV>), ser_c: Some(ser_c::<FlV>), ser_content: Some(ser_content::<FlV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlVTw>), de_r: None, ser: Some(ser::<FlVTw>), ser_c: Some(ser_c::<FlVTw>), ser_content: Some(ser_content::<FlVTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTIn>), de_r: None, ser: Some(ser::<FlTIn>), ser_c: Some(ser_c::<FlTIn>), ser_content: Some(ser_content::<FlTIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlT>), de_r: None, ser: Some(ser::<FlT>), ser_c: Some(ser_c::<FlT>), ser_content: Some(ser_content::<FlT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTTw>), de_r: None, ser: Some(ser::<FlTTw>), ser_c: Some(ser_c::<FlTTw>), ser_content: Some(ser_content::<FlTTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlO>), de_r: Some(de_r::<FlO>), ser: Some(ser::<FlO>), ser_c: Some(ser_c::<FlO>), ser_content: Some(ser_content::<FlO>), ser_w: Some(ser_w::<FlO>), ser_cw: Some(ser_cw::<FlO>) },
    Ops { de: Some(de::<FlOA>), de_r: None, ser: Some(ser::<FlOA>), ser_c: Some(ser_c::<FlOA>), ser_content: Some(ser_content::<FlOA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlOATw>), de_r: None, ser: Some(ser::<FlOATw>), ser_c: Some(ser_c::<FlOATw>), ser_content: Some(ser_content::<FlOATw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Fl2In>), de_r: None, ser: Some(ser::<Fl2In>), ser_c: Some(ser_c::<Fl2In>), ser_content: Some(ser_content::<Fl2In>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Fl2>), de_r: Some(de_r::<Fl2>), ser: Some(ser::<Fl2>), ser_c: Some(ser_c::<Fl2>), ser_content: Some(ser_content::<Fl2>), ser_w: Some(ser_w::<Fl2>), ser_cw: Some(ser_cw::<Fl2>) },
    Ops { de: Some(de::<Fl2Tw>), de_r: None, ser: Some(ser::<Fl2Tw>), ser_c: Some(ser_c::<Fl2Tw>), ser_content: Some(ser_content::<Fl2Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTwoB>), de_r: None, ser: Some(ser::<FlTwoB>), ser_c: Some(ser_c::<FlTwoB>), ser_content: Some(ser_content::<FlTwoB>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTwo>), de_r: None, ser: Some(ser::<FlTwo>), ser_c: Some(ser_c::<FlTwo>), ser_content: Some(ser_content::<FlTwo>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTwoTw>), de_r: None, ser: Some(ser::<FlTwoTw>), ser_c: Some(ser_c::<FlTwoTw>), ser_content: Some(ser_content::<FlTwoTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlEn>), de_r: None, ser: Some(ser::<FlEn>), ser_c: Some(ser_c::<FlEn>), ser_content: Some(ser_content::<FlEn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlE>), de_r: None, ser: Some(ser::<FlE>), ser_c: Some(ser_c::<FlE>), ser_content: Some(ser_content::<FlE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlEnL>), de_r: None, ser: Some(ser::<FlEnL>), ser_c: Some(ser_c::<FlEnL>), ser_content: Some(ser_content::<FlEnL>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlEL>), de_r: None, ser: Some(ser::<FlEL>), ser_c: Some(ser_c::<FlEL>), ser_content: Some(ser_content::<FlEL>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlOE>), de_r: None, ser: Some(ser::<FlOE>), ser_c: Some(ser_c::<FlOE>), ser_content: Some(ser_content::<FlOE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlMix>), de_r: None, ser: Some(ser::<FlMix>), ser_c: Some(ser_c::<FlMix>), ser_content: Some(ser_content::<FlMix>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlMixTw>), de_r: None, ser: Some(ser::<FlMixTw>), ser_c: Some(ser_c::<FlMixTw>), ser_content: Some(ser_content::<FlMixTw>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<FlVec>), ser_c: Some(ser_c::<FlVec>), ser_content: Some(ser_content::<FlVec>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlSub>), de_r: Some(de_r::<FlSub>), ser: Some(ser::<FlSub>), ser_c: Some(ser_c::<FlSub>), ser_content: Some(ser_content::<FlSub>), ser_w: Some(ser_w::<FlSub>), ser_cw: Some(ser_cw::<FlSub>) },
    Ops { de: Some(de::<FlDefIn>), de_r: None, ser: Some(ser::<FlDefIn>), ser_c: Some(ser_c::<FlDefIn>), ser_content: Some(ser_content::<FlDefIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlDef>), de_r: None, ser: Some(ser::<FlDef>), ser_c: Some(ser_c::<FlDef>), ser_content: Some(ser_content::<FlDef>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlDefTw>), de_r: None, ser: Some(ser::<FlDefTw>), ser_c: Some(ser_c::<FlDefTw>), ser_content: Some(ser_content::<FlDefTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RootFl>), de_r: None, ser: Some(ser::<RootFl>), ser_c: Some(ser_c::<RootFl>), ser_content: Some(ser_content::<RootFl>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RootFlE>), de_r: Some(de_r::<RootFlE>), ser: Some(ser::<RootFlE>), ser_c: Some(ser_c::<RootFlE>), ser_content: Some(ser_content::<RootFlE>), ser_w: Some(ser_w::<RootFlE>), ser_cw: Some(ser_cw::<RootFlE>) },
    Ops { de: None, de_r: None, ser: Some(ser::<VarFl>), ser_c: Some(ser_c::<VarFl>), ser_content: Some(ser_content::<VarFl>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<VarFlO>), ser_c: Some(ser_c::<VarFlO>), ser_content: Some(ser_content::<VarFlO>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<VarFlS>), ser_c: Some(ser_c::<VarFlS>), ser_content: Some(ser_content::<VarFlS>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Tagged>), de_r: None, ser: Some(ser::<Tagged>), ser_c: Some(ser_c::<Tagged>), ser_content: Some(ser_content::<Tagged>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<TaggedN>), de_r: None, ser: Some(ser::<TaggedN>), ser_c: Some(ser_c::<TaggedN>), ser_content: Some(ser_content::<TaggedN>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<TagIn>), de_r: None, ser: Some(ser::<TagIn>), ser_c: Some(ser_c::<TagIn>), ser_content: Some(ser_content::<TagIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<TagNew>), de_r: None, ser: Some(ser::<TagNew>), ser_c: Some(ser_c::<TagNew>), ser_content: Some(ser_content::<TagNew>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<TagNewIn>), de_r: None, ser: Some(ser::<TagNewIn>), ser_c: Some(ser_c::<TagNewIn>), ser_content: Some(ser_content::<TagNewIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Cross>), de_r: None, ser: Some(ser::<Cross>), ser_c: Some(ser_c::<Cross>), ser_content: Some(ser_content::<Cross>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Conf>), de_r: None, ser: Some(ser::<Conf>), ser_c: Some(ser_c::<Conf>), ser_content: Some(ser_content::<Conf>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnNest>), de_r: None, ser: Some(ser::<EnNest>), ser_c: Some(ser_c::<EnNest>), ser_content: Some(ser_content::<EnNest>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnIn>), de_r: None, ser: Some(ser::<EnIn>), ser_c: Some(ser_c::<EnIn>), ser_content: Some(ser_content::<EnIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnInT>), de_r: None, ser: Some(ser::<EnInT>), ser_c: Some(ser_c::<EnInT>), ser_content: Some(ser_content::<EnInT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnInV>), de_r: None, ser: Some(ser::<EnInV>), ser_c: Some(ser_c::<EnInV>), ser_content: Some(ser_content::<EnInV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnSame>), de_r: None, ser: Some(ser::<EnSame>), ser_c: Some(ser_c::<EnSame>), ser_content: Some(ser_content::<EnSame>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnInC>), de_r: None, ser: Some(ser::<EnInC>), ser_c: Some(ser_c::<EnInC>), ser_content: Some(ser_content::<EnInC>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<EnInN>), de_r: None, ser: Some(ser::<EnInN>), ser_c: Some(ser_c::<EnInN>), ser_content: Some(ser_content::<EnInN>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsA>), de_r: Some(de_r::<NsA>), ser: Some(ser::<NsA>), ser_c: Some(ser_c::<NsA>), ser_content: Some(ser_content::<NsA>), ser_w: Some(ser_w::<NsA>), ser_cw: Some(ser_cw::<NsA>) },
    Ops { de: Some(de::<NsB>), de_r: None, ser: Some(ser::<NsB>), ser_c: Some(ser_c::<NsB>), ser_content: Some(ser_content::<NsB>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsIn>), de_r: None, ser: Some(ser::<NsIn>), ser_c: Some(ser_c::<NsIn>), ser_content: Some(ser_content::<NsIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsOut>), de_r: Some(de_r::<NsOut>), ser: Some(ser::<NsOut>), ser_c: Some(ser_c::<NsOut>), ser_content: Some(ser_content::<NsOut>), ser_w: Some(ser_w::<NsOut>), ser_cw: Some(ser_cw::<NsOut>) },
    Ops { de: Some(de::<NsAttr>), de_r: None, ser: Some(ser::<NsAttr>), ser_c: Some(ser_c::<NsAttr>), ser_content: Some(ser_content::<NsAttr>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsLeaf>), de_r: None, ser: Some(ser::<NsLeaf>), ser_c: Some(ser_c::<NsLeaf>), ser_content: Some(ser_content::<NsLeaf>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsDflt>), de_r: None, ser: Some(ser::<NsDflt>), ser_c: Some(ser_c::<NsDflt>), ser_content: Some(ser_content::<NsDflt>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsNone>), de_r: None, ser: Some(ser::<NsNone>), ser_c: Some(ser_c::<NsNone>), ser_content: Some(ser_content::<NsNone>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsTwoV>), de_r: None, ser: Some(ser::<NsTwoV>), ser_c: Some(ser_c::<NsTwoV>), ser_content: Some(ser_content::<NsTwoV>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsShadIn>), de_r: None, ser: Some(ser::<NsShadIn>), ser_c: Some(ser_c::<NsShadIn>), ser_content: Some(ser_content::<NsShadIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsShad>), de_r: None, ser: Some(ser::<NsShad>), ser_c: Some(ser_c::<NsShad>), ser_content: Some(ser_content::<NsShad>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsE>), de_r: None, ser: Some(ser::<NsE>), ser_c: Some(ser_c::<NsE>), ser_content: Some(ser_content::<NsE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsU>), de_r: None, ser: Some(ser::<NsU>), ser_c: Some(ser_c::<NsU>), ser_content: Some(ser_content::<NsU>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsUD>), de_r: None, ser: Some(ser::<NsUD>), ser_c: Some(ser_c::<NsUD>), ser_content: Some(ser_content::<NsUD>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsEnum>), de_r: None, ser: Some(ser::<NsEnum>), ser_c: Some(ser_c::<NsEnum>), ser_content: Some(ser_content::<NsEnum>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsPrim>), de_r: None, ser: Some(ser::<NsPrim>), ser_c: Some(ser_c::<NsPrim>), ser_content: Some(ser_content::<NsPrim>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlIn>), de_r: None, ser: Some(ser::<NsFlIn>), ser_c: Some(ser_c::<NsFlIn>), ser_content: Some(ser_content::<NsFlIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFl>), de_r: None, ser: Some(ser::<NsFl>), ser_c: Some(ser_c::<NsFl>), ser_content: Some(ser_content::<NsFl>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlTw>), de_r: None, ser: Some(ser::<NsFlTw>), ser_c: Some(ser_c::<NsFlTw>), ser_content: Some(ser_content::<NsFlTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlP>), de_r: None, ser: Some(ser::<NsFlP>), ser_c: Some(ser_c::<NsFlP>), ser_content: Some(ser_content::<NsFlP>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlPTw>), de_r: None, ser: Some(ser::<NsFlPTw>), ser_c: Some(ser_c::<NsFlPTw>), ser_content: Some(ser_content::<NsFlPTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlPO>), de_r: None, ser: Some(ser::<NsFlPO>), ser_c: Some(ser_c::<NsFlPO>), ser_content: Some(ser_content::<NsFlPO>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlMIn>), de_r: None, ser: Some(ser::<NsFlMIn>), ser_c: Some(ser_c::<NsFlMIn>), ser_content: Some(ser_content::<NsFlMIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlM>), de_r: None, ser: Some(ser::<NsFlM>), ser_c: Some(ser_c::<NsFlM>), ser_content: Some(ser_content::<NsFlM>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlMTw>), de_r: None, ser: Some(ser::<NsFlMTw>), ser_c: Some(ser_c::<NsFlMTw>), ser_content: Some(ser_content::<NsFlMTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlQ>), de_r: None, ser: Some(ser::<NsFlQ>), ser_c: Some(ser_c::<NsFlQ>), ser_content: Some(ser_content::<NsFlQ>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlQTw>), de_r: None, ser: Some(ser::<NsFlQTw>), ser_c: Some(ser_c::<NsFlQTw>), ser_content: Some(ser_content::<NsFlQTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlRIn>), de_r: None, ser: Some(ser::<NsFlRIn>), ser_c: Some(ser_c::<NsFlRIn>), ser_content: Some(ser_content::<NsFlRIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlR>), de_r: None, ser: Some(ser::<NsFlR>), ser_c: Some(ser_c::<NsFlR>), ser_content: Some(ser_content::<NsFlR>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlRTw>), de_r: None, ser: Some(ser::<NsFlRTw>), ser_c: Some(ser_c::<NsFlRTw>), ser_content: Some(ser_content::<NsFlRTw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlRO>), de_r: None, ser: Some(ser::<NsFlRO>), ser_c: Some(ser_c::<NsFlRO>), ser_content: Some(ser_content::<NsFlRO>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsFlRE>), de_r: None, ser: Some(ser::<NsFlRE>), ser_c: Some(ser_c::<NsFlRE>), ser_content: Some(ser_content::<NsFlRE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsDeep2>), de_r: None, ser: Some(ser::<NsDeep2>), ser_c: Some(ser_c::<NsDeep2>), ser_content: Some(ser_content::<NsDeep2>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsDeep1>), de_r: None, ser: Some(ser::<NsDeep1>), ser_c: Some(ser_c::<NsDeep1>), ser_content: Some(ser_content::<NsDeep1>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsDeep>), de_r: None, ser: Some(ser::<NsDeep>), ser_c: Some(ser_c::<NsDeep>), ser_content: Some(ser_content::<NsDeep>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsText>), de_r: None, ser: Some(ser::<NsText>), ser_c: Some(ser_c::<NsText>), ser_content: Some(ser_content::<NsText>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsAmp>), de_r: None, ser: Some(ser::<NsAmp>), ser_c: Some(ser_c::<NsAmp>), ser_content: Some(ser_content::<NsAmp>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsUri>), de_r: None, ser: Some(ser::<NsUri>), ser_c: Some(ser_c::<NsUri>), ser_content: Some(ser_content::<NsUri>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsUriIn>), de_r: None, ser: Some(ser::<NsUriIn>), ser_c: Some(ser_c::<NsUriIn>), ser_content: Some(ser_content::<NsUriIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsPre>), de_r: None, ser: Some(ser::<NsPre>), ser_c: Some(ser_c::<NsPre>), ser_content: Some(ser_content::<NsPre>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsT>), de_r: None, ser: Some(ser::<NsT>), ser_c: Some(ser_c::<NsT>), ser_content: Some(ser_content::<NsT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsAttrT>), de_r: None, ser: Some(ser::<NsAttrT>), ser_c: Some(ser_c::<NsAttrT>), ser_content: Some(ser_content::<NsAttrT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsAttrU>), de_r: None, ser: Some(ser::<NsAttrU>), ser_c: Some(ser_c::<NsAttrU>), ser_content: Some(ser_content::<NsAttrU>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsAttrV>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Gen<Leaf>>), de_r: None, ser: Some(ser::<Gen<Leaf>>), ser_c: Some(ser_c::<Gen<Leaf>>), ser_content: Some(ser_content::<Gen<Leaf>>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Gen<UnitE>>), de_r: None, ser: Some(ser::<Gen<UnitE>>), ser_c: Some(ser_c::<Gen<UnitE>>), ser_content: Some(ser_content::<Gen<UnitE>>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Gen<PrimI>>), de_r: None, ser: Some(ser::<Gen<PrimI>>), ser_c: Some(ser_c::<Gen<PrimI>>), ser_content: Some(ser_content::<Gen<PrimI>>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<GenUse>), de_r: None, ser: Some(ser::<GenUse>), ser_c: Some(ser_c::<GenUse>), ser_content: Some(ser_content::<GenUse>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Mac>), de_r: None, ser: Some(ser::<Mac>), ser_c: Some(ser_c::<Mac>), ser_content: Some(ser_content::<Mac>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Paths>), de_r: None, ser: Some(ser::<Paths>), ser_c: Some(ser_c::<Paths>), ser_content: Some(ser_content::<Paths>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Outer>), de_r: None, ser: Some(ser::<Outer>), ser_c: Some(ser_c::<Outer>), ser_content: Some(ser_content::<Outer>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsED>), de_r: None, ser: Some(ser::<NsED>), ser_c: Some(ser_c::<NsED>), ser_content: Some(ser_content::<NsED>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsDR>), de_r: None, ser: Some(ser::<NsDR>), ser_c: Some(ser_c::<NsDR>), ser_content: Some(ser_content::<NsDR>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NsUn>), de_r: None, ser: Some(ser::<NsUn>), ser_c: Some(ser_c::<NsUn>), ser_content: Some(ser_content::<NsUn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<AttrV>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<AttrVS>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlAIn2>), de_r: None, ser: Some(ser::<FlAIn2>), ser_c: Some(ser_c::<FlAIn2>), ser_content: Some(ser_content::<FlAIn2>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTwoA>), de_r: None, ser: Some(ser::<FlTwoA>), ser_c: Some(ser_c::<FlTwoA>), ser_content: Some(ser_content::<FlTwoA>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<FlTwoATw>), de_r: None, ser: Some(ser::<FlTwoATw>), ser_c: Some(ser_c::<FlTwoATw>), ser_content: Some(ser_content::<FlTwoATw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Raw>), de_r: Some(de_r::<Raw>), ser: Some(ser::<Raw>), ser_c: Some(ser_c::<Raw>), ser_content: Some(ser_content::<Raw>), ser_w: Some(ser_w::<Raw>), ser_cw: Some(ser_cw::<Raw>) },
    Ops { de: Some(de::<RawE>), de_r: None, ser: Some(ser::<RawE>), ser_c: Some(ser_c::<RawE>), ser_content: Some(ser_content::<RawE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<RawT>), de_r: None, ser: Some(ser::<RawT>), ser_c: Some(ser_c::<RawT>), ser_content: Some(ser_content::<RawT>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Vars>), de_r: Some(de_r::<Vars>), ser: Some(ser::<Vars>), ser_c: Some(ser_c::<Vars>), ser_content: Some(ser_content::<Vars>), ser_w: Some(ser_w::<Vars>), ser_cw: Some(ser_cw::<Vars>) },
    Ops { de: Some(de::<Vars2>), de_r: None, ser: Some(ser::<Vars2>), ser_c: Some(ser_c::<Vars2>), ser_content: Some(ser_content::<Vars2>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Vars3>), de_r: None, ser: Some(ser::<Vars3>), ser_c: Some(ser_c::<Vars3>), ser_content: Some(ser_content::<Vars3>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<NoFlags>), de_r: None, ser: Some(ser::<NoFlags>), ser_c: Some(ser_c::<NoFlags>), ser_content: Some(ser_content::<NoFlags>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<UseCust>), de_r: Some(de_r::<UseCust>), ser: Some(ser::<UseCust>), ser_c: Some(ser_c::<UseCust>), ser_content: Some(ser_content::<UseCust>), ser_w: Some(ser_w::<UseCust>), ser_cw: Some(ser_cw::<UseCust>) },
    Ops { de: Some(de::<Gen2<Leaf, PrimI>>), de_r: None, ser: Some(ser::<Gen2<Leaf, PrimI>>), ser_c: Some(ser_c::<Gen2<Leaf, PrimI>>), ser_content: Some(ser_content::<Gen2<Leaf, PrimI>>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Turbo>), de_r: None, ser: Some(ser::<Turbo>), ser_c: Some(ser_c::<Turbo>), ser_content: Some(ser_content::<Turbo>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Many>), de_r: None, ser: Some(ser::<Many>), ser_c: Some(ser_c::<Many>), ser_content: Some(ser_content::<Many>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<Buchar>), ser_c: Some(ser_c::<Buchar>), ser_content: Some(ser_content::<Buchar>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<BuEchar>), ser_c: Some(ser_c::<BuEchar>), ser_content: Some(ser_content::<BuEchar>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<Buusize>), ser_c: Some(ser_c::<Buusize>), ser_content: Some(ser_content::<Buusize>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<BuEusize>), ser_c: Some(ser_c::<BuEusize>), ser_content: Some(ser_content::<BuEusize>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<Buisize>), ser_c: Some(ser_c::<Buisize>), ser_content: Some(ser_content::<Buisize>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<BuEisize>), ser_c: Some(ser_c::<BuEisize>), ser_content: Some(ser_content::<BuEisize>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<BuFlIn>), ser_c: Some(ser_c::<BuFlIn>), ser_content: Some(ser_content::<BuFlIn>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<BuFl>), ser_c: Some(ser_c::<BuFl>), ser_content: Some(ser_content::<BuFl>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<BuNs>), ser_c: Some(ser_c::<BuNs>), ser_content: Some(ser_content::<BuNs>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SimCase>), de_r: Some(de_r::<SimCase>), ser: Some(ser::<SimCase>), ser_c: Some(ser_c::<SimCase>), ser_content: Some(ser_content::<SimCase>), ser_w: Some(ser_w::<SimCase>), ser_cw: Some(ser_cw::<SimCase>) },
    Ops { de: Some(de::<SimLists>), de_r: None, ser: Some(ser::<SimLists>), ser_c: Some(ser_c::<SimLists>), ser_content: Some(ser_content::<SimLists>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SimPunct>), de_r: None, ser: Some(ser::<SimPunct>), ser_c: Some(ser_c::<SimPunct>), ser_content: Some(ser_content::<SimPunct>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SimNs>), de_r: None, ser: Some(ser::<SimNs>), ser_c: Some(ser_c::<SimNs>), ser_content: Some(ser_content::<SimNs>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SimE>), de_r: None, ser: Some(ser::<SimE>), ser_c: Some(ser_c::<SimE>), ser_content: Some(ser_content::<SimE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<SimUse>), de_r: None, ser: Some(ser::<SimUse>), ser_c: Some(ser_c::<SimUse>), ser_content: Some(ser_content::<SimUse>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<GenI<Leaf, 3>>), de_r: None, ser: Some(ser::<GenI<Leaf, 3>>), ser_c: Some(ser_c::<GenI<Leaf, 3>>), ser_content: Some(ser_content::<GenI<Leaf, 3>>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<GenI<UnitE, 7>>), de_r: None, ser: Some(ser::<GenI<UnitE, 7>>), ser_c: Some(ser_c::<GenI<UnitE, 7>>), ser_content: Some(ser_content::<GenI<UnitE, 7>>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<GenIUse>), de_r: None, ser: Some(ser::<GenIUse>), ser_c: Some(ser_c::<GenIUse>), ser_content: Some(ser_content::<GenIUse>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<GenB<u32>>), ser_c: Some(ser_c::<GenB<u32>>), ser_content: Some(ser_content::<GenB<u32>>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<GenB<bool>>), ser_c: Some(ser_c::<GenB<bool>>), ser_content: Some(ser_content::<GenB<bool>>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<GenB<f64>>), ser_c: Some(ser_c::<GenB<f64>>), ser_content: Some(ser_content::<GenB<f64>>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<GenB<char>>), ser_c: Some(ser_c::<GenB<char>>), ser_content: Some(ser_content::<GenB<char>>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<GenB<LeafAT>>), ser_c: Some(ser_c::<GenB<LeafAT>>), ser_content: Some(ser_content::<GenB<LeafAT>>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<GenBUse>), ser_c: Some(ser_c::<GenBUse>), ser_content: Some(ser_content::<GenBUse>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedO>), ser_c: Some(ser_c::<NamedO>), ser_content: Some(ser_content::<NamedO>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedON>), ser_c: Some(ser_c::<NamedON>), ser_content: Some(ser_content::<NamedON>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedOIn>), ser_c: Some(ser_c::<NamedOIn>), ser_content: Some(ser_content::<NamedOIn>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedV>), ser_c: Some(ser_c::<NamedV>), ser_content: Some(ser_content::<NamedV>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedN>), ser_c: Some(ser_c::<NamedN>), ser_content: Some(ser_content::<NamedN>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedW>), ser_c: Some(ser_c::<NamedW>), ser_content: Some(ser_content::<NamedW>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedWIn>), ser_c: Some(ser_c::<NamedWIn>), ser_content: Some(ser_content::<NamedWIn>), ser_w: None, ser_cw: None },
    Ops { de: None, de_r: None, ser: Some(ser::<NamedIn>), ser_c: Some(ser_c::<NamedIn>), ser_content: Some(ser_content::<NamedIn>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Alias>), de_r: None, ser: Some(ser::<Alias>), ser_c: Some(ser_c::<Alias>), ser_content: Some(ser_content::<Alias>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<AliasE>), de_r: None, ser: Some(ser::<AliasE>), ser_c: Some(ser_c::<AliasE>), ser_content: Some(ser_content::<AliasE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrF>), de_r: None, ser: Some(ser::<PrF>), ser_c: Some(ser_c::<PrF>), ser_content: Some(ser_content::<PrF>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrG>), de_r: None, ser: Some(ser::<PrG>), ser_c: Some(ser_c::<PrG>), ser_content: Some(ser_content::<PrG>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrO>), de_r: None, ser: Some(ser::<PrO>), ser_c: Some(ser_c::<PrO>), ser_content: Some(ser_content::<PrO>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<PrE>), de_r: None, ser: Some(ser::<PrE>), ser_c: Some(ser_c::<PrE>), ser_content: Some(ser_content::<PrE>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr0>), de_r: None, ser: Some(ser::<Pr0>), ser_c: Some(ser_c::<Pr0>), ser_content: Some(ser_content::<Pr0>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr1>), de_r: None, ser: Some(ser::<Pr1>), ser_c: Some(ser_c::<Pr1>), ser_content: Some(ser_content::<Pr1>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr2>), de_r: None, ser: Some(ser::<Pr2>), ser_c: Some(ser_c::<Pr2>), ser_content: Some(ser_content::<Pr2>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr3>), de_r: None, ser: Some(ser::<Pr3>), ser_c: Some(ser_c::<Pr3>), ser_content: Some(ser_content::<Pr3>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr4>), de_r: None, ser: Some(ser::<Pr4>), ser_c: Some(ser_c::<Pr4>), ser_content: Some(ser_content::<Pr4>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr5>), de_r: None, ser: Some(ser::<Pr5>), ser_c: Some(ser_c::<Pr5>), ser_content: Some(ser_content::<Pr5>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr6>), de_r: None, ser: Some(ser::<Pr6>), ser_c: Some(ser_c::<Pr6>), ser_content: Some(ser_content::<Pr6>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr7>), de_r: None, ser: Some(ser::<Pr7>), ser_c: Some(ser_c::<Pr7>), ser_content: Some(ser_content::<Pr7>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr8>), de_r: None, ser: Some(ser::<Pr8>), ser_c: Some(ser_c::<Pr8>), ser_content: Some(ser_content::<Pr8>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr9>), de_r: None, ser: Some(ser::<Pr9>), ser_c: Some(ser_c::<Pr9>), ser_content: Some(ser_content::<Pr9>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr9Tw>), de_r: None, ser: Some(ser::<Pr9Tw>), ser_c: Some(ser_c::<Pr9Tw>), ser_content: Some(ser_content::<Pr9Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr10>), de_r: None, ser: Some(ser::<Pr10>), ser_c: Some(ser_c::<Pr10>), ser_content: Some(ser_content::<Pr10>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr10Tw>), de_r: None, ser: Some(ser::<Pr10Tw>), ser_c: Some(ser_c::<Pr10Tw>), ser_content: Some(ser_content::<Pr10Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr11>), de_r: None, ser: Some(ser::<Pr11>), ser_c: Some(ser_c::<Pr11>), ser_content: Some(ser_content::<Pr11>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr12>), de_r: None, ser: Some(ser::<Pr12>), ser_c: Some(ser_c::<Pr12>), ser_content: Some(ser_content::<Pr12>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr13>), de_r: None, ser: Some(ser::<Pr13>), ser_c: Some(ser_c::<Pr13>), ser_content: Some(ser_content::<Pr13>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr14>), de_r: None, ser: Some(ser::<Pr14>), ser_c: Some(ser_c::<Pr14>), ser_content: Some(ser_content::<Pr14>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr15>), de_r: None, ser: Some(ser::<Pr15>), ser_c: Some(ser_c::<Pr15>), ser_content: Some(ser_content::<Pr15>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr16>), de_r: None, ser: Some(ser::<Pr16>), ser_c: Some(ser_c::<Pr16>), ser_content: Some(ser_content::<Pr16>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr17>), de_r: None, ser: Some(ser::<Pr17>), ser_c: Some(ser_c::<Pr17>), ser_content: Some(ser_content::<Pr17>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr18>), de_r: None, ser: Some(ser::<Pr18>), ser_c: Some(ser_c::<Pr18>), ser_content: Some(ser_content::<Pr18>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr19>), de_r: None, ser: Some(ser::<Pr19>), ser_c: Some(ser_c::<Pr19>), ser_content: Some(ser_content::<Pr19>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr20>), de_r: None, ser: Some(ser::<Pr20>), ser_c: Some(ser_c::<Pr20>), ser_content: Some(ser_content::<Pr20>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr21>), de_r: None, ser: Some(ser::<Pr21>), ser_c: Some(ser_c::<Pr21>), ser_content: Some(ser_content::<Pr21>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr22>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr23>), de_r: None, ser: Some(ser::<Pr23>), ser_c: Some(ser_c::<Pr23>), ser_content: Some(ser_content::<Pr23>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr24>), de_r: None, ser: Some(ser::<Pr24>), ser_c: Some(ser_c::<Pr24>), ser_content: Some(ser_content::<Pr24>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr24Tw>), de_r: None, ser: Some(ser::<Pr24Tw>), ser_c: Some(ser_c::<Pr24Tw>), ser_content: Some(ser_content::<Pr24Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr25>), de_r: None, ser: Some(ser::<Pr25>), ser_c: Some(ser_c::<Pr25>), ser_content: Some(ser_content::<Pr25>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr25Tw>), de_r: None, ser: Some(ser::<Pr25Tw>), ser_c: Some(ser_c::<Pr25Tw>), ser_content: Some(ser_content::<Pr25Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr26>), de_r: None, ser: Some(ser::<Pr26>), ser_c: Some(ser_c::<Pr26>), ser_content: Some(ser_content::<Pr26>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr27>), de_r: None, ser: Some(ser::<Pr27>), ser_c: Some(ser_c::<Pr27>), ser_content: Some(ser_content::<Pr27>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr28>), de_r: None, ser: Some(ser::<Pr28>), ser_c: Some(ser_c::<Pr28>), ser_content: Some(ser_content::<Pr28>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr29>), de_r: None, ser: Some(ser::<Pr29>), ser_c: Some(ser_c::<Pr29>), ser_content: Some(ser_content::<Pr29>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr30>), de_r: None, ser: Some(ser::<Pr30>), ser_c: Some(ser_c::<Pr30>), ser_content: Some(ser_content::<Pr30>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr31>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr32>), de_r: None, ser: Some(ser::<Pr32>), ser_c: Some(ser_c::<Pr32>), ser_content: Some(ser_content::<Pr32>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr33>), de_r: None, ser: Some(ser::<Pr33>), ser_c: Some(ser_c::<Pr33>), ser_content: Some(ser_content::<Pr33>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr34>), de_r: None, ser: Some(ser::<Pr34>), ser_c: Some(ser_c::<Pr34>), ser_content: Some(ser_content::<Pr34>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr35>), de_r: None, ser: Some(ser::<Pr35>), ser_c: Some(ser_c::<Pr35>), ser_content: Some(ser_content::<Pr35>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr36>), de_r: None, ser: Some(ser::<Pr36>), ser_c: Some(ser_c::<Pr36>), ser_content: Some(ser_content::<Pr36>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr36Tw>), de_r: None, ser: Some(ser::<Pr36Tw>), ser_c: Some(ser_c::<Pr36Tw>), ser_content: Some(ser_content::<Pr36Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr37>), de_r: None, ser: Some(ser::<Pr37>), ser_c: Some(ser_c::<Pr37>), ser_content: Some(ser_content::<Pr37>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr38>), de_r: None, ser: Some(ser::<Pr38>), ser_c: Some(ser_c::<Pr38>), ser_content: Some(ser_content::<Pr38>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr38Tw>), de_r: None, ser: Some(ser::<Pr38Tw>), ser_c: Some(ser_c::<Pr38Tw>), ser_content: Some(ser_content::<Pr38Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr39>), de_r: None, ser: Some(ser::<Pr39>), ser_c: Some(ser_c::<Pr39>), ser_content: Some(ser_content::<Pr39>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr39Tw>), de_r: None, ser: Some(ser::<Pr39Tw>), ser_c: Some(ser_c::<Pr39Tw>), ser_content: Some(ser_content::<Pr39Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr40>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr41>), de_r: None, ser: Some(ser::<Pr41>), ser_c: Some(ser_c::<Pr41>), ser_content: Some(ser_content::<Pr41>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr42>), de_r: None, ser: Some(ser::<Pr42>), ser_c: Some(ser_c::<Pr42>), ser_content: Some(ser_content::<Pr42>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr42Tw>), de_r: None, ser: Some(ser::<Pr42Tw>), ser_c: Some(ser_c::<Pr42Tw>), ser_content: Some(ser_content::<Pr42Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr43>), de_r: None, ser: Some(ser::<Pr43>), ser_c: Some(ser_c::<Pr43>), ser_content: Some(ser_content::<Pr43>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr44>), de_r: None, ser: Some(ser::<Pr44>), ser_c: Some(ser_c::<Pr44>), ser_content: Some(ser_content::<Pr44>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr45>), de_r: None, ser: Some(ser::<Pr45>), ser_c: Some(ser_c::<Pr45>), ser_content: Some(ser_content::<Pr45>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr46>), de_r: None, ser: Some(ser::<Pr46>), ser_c: Some(ser_c::<Pr46>), ser_content: Some(ser_content::<Pr46>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr47>), de_r: None, ser: Some(ser::<Pr47>), ser_c: Some(ser_c::<Pr47>), ser_content: Some(ser_content::<Pr47>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr48>), de_r: None, ser: Some(ser::<Pr48>), ser_c: Some(ser_c::<Pr48>), ser_content: Some(ser_content::<Pr48>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr49>), de_r: None, ser: Some(ser::<Pr49>), ser_c: Some(ser_c::<Pr49>), ser_content: Some(ser_content::<Pr49>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr50>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr51>), de_r: None, ser: Some(ser::<Pr51>), ser_c: Some(ser_c::<Pr51>), ser_content: Some(ser_content::<Pr51>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr51Tw>), de_r: None, ser: Some(ser::<Pr51Tw>), ser_c: Some(ser_c::<Pr51Tw>), ser_content: Some(ser_content::<Pr51Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr52>), de_r: None, ser: Some(ser::<Pr52>), ser_c: Some(ser_c::<Pr52>), ser_content: Some(ser_content::<Pr52>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr53>), de_r: None, ser: Some(ser::<Pr53>), ser_c: Some(ser_c::<Pr53>), ser_content: Some(ser_content::<Pr53>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr54>), de_r: None, ser: Some(ser::<Pr54>), ser_c: Some(ser_c::<Pr54>), ser_content: Some(ser_content::<Pr54>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr54Tw>), de_r: None, ser: Some(ser::<Pr54Tw>), ser_c: Some(ser_c::<Pr54Tw>), ser_content: Some(ser_content::<Pr54Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr55>), de_r: None, ser: Some(ser::<Pr55>), ser_c: Some(ser_c::<Pr55>), ser_content: Some(ser_content::<Pr55>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr55Tw>), de_r: None, ser: Some(ser::<Pr55Tw>), ser_c: Some(ser_c::<Pr55Tw>), ser_content: Some(ser_content::<Pr55Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr56>), de_r: None, ser: Some(ser::<Pr56>), ser_c: Some(ser_c::<Pr56>), ser_content: Some(ser_content::<Pr56>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr56Tw>), de_r: None, ser: Some(ser::<Pr56Tw>), ser_c: Some(ser_c::<Pr56Tw>), ser_content: Some(ser_content::<Pr56Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr57>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr58>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr59>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr60>), de_r: None, ser: Some(ser::<Pr60>), ser_c: Some(ser_c::<Pr60>), ser_content: Some(ser_content::<Pr60>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr60Tw>), de_r: None, ser: Some(ser::<Pr60Tw>), ser_c: Some(ser_c::<Pr60Tw>), ser_content: Some(ser_content::<Pr60Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr61>), de_r: None, ser: Some(ser::<Pr61>), ser_c: Some(ser_c::<Pr61>), ser_content: Some(ser_content::<Pr61>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr61Tw>), de_r: None, ser: Some(ser::<Pr61Tw>), ser_c: Some(ser_c::<Pr61Tw>), ser_content: Some(ser_content::<Pr61Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr62>), de_r: None, ser: Some(ser::<Pr62>), ser_c: Some(ser_c::<Pr62>), ser_content: Some(ser_content::<Pr62>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr63>), de_r: None, ser: Some(ser::<Pr63>), ser_c: Some(ser_c::<Pr63>), ser_content: Some(ser_content::<Pr63>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr63Tw>), de_r: None, ser: Some(ser::<Pr63Tw>), ser_c: Some(ser_c::<Pr63Tw>), ser_content: Some(ser_content::<Pr63Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr64>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr65>), de_r: None, ser: Some(ser::<Pr65>), ser_c: Some(ser_c::<Pr65>), ser_content: Some(ser_content::<Pr65>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr65Tw>), de_r: None, ser: Some(ser::<Pr65Tw>), ser_c: Some(ser_c::<Pr65Tw>), ser_content: Some(ser_content::<Pr65Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr66>), de_r: None, ser: Some(ser::<Pr66>), ser_c: Some(ser_c::<Pr66>), ser_content: Some(ser_content::<Pr66>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr66Tw>), de_r: None, ser: Some(ser::<Pr66Tw>), ser_c: Some(ser_c::<Pr66Tw>), ser_content: Some(ser_content::<Pr66Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr67>), de_r: None, ser: Some(ser::<Pr67>), ser_c: Some(ser_c::<Pr67>), ser_content: Some(ser_content::<Pr67>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr68>), de_r: None, ser: Some(ser::<Pr68>), ser_c: Some(ser_c::<Pr68>), ser_content: Some(ser_content::<Pr68>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr69>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr70>), de_r: None, ser: Some(ser::<Pr70>), ser_c: Some(ser_c::<Pr70>), ser_content: Some(ser_content::<Pr70>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr71>), de_r: None, ser: Some(ser::<Pr71>), ser_c: Some(ser_c::<Pr71>), ser_content: Some(ser_content::<Pr71>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr71Tw>), de_r: None, ser: Some(ser::<Pr71Tw>), ser_c: Some(ser_c::<Pr71Tw>), ser_content: Some(ser_content::<Pr71Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr72>), de_r: None, ser: Some(ser::<Pr72>), ser_c: Some(ser_c::<Pr72>), ser_content: Some(ser_content::<Pr72>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr73>), de_r: None, ser: Some(ser::<Pr73>), ser_c: Some(ser_c::<Pr73>), ser_content: Some(ser_content::<Pr73>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr73Tw>), de_r: None, ser: Some(ser::<Pr73Tw>), ser_c: Some(ser_c::<Pr73Tw>), ser_content: Some(ser_content::<Pr73Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr74>), de_r: None, ser: Some(ser::<Pr74>), ser_c: Some(ser_c::<Pr74>), ser_content: Some(ser_content::<Pr74>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr75>), de_r: None, ser: Some(ser::<Pr75>), ser_c: Some(ser_c::<Pr75>), ser_content: Some(ser_content::<Pr75>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr76>), de_r: None, ser: Some(ser::<Pr76>), ser_c: Some(ser_c::<Pr76>), ser_content: Some(ser_content::<Pr76>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr77>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr78>), de_r: None, ser: Some(ser::<Pr78>), ser_c: Some(ser_c::<Pr78>), ser_content: Some(ser_content::<Pr78>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr78Tw>), de_r: None, ser: Some(ser::<Pr78Tw>), ser_c: Some(ser_c::<Pr78Tw>), ser_content: Some(ser_content::<Pr78Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr79>), de_r: None, ser: Some(ser::<Pr79>), ser_c: Some(ser_c::<Pr79>), ser_content: Some(ser_content::<Pr79>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr79Tw>), de_r: None, ser: Some(ser::<Pr79Tw>), ser_c: Some(ser_c::<Pr79Tw>), ser_content: Some(ser_content::<Pr79Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr80>), de_r: None, ser: Some(ser::<Pr80>), ser_c: Some(ser_c::<Pr80>), ser_content: Some(ser_content::<Pr80>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr81>), de_r: None, ser: Some(ser::<Pr81>), ser_c: Some(ser_c::<Pr81>), ser_content: Some(ser_content::<Pr81>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr82>), de_r: None, ser: Some(ser::<Pr82>), ser_c: Some(ser_c::<Pr82>), ser_content: Some(ser_content::<Pr82>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr83>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr84>), de_r: None, ser: Some(ser::<Pr84>), ser_c: Some(ser_c::<Pr84>), ser_content: Some(ser_content::<Pr84>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr85>), de_r: None, ser: Some(ser::<Pr85>), ser_c: Some(ser_c::<Pr85>), ser_content: Some(ser_content::<Pr85>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr86>), de_r: None, ser: Some(ser::<Pr86>), ser_c: Some(ser_c::<Pr86>), ser_content: Some(ser_content::<Pr86>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr86Tw>), de_r: None, ser: Some(ser::<Pr86Tw>), ser_c: Some(ser_c::<Pr86Tw>), ser_content: Some(ser_content::<Pr86Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr87>), de_r: None, ser: Some(ser::<Pr87>), ser_c: Some(ser_c::<Pr87>), ser_content: Some(ser_content::<Pr87>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr88>), de_r: None, ser: Some(ser::<Pr88>), ser_c: Some(ser_c::<Pr88>), ser_content: Some(ser_content::<Pr88>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr89>), de_r: None, ser: Some(ser::<Pr89>), ser_c: Some(ser_c::<Pr89>), ser_content: Some(ser_content::<Pr89>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr90>), de_r: None, ser: Some(ser::<Pr90>), ser_c: Some(ser_c::<Pr90>), ser_content: Some(ser_content::<Pr90>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr91>), de_r: None, ser: Some(ser::<Pr91>), ser_c: Some(ser_c::<Pr91>), ser_content: Some(ser_content::<Pr91>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr92>), de_r: None, ser: Some(ser::<Pr92>), ser_c: Some(ser_c::<Pr92>), ser_content: Some(ser_content::<Pr92>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr93>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr94>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr95>), de_r: None, ser: Some(ser::<Pr95>), ser_c: Some(ser_c::<Pr95>), ser_content: Some(ser_content::<Pr95>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr96>), de_r: None, ser: Some(ser::<Pr96>), ser_c: Some(ser_c::<Pr96>), ser_content: Some(ser_content::<Pr96>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr97>), de_r: None, ser: Some(ser::<Pr97>), ser_c: Some(ser_c::<Pr97>), ser_content: Some(ser_content::<Pr97>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr97Tw>), de_r: None, ser: Some(ser::<Pr97Tw>), ser_c: Some(ser_c::<Pr97Tw>), ser_content: Some(ser_content::<Pr97Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr98>), de_r: None, ser: Some(ser::<Pr98>), ser_c: Some(ser_c::<Pr98>), ser_content: Some(ser_content::<Pr98>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr99>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr100>), de_r: None, ser: Some(ser::<Pr100>), ser_c: Some(ser_c::<Pr100>), ser_content: Some(ser_content::<Pr100>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr100Tw>), de_r: None, ser: Some(ser::<Pr100Tw>), ser_c: Some(ser_c::<Pr100Tw>), ser_content: Some(ser_content::<Pr100Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr101>), de_r: None, ser: Some(ser::<Pr101>), ser_c: Some(ser_c::<Pr101>), ser_content: Some(ser_content::<Pr101>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr102>), de_r: None, ser: Some(ser::<Pr102>), ser_c: Some(ser_c::<Pr102>), ser_content: Some(ser_content::<Pr102>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr103>), de_r: None, ser: Some(ser::<Pr103>), ser_c: Some(ser_c::<Pr103>), ser_content: Some(ser_content::<Pr103>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr104>), de_r: None, ser: Some(ser::<Pr104>), ser_c: Some(ser_c::<Pr104>), ser_content: Some(ser_content::<Pr104>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr105>), de_r: None, ser: Some(ser::<Pr105>), ser_c: Some(ser_c::<Pr105>), ser_content: Some(ser_content::<Pr105>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr105Tw>), de_r: None, ser: Some(ser::<Pr105Tw>), ser_c: Some(ser_c::<Pr105Tw>), ser_content: Some(ser_content::<Pr105Tw>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr106>), de_r: None, ser: Some(ser::<Pr106>), ser_c: Some(ser_c::<Pr106>), ser_content: Some(ser_content::<Pr106>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr107>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr108>), de_r: None, ser: Some(ser::<Pr108>), ser_c: Some(ser_c::<Pr108>), ser_content: Some(ser_content::<Pr108>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr109>), de_r: None, ser: Some(ser::<Pr109>), ser_c: Some(ser_c::<Pr109>), ser_content: Some(ser_content::<Pr109>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr110>), de_r: None, ser: Some(ser::<Pr110>), ser_c: Some(ser_c::<Pr110>), ser_content: Some(ser_content::<Pr110>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr111>), de_r: None, ser: Some(ser::<Pr111>), ser_c: Some(ser_c::<Pr111>), ser_content: Some(ser_content::<Pr111>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr112>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr113>), de_r: None, ser: Some(ser::<Pr113>), ser_c: Some(ser_c::<Pr113>), ser_content: Some(ser_content::<Pr113>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr114>), de_r: None, ser: Some(ser::<Pr114>), ser_c: Some(ser_c::<Pr114>), ser_content: Some(ser_content::<Pr114>), ser_w: None, ser_cw: None },
    Ops { de: Some(de::<Pr115>), de_r: None, ser: None, ser_c: None, ser_content: None, ser_w: None, ser_cw: None },
  ]
}
