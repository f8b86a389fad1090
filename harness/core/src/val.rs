//! Values, independent of Rust types.

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
  /// scalar or primitive newtype, as its text
  S(String),
  None,
  Some(Box<Val>),
  List(Vec<Val>),
  Struct(Vec<Val>),
  Var(usize, Option<Box<Val>>),
}

impl std::fmt::Debug for Val {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      Val::S(s) => write!(f, "{:?}", s),
      Val::None => write!(f, "None"),
      Val::Some(v) => write!(f, "Some({:?})", v),
      Val::List(l) => f.debug_list().entries(l.iter()).finish(),
      Val::Struct(l) => {
        write!(f, "{{")?;
        for (i, v) in l.iter().enumerate() {
          write!(f, "{}{:?}", if i > 0 { ", " } else { "" }, v)?;
        }
        write!(f, "}}")
      }
      Val::Var(i, None) => write!(f, "#{}", i),
      Val::Var(i, Some(v)) => write!(f, "#{}({:?})", i, v),
    }
  }
}

impl Val {
  pub fn s(x: &str) -> Val {
    Val::S(x.to_string())
  }
  pub fn some(v: Val) -> Val {
    Val::Some(Box::new(v))
  }
  pub fn text(&self) -> &str {
    match self {
      Val::S(s) => s,
      _ => panic!("not a scalar: {:?}", self),
    }
  }
  pub fn var(i: usize, v: Val) -> Val {
    Val::Var(i, Some(Box::new(v)))
  }
}

/// Named predicates used by skip_serializing_if in the corpus.
pub fn pred(name: &str, v: &Val) -> bool {
  match name {
    "zero" => matches!(v, Val::S(s) if s == "0"),
    "empty" => match v {
      Val::S(s) => s.is_empty(),
      Val::None => true,
      Val::List(l) => l.is_empty(),
      _ => false,
    },
    "first" => match v {
      Val::Var(0, _) => true,
      Val::Struct(l) => l.first().map_or(true, |x| pred("zero", x) || pred("empty", x)),
      Val::Some(v) => pred("first", v),
      _ => false,
    },
    "a" => matches!(v, Val::S(s) if s == "a"),
    "zero_o" => matches!(v, Val::Some(x) if pred("zero", x)),
    "first_o" => matches!(v, Val::Some(x) if pred("a", x)),
    "one" => matches!(v, Val::List(l) if l.len() == 1),
    "always" => true,
    "never" => false,
    _ => panic!("no predicate {}", name),
  }
}

/// Conversion between Rust values of the corpus and model values.
pub trait Bind: Sized {
  fn to_val(&self) -> Val;
  fn from_val(v: &Val) -> Self;
}

macro_rules! scalar {
  ($($t:ty),*) => {$(
    impl Bind for $t {
      fn to_val(&self) -> Val {
        Val::S(self.to_string())
      }
      fn from_val(v: &Val) -> Self {
        v.text().parse().expect("scalar")
      }
    }
  )*};
}
scalar!(bool, i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, String, char, usize, isize);

impl<T: Bind> Bind for Option<T> {
  fn to_val(&self) -> Val {
    match self {
      None => Val::None,
      Some(v) => Val::some(v.to_val()),
    }
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::None => None,
      Val::Some(v) => Some(T::from_val(v)),
      _ => panic!("not an option: {:?}", v),
    }
  }
}

impl<T: Bind> Bind for Vec<T> {
  fn to_val(&self) -> Val {
    Val::List(self.iter().map(|x| x.to_val()).collect())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::List(l) => l.iter().map(T::from_val).collect(),
      _ => panic!("not a list: {:?}", v),
    }
  }
}
