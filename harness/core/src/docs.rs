//! Documents around a type: base documents of its values, and all edits of a document.
use crate::enumerate::*;
use crate::model;
use crate::schema::*;
use crate::val::Val;
use crate::xml::*;

/// The schema without skipping and defaults: everything is written.
pub fn full(s: &Schema) -> Schema {
  let mut tys = s.tys.clone();
  for t in &mut tys {
    if let Def::Struct(fs) = &mut t.def {
      for f in fs {
        f.skip = false;
        f.skip_if = None;
        f.default = None;
      }
    }
  }
  Schema { tys, list_attrs: true }
}

pub const SMALL: Vals = Vals {
  scalars: 1,
  list: 2,
  depth: 3,
  alts: 4,
  all: false,
};

/// Values that together exercise every member and variant: the base value, one deviation each.
pub fn base_values(s: &Schema, ty: usize, n: usize) -> Vec<Val> {
  let (_, _, mut v) = values(s, ty, SMALL, n.max(1) * 4);
  v.truncate(n);
  v
}

/// As `base_values`, as documents.
pub fn base_docs(s: &Schema, ty: usize, n: usize) -> Vec<Elem> {
  let f = full(s);
  let lists = Schema {
    list_attrs: true,
    ..s.clone()
  };
  base_values(&lists, ty, n)
    .iter()
    .filter(|v| !(s.get(ty).flatten && rootless(s, ty, v)))
    .map(|v| model::ser(&f, ty, v))
    .collect()
}

/// A flattened root that does not consist of exactly one element.
pub fn rootless(s: &Schema, ty: usize, v: &Val) -> bool {
  let k = model::content(s, ty, v, &vec![]);
  k.len() != 1 || !matches!(k[0], Node::E(_))
}

/// Names and contents a type knows, and foreign ones.
#[derive(Clone, Default)]
pub struct Voc {
  pub names: Vec<(Option<String>, String)>,
  pub attrs: Vec<(Option<String>, String)>,
  pub contents: Vec<Vec<Node>>,
  pub values: Vec<String>,
  pub inserts: Vec<Elem>,
  pub texts: Vec<Node>,
  /// members that are no elements
  pub odd: Vec<(Option<String>, String)>,
}

fn add<T: PartialEq>(v: &mut Vec<T>, x: T) {
  if !v.contains(&x) {
    v.push(x)
  }
}

pub fn voc(s: &Schema, ty: usize, depth: usize, rich: bool) -> Voc {
  let mut v = Voc::default();
  let mut texts: Vec<String> = vec!["5".into(), "a".into()];
  collect(s, ty, depth, &mut v, &mut texts);
  let t = s.get(ty);
  add(&mut v.names, (t.uri(t.prefix).map(|x| x.into()), t.root.to_string()));
  add(&mut v.names, (None, "zz".into()));
  add(&mut v.attrs, (None, "qq".into()));
  if rich {
    texts.push("true".into());
    texts.push("-1".into());
  }
  v.contents.push(vec![]);
  for x in &texts {
    v.contents.push(vec![Node::T(x.clone())]);
  }
  v.values = texts.clone();
  v.values.truncate(if rich { 4 } else { 2 });
  v.values.push(String::new());
  let mk = |n: &(Option<String>, String), k: Vec<Node>| Elem {
    ns: n.0.clone(),
    kids: k,
    ..Elem::new(&n.1)
  };
  for n in &v.names {
    let few = if rich { v.contents.len() } else { 2 };
    for c in v.contents.iter().take(few) {
      v.inserts.push(mk(n, c.clone()));
    }
  }
  // foreign element with own names inside
  for n in &v.names {
    let inner = mk(n, vec![Node::T("5".into())]);
    let mut z = Elem::new("zz");
    z.kids.push(Node::E(inner.clone()));
    if rich {
      z.kids.push(Node::E(inner.clone()));
    }
    v.inserts.push(z.clone());
    if rich {
      v.inserts.push(Elem::new("zz").kid(Elem::new("yy").kid(inner)));
    }
  }
  let names = v.names.clone();
  v.odd.retain(|n| !names.contains(n));
  for n in &v.odd {
    if rich {
      v.inserts.push(mk(n, vec![Node::T("5".into())]));
    }
  }
  v.texts = vec![Node::T("a".into()), Node::T("5".into())];
  if rich {
    v.texts.push(Node::C("a".into()));
    v.texts.push(Node::Com("a".into()));
    v.texts.push(Node::Pi("a b".into()));
    v.texts.push(Node::T(" ".into()));
    for x in texts.iter().skip(2).take(3) {
      v.texts.push(Node::T(x.clone()));
    }
  }
  v
}

/// Names one could take for this one.
pub fn near(name: &str) -> Vec<String> {
  let mut out: Vec<String> = vec![format!("x{}", name), format!("{}x", name), format!("{}-{}", name, name), format!("x.{}", name), format!("_{}", name)];
  let swap: String = name.chars().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect();
  out.push(swap);
  out.push(name.replace(['-', '.', '_'], ""));
  out.push(name.replace(['-', '.'], "_"));
  let c: Vec<char> = name.chars().collect();
  if c.len() > 1 {
    out.push(c[1..].iter().collect());
    out.push(c[..c.len() - 1].iter().collect());
  }
  out.retain(|x| x != name && x.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_'));
  out.dedup();
  out
}

/// The names near to those of a type that are none of its own, and the names of its attributes'
/// neighbours.
pub fn nears(s: &Schema, ty: usize) -> (Vec<(Option<String>, String)>, Vec<String>) {
  let v = voc(s, ty, 6, false);
  let known = |n: &str| v.names.iter().chain(&v.attrs).chain(&v.odd).any(|x| x.1 == n);
  let (mut e, mut a) = (vec![], vec![]);
  for n in v.names.iter().filter(|n| n.1 != "zz") {
    for x in near(&n.1) {
      if !known(&x) {
        add(&mut e, (n.0.clone(), x));
      }
    }
  }
  for n in v.attrs.iter().filter(|n| n.1 != "qq") {
    for x in near(&n.1) {
      if !known(&x) {
        add(&mut a, x);
      }
    }
  }
  (e, a)
}

fn collect(s: &Schema, ty: usize, depth: usize, v: &mut Voc, texts: &mut Vec<String>) {
  let t = s.get(ty);
  let own = |p: Option<&str>| t.uri(p).map(|x| x.to_string());
  match &t.def {
    Def::Struct(fs) => {
      for f in fs {
        match f.kind {
          Kind::Attr => {
            add(&mut v.attrs, (own(f.prefix), f.name.to_string()));
            add(&mut v.odd, (own(f.prefix), f.name.to_string()));
          }
          Kind::Elem | Kind::Cdata => add(&mut v.names, (own(f.prefix), f.name.to_string())),
          // no element's name
          Kind::Text => add(&mut v.odd, (own(f.prefix), f.name.to_string())),
          Kind::Flatten => add(&mut v.odd, (own(f.prefix), f.name.to_string())),
        }
      }
      if depth > 0 {
        for f in fs {
          if let Base::Ty(b) = f.base {
            let d = if f.kind == Kind::Flatten { depth } else { depth - 1 };
            collect(s, b, d, v, texts);
          }
        }
      }
    }
    Def::Enum(vs, _) => {
      for x in vs {
        add(&mut v.names, (own(x.prefix), x.name.to_string()));
        if x.payload.is_none() {
          add(texts, x.name.to_string());
        }
      }
      if let Some(tag) = t.tag {
        add(&mut v.attrs, (None, tag.to_string()));
      }
      if depth > 0 {
        for x in vs {
          if let Some((_, Base::Ty(b))) = x.payload {
            collect(s, b, depth - 1, v, texts);
          }
        }
      }
    }
    Def::Hex(..) => add(texts, "0C".to_string()),
    _ => {}
  }
}

fn at<'a>(e: &'a mut Elem, path: &[usize]) -> &'a mut Elem {
  let mut e = e;
  for &i in path {
    e = match &mut e.kids[i] {
      Node::E(c) => c,
      _ => unreachable!(),
    };
  }
  e
}

pub fn paths(e: &Elem) -> Vec<Vec<usize>> {
  fn rec(e: &Elem, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(cur.clone());
    for (i, k) in e.kids.iter().enumerate() {
      if let Node::E(c) = k {
        cur.push(i);
        rec(c, cur, out);
        cur.pop();
      }
    }
  }
  let mut out = vec![];
  rec(e, &mut vec![], &mut out);
  out
}

pub fn get<'a>(e: &'a Elem, path: &[usize]) -> &'a Elem {
  let mut e = e;
  for &i in path {
    e = match &e.kids[i] {
      Node::E(c) => c,
      _ => unreachable!(),
    };
  }
  e
}

/// Every document one edit away.
pub fn edits(e: &Elem, v: &Voc) -> Vec<Elem> {
  let mut out = vec![];
  for p in paths(e) {
    let n = get(e, &p);
    let mut with = |f: &mut dyn FnMut(&mut Elem)| {
      let mut d = e.clone();
      f(at(&mut d, &p));
      out.push(d);
    };
    for i in 0..n.kids.len() {
      // delete, duplicate, move to the end, swap, wrap, unwrap
      with(&mut |x| {
        x.kids.remove(i);
      });
      let is_e = matches!(n.kids[i], Node::E(_));
      if is_e {
        with(&mut |x| {
          let k = x.kids[i].clone();
          x.kids.insert(i, k);
        });
        with(&mut |x| {
          let k = x.kids[i].clone();
          let mut z = Elem::new("zz");
          z.kids.push(k);
          x.kids[i] = Node::E(z);
        });
        with(&mut |x| {
          if let Node::E(k) = &x.kids[i] {
            let mut z = k.clone();
            z.kids = vec![x.kids[i].clone()];
            x.kids[i] = Node::E(z);
          }
        });
        with(&mut |x| {
          if let Node::E(k) = x.kids[i].clone() {
            x.kids.splice(i..=i, k.kids);
          }
        });
        for nm in &v.names {
          with(&mut |x| {
            if let Node::E(k) = &mut x.kids[i] {
              k.ns = nm.0.clone();
              k.name = nm.1.clone();
            }
          });
        }
      }
      if i + 2 < n.kids.len() {
        with(&mut |x| {
          let k = x.kids.remove(i);
          x.kids.push(k);
        });
      }
      if i + 1 < n.kids.len() {
        with(&mut |x| x.kids.swap(i, i + 1));
      }
    }
    for i in 0..=n.kids.len() {
      for ins in &v.inserts {
        with(&mut |x| x.kids.insert(i, Node::E(ins.clone())));
      }
      for t in &v.texts {
        with(&mut |x| x.kids.insert(i, t.clone()));
      }
    }
    for c in &v.contents {
      if *c != n.kids {
        with(&mut |x| x.kids = c.clone());
      }
    }
    for i in 0..n.attrs.len() {
      with(&mut |x| {
        x.attrs.remove(i);
      });
      for val in &v.values {
        with(&mut |x| x.attrs[i].value = val.clone());
      }
      if i + 1 < n.attrs.len() {
        with(&mut |x| x.attrs.swap(i, i + 1));
      }
    }
    for a in &v.attrs {
      if n.attrs.iter().any(|b| b.name == a.1) {
        continue;
      }
      for val in &v.values {
        with(&mut |x| {
          x.attrs.push(Attr {
            ns: a.0.clone(),
            name: a.1.clone(),
            value: val.clone(),
          })
        });
      }
    }
  }
  out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
  /// the element of a struct
  Struct(usize),
  /// the element of an enum
  Enum(usize),
  /// an element no member describes
  Foreign,
  /// an element holding a scalar or a primitive
  Scalar,
}

/// What each element of a document is for the type; by path.
pub fn places(s: &Schema, ty: usize, e: &Elem) -> Vec<(Vec<usize>, At)> {
  let mut out = vec![];
  place(s, Some(Base::Ty(ty)), e, &mut vec![], &mut out);
  out
}

/// The type that describes child `c` of an element of type `ty`: None if foreign.
fn child_base(s: &Schema, ty: usize, c: &Elem) -> Option<Base> {
  let t = s.get(ty);
  match &t.def {
    Def::Struct(fs) => {
      for f in fs {
        if matches!(f.kind, Kind::Elem | Kind::Cdata)
          && f.name == c.name
          && t.uri(f.prefix) == c.ns.as_deref()
        {
          return Some(f.base);
        }
      }
      for f in fs {
        if let (Kind::Flatten, Base::Ty(b)) = (f.kind, f.base) {
          if let Some(x) = child_base(s, b, c) {
            return Some(x);
          }
        }
      }
      None
    }
    Def::Enum(vs, _) => vs.iter().find(|v| v.name == c.name).map(|v| match v.payload {
      None => Base::Sc(Sc::Str),
      Some((_, b)) => b,
    }),
    _ => None,
  }
}

fn place(
  s: &Schema,
  b: Option<Base>,
  e: &Elem,
  cur: &mut Vec<usize>,
  out: &mut Vec<(Vec<usize>, At)>,
) {
  let mut flat = None;
  let at = match b {
    None => At::Foreign,
    Some(Base::Sc(_)) => At::Scalar,
    Some(Base::Ty(t)) => match s.get(t).def {
      Def::Struct(_) | Def::Enum(..) if s.get(t).flatten => {
        // its element is the one of a member
        flat = child_base(s, t, e);
        if flat.is_some() {
          return place(s, flat, e, cur, out);
        }
        At::Foreign
      }
      Def::Struct(_) => At::Struct(t),
      Def::Enum(..) => At::Enum(t),
      _ => At::Scalar,
    },
  };
  let _ = flat;
  out.push((cur.clone(), at));
  for (i, k) in e.kids.iter().enumerate() {
    if let Node::E(c) = k {
      let cb = match at {
        At::Struct(t) | At::Enum(t) => child_base(s, t, c),
        _ => None,
      };
      cur.push(i);
      place(s, cb, c, cur, out);
      cur.pop();
    }
  }
}

/// The document with node `p` changed.
pub fn at_mut<'a>(e: &'a mut Elem, path: &[usize]) -> &'a mut Elem {
  at(e, path)
}
