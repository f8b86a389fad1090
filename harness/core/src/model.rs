//! The reference model: what serialization and deserialization mean, on trees.
//! No event loop, no cursor, no depth: each rule is stated on whole elements.
use crate::schema::*;
use crate::val::{pred, Val};
use crate::xml::*;

pub type R = Result<Val, String>;

/// The meaning of document `e` for type `ty`.
pub fn de(s: &Schema, ty: usize, e: &Elem) -> R {
  de_ty(s, ty, e, true)
}

fn trim(s: &str) -> &str {
  s.trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
}

/// Runs of character data of an element, trimmed: a child element or a processing instruction
/// separates runs, a comment does not. `upto_elem`: only what stands before the first child.
pub fn runs(e: &Elem, upto_elem: bool) -> Vec<String> {
  let mut out = vec![];
  let mut cur = String::new();
  for k in &e.kids {
    match k {
      Node::T(t) | Node::C(t) => cur.push_str(t),
      Node::Com(_) => {}
      Node::Pi(_) => out.push(std::mem::take(&mut cur)),
      Node::E(_) => {
        if upto_elem {
          break;
        }
        out.push(std::mem::take(&mut cur))
      }
    }
  }
  out.push(cur);
  out
    .iter()
    .map(|t| trim(t).to_string())
    .filter(|t| !t.is_empty())
    .collect()
}

/// The content of a scalar element: nothing if it has child elements.
pub fn scalar_text(e: &Elem) -> Option<String> {
  if e.elems().next().is_some() {
    return None;
  }
  Some(runs(e, false).concat())
}

fn prim(def: &Def, t: &str) -> R {
  match def {
    Def::Prim(Sc::Bool) => t
      .parse::<bool>()
      .map(|b| Val::S(b.to_string()))
      .map_err(|_| format!("bad bool {:?}", t)),
    Def::Prim(sc) => sc.parse(t).ok_or(format!("bad {:?} {:?}", sc, t)),
    Def::Hex(bits, mask) => {
      let digits = t.strip_prefix('+').unwrap_or(t);
      let v = if digits.is_empty() || digits.starts_with('+') {
        None
      } else {
        u64::from_str_radix(digits, 16).ok()
      };
      match v {
        Some(v) if *bits == 64 || v < (1u64 << bits) => {
          if v & !mask != 0 {
            Err("unknown bits".into())
          } else {
            Ok(Val::S(format!("{:02X}", v)))
          }
        }
        _ => Err(format!("bad hex {:?}", t)),
      }
    }
    _ => unreachable!(),
  }
}

pub fn de_ty(s: &Schema, ty: usize, e: &Elem, root: bool) -> R {
  let t = s.get(ty);
  if root && matches!(t.def, Def::Struct(_) | Def::Enum(..)) {
    if let Some(ns) = &e.ns {
      if t.uri(t.prefix) != Some(ns.as_str()) {
        return Err(format!("root element in namespace {}", ns));
      }
    }
  }
  match &t.def {
    Def::Struct(f) => de_struct(s, t, f, e),
    Def::Enum(v, dflt) => de_enum(s, t, v, dflt, e),
    d => prim(d, &runs(e, true).concat()),
  }
}

fn matches(t: &Ty, f: &Field, e: &Elem) -> bool {
  e.name == f.name && e.ns.as_deref() == t.uri(f.prefix)
}

fn de_struct(s: &Schema, t: &Ty, fields: &[Field], e: &Elem) -> R {
  let virt;
  let mut e = e;
  if t.flatten
    && !(e.name == t.root && e.ns.as_deref() == t.uri(t.prefix))
    && fields
      .iter()
      .any(|f| matches!(f.kind, Kind::Elem | Kind::Cdata) && matches(t, f, e))
  {
    // a flattened struct may have no element of its own
    virt = Elem {
      attrs: e.attrs.clone(),
      kids: vec![Node::E(e.clone())],
      ..Elem::new(t.root)
    };
    e = &virt;
  }
  let used = |c: &Elem| {
    fields
      .iter()
      .any(|f| matches!(f.kind, Kind::Elem | Kind::Cdata) && matches(t, f, c))
  };
  let mut out = vec![];
  for f in fields {
    // found values, in document order
    let mut got: Vec<Val> = vec![];
    match f.kind {
      Kind::Elem | Kind::Cdata => {
        for c in e.elems().filter(|c| matches(t, f, c)) {
          match f.base {
            Base::Sc(sc) => got.extend(scalar_text(c).and_then(|x| sc.parse(&x))),
            Base::Ty(ty) => got.push(de_ty(s, ty, c, false)?),
          }
        }
      }
      Kind::Attr => {
        for a in e.attrs.iter().filter(|a| a.name == f.name) {
          let tokens: Vec<&str> = if f.mult == Mult::Vec {
            a.value.split_whitespace().collect()
          } else {
            vec![&a.value]
          };
          for x in tokens {
            got.push(match f.base {
              Base::Sc(sc) => sc.parse(x).ok_or(format!("bad attribute {}", f.name))?,
              Base::Ty(ty) => {
                let kids = parse_content(x)?;
                let mut el = Elem::new(s.get(ty).rust);
                el.kids = kids;
                de_ty(s, ty, &el, true)?
              }
            });
          }
        }
      }
      Kind::Text => {
        let all = runs(e, false);
        let last = (!all.is_empty()).then(|| all.concat());
        match f.mult {
          Mult::One if last.is_none() && f.default.is_none() => got.push(Val::s("")),
          _ => got.extend(last.map(Val::S)),
        }
      }
      Kind::Flatten => {
        let ty = match f.base {
          Base::Ty(ty) => ty,
          _ => unreachable!(),
        };
        // what is not used, and each run of character data
        let mut rest = Elem {
          attrs: e.attrs.clone(),
          ns: e.ns.clone(),
          ..Elem::new(&e.name)
        };
        let mut run = Elem::new("run");
        let flush = |run: &mut Elem, kids: &mut Vec<Node>| {
          kids.extend(runs(run, false).into_iter().map(Node::T));
          run.kids.clear();
        };
        for k in &e.kids {
          match k {
            Node::E(c) => {
              flush(&mut run, &mut rest.kids);
              if !used(c) {
                rest.kids.push(k.clone());
              }
            }
            k => run.kids.push(k.clone()),
          }
        }
        flush(&mut run, &mut rest.kids);
        match (de_ty(s, ty, &rest, false), f.mult) {
          (Ok(v), _) => got.push(v),
          (Err(_), Mult::Opt) => {}
          (Err(m), _) => return Err(m),
        }
      }
    }
    out.push(match f.mult {
      Mult::Vec => Val::List(got),
      Mult::Opt => got.pop().map_or(Val::None, Val::some),
      Mult::One => match (got.pop(), &f.default) {
        (Some(v), _) => v,
        (None, Some(d)) => d.clone(),
        (None, None) => return Err(format!("{} is a required field of {}", f.ident, t.rust)),
      },
    });
  }
  Ok(Val::Struct(out))
}

fn de_enum(s: &Schema, t: &Ty, vars: &[Variant], dflt: &Val, e: &Elem) -> R {
  // the variant a tag names
  let mut only: Option<Option<usize>> = None;
  if let Some(tag) = t.tag {
    let v = e
      .attrs
      .iter()
      .find(|a| a.name == tag)
      .ok_or("tag missing".to_string())?;
    match vars.iter().position(|x| x.name == v.value) {
      Some(i) if vars[i].payload.is_none() => return Ok(Val::Var(i, None)),
      i => only = Some(i),
    }
  }
  let virt;
  let mut e = e;
  if t.flatten && vars.iter().any(|v| v.name == e.name) {
    virt = Elem {
      kids: vec![Node::E(e.clone())],
      ..Elem::new(t.root)
    };
    e = &virt;
  }
  let mut cur: Option<Val> = None;
  // the character data between two elements names a unit variant
  let text = |x: &Elem| Some(runs(x, false).concat()).filter(|t| !t.is_empty()).map(Err);
  let mut items: Vec<Result<&Elem, String>> = vec![];
  let mut pending = Elem::new("x");
  for k in &e.kids {
    match k {
      Node::E(c) => {
        items.extend(text(&pending));
        pending.kids.clear();
        items.push(Ok(c));
      }
      k => pending.kids.push(k.clone()),
    }
  }
  items.extend(text(&pending));
  for it in items {
    let named = |v: &Variant| match &it {
      Ok(c) => v.name == c.name,
      // a text may hold the prefix the variant is written with
      Err(t) => v.name == t || v.prefix.map_or(false, |p| format!("{}:{}", p, v.name) == *t),
    };
    let (i, v) = match vars.iter().enumerate().find(|(_, v)| named(v)) {
      Some((i, _)) if only.map_or(false, |o| o != Some(i)) => continue,
      Some(x) => x,
      None => continue,
    };
    let c = match (&it, v.payload) {
      (_, None) => return Ok(Val::Var(i, None)),
      (Err(_), _) => continue,
      (Ok(c), _) => *c,
    };
    let (mult, base) = v.payload.unwrap();
    let val = match base {
      Base::Sc(sc) => match scalar_text(c).and_then(|x| sc.parse(&x)) {
        Some(v) => v,
        None => continue,
      },
      Base::Ty(ty) => de_ty(s, ty, c, false)?,
    };
    cur = Some(match mult {
      Mult::One => Val::var(i, val),
      Mult::Opt => Val::var(i, Val::some(val)),
      Mult::Vec => match cur {
        None => Val::var(i, Val::List(vec![val])),
        Some(Val::Var(j, Some(l))) if j == i => match *l {
          Val::List(mut l) => {
            l.push(val);
            Val::var(i, Val::List(l))
          }
          _ => unreachable!(),
        },
        _ => return Err("sequence of different types".into()),
      },
    });
  }
  Ok(cur.unwrap_or(dflt.clone()))
}

// ---------------------------------------------------------------------------------------------

type Scope = Vec<(String, String)>;

fn resolve(scope: &Scope, qn: &str, elem: bool) -> (Option<String>, String) {
  let (p, l) = match qn.split_once(':') {
    Some((p, l)) => (p, l),
    None => ("", qn),
  };
  if p.is_empty() && !elem {
    return (None, l.to_string());
  }
  let u = scope
    .iter()
    .rev()
    .find(|(q, _)| q == p)
    .map(|(_, u)| u.clone());
  if u.is_none() && !p.is_empty() {
    panic!("corpus: prefix {} is not declared", p);
  }
  (u, l.to_string())
}

fn declare(t: &Ty, scope: &mut Scope) {
  for (p, u) in &t.nss {
    let p = if t.dns == Some(*p) { "" } else { *p };
    scope.push((p.to_string(), u.to_string()));
  }
}

/// The root element prescribed for `v`.
pub fn ser(s: &Schema, ty: usize, v: &Val) -> Elem {
  let t = s.get(ty);
  if t.flatten {
    let mut k = content(s, ty, v, &vec![]);
    match (k.pop(), k.is_empty()) {
      (Some(Node::E(e)), true) => return e,
      _ => panic!("corpus: {} has no single root", t.rust),
    }
  }
  let label = match t.def {
    Def::Prim(_) | Def::Hex(..) => t.rust.to_string(),
    _ => t.qname(t.prefix, t.root),
  };
  element(s, ty, v, &label, &vec![])
}

/// The content prescribed for `v` (what stands inside its element).
pub fn ser_content(s: &Schema, ty: usize, v: &Val) -> Elem {
  let mut e = Elem::new("x");
  let mut scope = vec![];
  declare(s.get(ty), &mut scope);
  e.kids = content(s, ty, v, &scope);
  e.canon(true)
}

fn written(f: &Field, v: &Val) -> bool {
  !f.skip && !f.skip_if.map_or(false, |p| pred(p, v)) && f.default.as_ref() != Some(v)
}

/// Attributes (qualified name, value) and namespace declarations of a value's element.
fn attributes(s: &Schema, ty: usize, v: &Val, scope: &mut Scope, out: &mut Vec<(String, String)>) {
  let t = s.get(ty);
  match (&t.def, v) {
    (Def::Struct(fields), Val::Struct(vs)) => {
      declare(t, scope);
      for (f, v) in fields.iter().zip(vs) {
        if !written(f, v) {
          continue;
        }
        let v = match (f.mult, v) {
          (Mult::Opt, Val::None) => continue,
          (Mult::Opt, Val::Some(v)) => v,
          (_, v) => v,
        };
        match f.kind {
          Kind::Attr if f.mult == Mult::Vec => {
            if let (true, Val::List(l)) = (s.list_attrs && !t.ser, v) {
              let text = |x: &Val| match f.base {
                Base::Ty(ty) => {
                  let mut e = Elem::new("x");
                  e.kids = content(s, ty, x, scope);
                  runs(&e, false).concat()
                }
                _ => x.text().to_string(),
              };
              let items: Vec<String> = l.iter().map(text).collect();
              out.push((t.qname(f.prefix, f.name), items.join(" ")));
            }
          }
          Kind::Attr => {
            let text = match f.base {
              Base::Sc(_) => v.text().to_string(),
              Base::Ty(ty) => {
                // the content of the value, as the XML text it is
                let k = content(s, ty, v, scope);
                let mut e = Elem::new("x");
                e.kids = k;
                let r = render(&e);
                r.trim_start_matches("<x/>")
                  .trim_start_matches("<x>")
                  .trim_end_matches("</x>")
                  .to_string()
              }
            };
            out.push((t.qname(f.prefix, f.name), text));
          }
          Kind::Flatten => {
            if let (Base::Ty(ty), true) = (f.base, f.mult != Mult::Vec) {
              attributes(s, ty, v, scope, out)
            }
          }
          _ => {}
        }
      }
    }
    (Def::Enum(vars, _), Val::Var(i, _)) => {
      declare(t, scope);
      if let Some(tag) = t.tag {
        out.push((tag.to_string(), vars[*i].name.to_string()));
      }
    }
    _ => {}
  }
}

pub fn element(s: &Schema, ty: usize, v: &Val, label: &str, scope: &Scope) -> Elem {
  let mut scope = scope.clone();
  let mut attrs = vec![];
  attributes(s, ty, v, &mut scope, &mut attrs);
  let (ns, name) = resolve(&scope, label, true);
  Elem {
    ns,
    name,
    attrs: attrs
      .into_iter()
      .map(|(q, value)| {
        let (ns, name) = resolve(&scope, &q, false);
        Attr { ns, name, value }
      })
      .collect(),
    kids: content(s, ty, v, &scope),
  }
}

fn scalar_elem(label: &str, text: &str, scope: &Scope) -> Node {
  let (ns, name) = resolve(scope, label, true);
  Node::E(Elem {
    ns,
    ..Elem::leaf(&name, text)
  })
}

pub fn content(s: &Schema, ty: usize, v: &Val, scope: &Scope) -> Vec<Node> {
  let t = s.get(ty);
  let mut out = vec![];
  match (&t.def, v) {
    (Def::Prim(_), v) | (Def::Hex(..), v) => {
      if !v.text().is_empty() {
        out.push(Node::T(v.text().to_string()))
      }
    }
    (Def::Struct(fields), Val::Struct(vs)) => {
      for (f, v) in fields.iter().zip(vs) {
        if f.kind == Kind::Attr || !written(f, v) {
          continue;
        }
        let items: Vec<&Val> = match (f.mult, v) {
          (Mult::One, v) => vec![v],
          (Mult::Opt, Val::None) => vec![],
          (Mult::Opt, Val::Some(v)) => vec![v],
          (Mult::Vec, Val::List(l)) => l.iter().collect(),
          _ => panic!("value {:?} does not fit {}.{}", v, t.rust, f.ident),
        };
        let label = t.qname(f.prefix, f.name);
        for v in items {
          match (f.kind, f.base) {
            (Kind::Text, _) => {
              if !v.text().is_empty() {
                out.push(Node::T(v.text().to_string()))
              }
            }
            (Kind::Cdata, _) => {
              let (ns, name) = resolve(scope, &label, true);
              let mut e = Elem::new(&name);
              e.ns = ns;
              e.kids.push(Node::C(v.text().to_string()));
              out.push(Node::E(e));
            }
            (Kind::Flatten, Base::Ty(ty)) => out.extend(content(s, ty, v, scope)),
            (Kind::Elem, Base::Sc(_)) => out.push(scalar_elem(&label, v.text(), scope)),
            (Kind::Elem, Base::Ty(ty)) => out.push(Node::E(element(s, ty, v, &label, scope))),
            _ => unreachable!(),
          }
        }
      }
    }
    (Def::Enum(vars, _), Val::Var(i, p)) => {
      let var = &vars[*i];
      let label = t.qname(var.prefix, var.name);
      match (var.payload, p) {
        (None, _) => {
          if t.tag.is_none() {
            out.push(Node::T(label))
          }
        }
        (Some((mult, base)), Some(p)) => {
          let items: Vec<&Val> = match (mult, &**p) {
            (Mult::One, v) => vec![v],
            (Mult::Opt, Val::None) => vec![],
            (Mult::Opt, Val::Some(v)) => vec![v],
            (Mult::Vec, Val::List(l)) => l.iter().collect(),
            _ => panic!("value {:?} does not fit {}", v, t.rust),
          };
          for v in items {
            if let (Base::Ty(ty), true) = (base, var.named) {
              out.extend(content(s, ty, v, scope));
              continue;
            }
            out.push(match base {
              Base::Sc(_) => scalar_elem(&label, v.text(), scope),
              Base::Ty(ty) if var.flatten => {
                let p = s.get(ty);
                Node::E(element(s, ty, v, &p.qname(p.prefix, p.root), scope))
              }
              Base::Ty(ty) => Node::E(element(s, ty, v, &label, scope)),
            });
          }
        }
        _ => panic!("value {:?} does not fit {}", v, t.rust),
      }
    }
    _ => panic!("value {:?} does not fit {}", v, t.rust),
  }
  out
}
