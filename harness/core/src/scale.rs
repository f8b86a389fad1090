//! Values of any size: long strings, long lists, deep nesting. A count, a depth or a length kept in
//! something too small, or a buffer that is full, shows at some size only.
use crate::docs::base_values;
use crate::schema::*;
use crate::val::Val;

/// Every size up to `all`, then the powers of two up to `max` with their neighbours.
pub fn sizes(all: usize, max: usize) -> Vec<usize> {
  let mut l: Vec<usize> = (2..=all).collect();
  let mut p = 2;
  while p <= max {
    l.extend([p - 1, p, p + 1].iter().filter(|n| **n > all));
    p *= 2;
  }
  l
}

/// Strings of `n` characters (or a few more).
fn strings(n: usize, plain: bool) -> Vec<String> {
  let cyc = |a: &str| -> String { a.chars().cycle().take(n).collect() };
  let mut l = vec![cyc("abcdefghij"), cyc("a\u{e9}\u{20ac}\u{1F600}")];
  if !plain {
    l.push(format!("a{}b", " ".repeat(n)));
    l.push(cyc("&<>'\"]]>"));
    l.push(format!("{}\u{1F600}&{}", cyc("a"), cyc("a")));
  }
  l
}

/// `v` with one string or one list in it brought to size `n`, each in turn.
fn at(s: &Schema, b: Base, v: &Val, n: usize, plain: bool, out: &mut Vec<Val>) {
  match (b, v) {
    (Base::Sc(Sc::Str), Val::S(_)) => out.extend(strings(n, plain).into_iter().map(Val::S)),
    (Base::Sc(_), _) => {}
    (Base::Ty(t), v) => match (&s.get(t).def, v) {
      (Def::Prim(Sc::Str), Val::S(_)) => out.extend(strings(n, plain).into_iter().map(Val::S)),
      (Def::Struct(fs), Val::Struct(l)) => {
        for (i, f) in fs.iter().enumerate() {
          let plain = plain || f.kind == Kind::Attr && matches!(f.base, Base::Ty(_));
          if f.kind == Kind::Attr && f.mult == Mult::Vec {
            continue;
          }
          let mut sub = vec![];
          member(s, f.base, &l[i], n, plain, &mut sub);
          for x in sub {
            let mut l = l.clone();
            l[i] = x;
            out.push(Val::Struct(l));
          }
        }
      }
      (Def::Enum(vs, _), Val::Var(i, Some(x))) => {
        let mut sub = vec![];
        let (_, b) = vs[*i].payload.expect("payload");
        member(s, b, x, n, plain, &mut sub);
        out.extend(sub.into_iter().map(|x| Val::var(*i, x)));
      }
      _ => {}
    },
  }
}

fn member(s: &Schema, b: Base, v: &Val, n: usize, plain: bool, out: &mut Vec<Val>) {
  match v {
    Val::Some(x) => {
      let mut sub = vec![];
      at(s, b, x, n, plain, &mut sub);
      out.extend(sub.into_iter().map(Val::some));
    }
    Val::List(l) if !l.is_empty() => {
      out.push(Val::List((0..n).map(|k| l[(k * k + k / 3) % l.len()].clone()).collect()));
      let mut sub = vec![];
      at(s, b, &l[0], n, plain, &mut sub);
      for x in sub {
        let mut l = l.clone();
        l[0] = x;
        out.push(Val::List(l));
      }
    }
    v => at(s, b, v, n, plain, out),
  }
}

/// A value of `ty` around a value of the same type, if the type is recursive.
fn around(s: &Schema, host: usize, ty: usize, inner: &Val, few: &[Val], deep: usize) -> Option<Val> {
  let put = |m: Mult, items: Vec<Val>| match m {
    Mult::Vec => Val::List(items),
    Mult::Opt => Val::some(items[0].clone()),
    Mult::One => items[0].clone(),
  };
  match &s.get(host).def {
    Def::Struct(fs) => {
      for (i, f) in fs.iter().enumerate() {
        let x = match f.base {
          Base::Ty(t) if t == ty && f.mult == Mult::Vec => put(f.mult, few.iter().chain([inner]).cloned().collect()),
          Base::Ty(t) if deep > 0 && t != host => match around(s, t, ty, inner, few, deep - 1) {
            Some(x) => put(f.mult, vec![x]),
            None => continue,
          },
          _ => continue,
        };
        if let Val::Struct(mut l) = base_values(s, host, 1).remove(0) {
          l[i] = x;
          return Some(Val::Struct(l));
        }
      }
      None
    }
    Def::Enum(vs, _) => vs.iter().enumerate().find_map(|(i, v)| match v.payload {
      Some((Mult::Vec, Base::Ty(t))) if t == ty => Some(Val::var(i, put(Mult::Vec, few.iter().chain([inner]).cloned().collect()))),
      Some((m, Base::Ty(t))) if t == ty => Some(Val::var(i, put(m, vec![inner.clone()]))),
      Some((m, Base::Ty(t))) if deep > 0 && t != host => around(s, t, ty, inner, few, deep - 1).map(|x| Val::var(i, put(m, vec![x]))),
      _ => None,
    }),
    _ => None,
  }
}

/// `n` levels of a recursive type, alone or beside others.
pub fn nested(s: &Schema, ty: usize, n: usize) -> Vec<Val> {
  // the content of a flattened member is parsed again at every level
  if !s.get(ty).has("rec") || n > 140 && s.get(ty).fields().iter().any(|f| f.kind == Kind::Flatten) {
    return vec![];
  }
  let base = base_values(s, ty, 3);
  let mut out = vec![];
  for few in [&base[..0], &base[..1]] {
    let mut v = base[base.len() - 1].clone();
    for _ in 0..n {
      match around(s, ty, ty, &v, few, 2) {
        Some(x) => v = x,
        None => return out,
      }
    }
    out.push(v);
  }
  out
}

/// Base values with one part of size `n` each.
pub fn scaled(s: &Schema, ty: usize, bases: usize, n: usize) -> Vec<Val> {
  let mut out = vec![];
  for v in base_values(s, ty, bases) {
    at(s, Base::Ty(ty), &v, n, false, &mut out);
  }
  // the same part may stand in several base values
  let mut seen = std::collections::HashSet::new();
  out.retain(|v| seen.insert(v.clone()));
  out
}
