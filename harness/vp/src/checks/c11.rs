//! Every short string over markup, and every XML character, in every string position: what an
//! independent parser reads back is that string, whichever way it is spelled.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::scale::sizes;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

const SINGLE: [&str; 19] = ["a", " ", "<", ">", "&", "\"", "'", "]", "[", "!", "-", "?", "/", ";", "#", "=", "\n", "\u{e9}", "\u{1F600}"];
const MULTI: [&str; 22] = [
  "]]>", "<![CDATA[", "&amp;", "&#60;", "&#x3C;", "-->", "<!--", "<?x y?>", "</a>", "<a>", "a=\"", "&lt", "]]", "xmlns=\"u\"", "\u{85}", "\u{2028}", "\u{fffd}", "\u{a0}", "{}", "%s\\n", "n:a", "&amp;amp;",
];

/// Position of a string: what it stands in.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
  Elem,
  Attr,
  /// an attribute of a derived type
  DerivedAttr,
}

/// Visits the string leaves of a value.
fn strings_of(s: &Schema, b: Base, v: &mut Val, pos: Pos, f: &mut dyn FnMut(Pos, &mut String)) {
  match (b, v) {
    (_, Val::None) => {}
    (b, Val::Some(v)) => strings_of(s, b, v, pos, f),
    (b, Val::List(l)) => l.iter_mut().for_each(|v| strings_of(s, b, v, pos, f)),
    (Base::Sc(Sc::Str), Val::S(x)) => f(pos, x),
    (Base::Sc(_), _) => {}
    (Base::Ty(t), v) => match (&s.get(t).def, v) {
      (Def::Prim(Sc::Str), Val::S(x)) => f(if pos == Pos::Attr { Pos::DerivedAttr } else { pos }, x),
      (Def::Struct(fs), Val::Struct(l)) => {
        for (d, v) in fs.iter().zip(l) {
          strings_of(s, d.base, v, if d.kind == Kind::Attr { Pos::Attr } else { Pos::Elem }, f)
        }
      }
      (Def::Enum(vs, _), Val::Var(i, Some(p))) => {
        if let Some((_, b)) = vs[*i].payload {
          strings_of(s, b, p, Pos::Elem, f)
        }
      }
      _ => {}
    },
  }
}

fn positions(s: &Schema, ty: usize, v: &Val) -> Vec<Pos> {
  let mut out = vec![];
  strings_of(s, Base::Ty(ty), &mut v.clone(), Pos::Elem, &mut |p, _| out.push(p));
  out
}

/// The value with string `at` (or every one) replaced.
fn with(s: &Schema, ty: usize, v: &Val, at: Option<usize>, x: &str) -> Val {
  let mut v = v.clone();
  let mut n = 0;
  strings_of(s, Base::Ty(ty), &mut v, Pos::Elem, &mut |p, y| {
    if at.map_or(p != Pos::DerivedAttr, |a| a == n) {
      *y = x.to_string();
    }
    n += 1;
  });
  v
}

/// Short strings over markup, and pieces of it, alone and within a text.
pub fn words() -> Vec<String> {
  let mut l: Vec<String> = vec![];
  for m in 1..=2 {
    strings(&SINGLE, m, &mut |x| l.push(x.to_string()));
  }
  for x in MULTI.iter().chain(&SINGLE) {
    l.push(x.to_string());
    l.push(format!("x{}y", x));
    l.push(format!("x{}{}y", x, x));
  }
  let mut seen = std::collections::HashSet::new();
  l.retain(|x| seen.insert(x.clone()));
  l
}

/// The string positions of a type: a value and which of its strings.
pub fn places(s: &Schema, ty: usize) -> Vec<(Val, usize)> {
  let mut out = vec![];
  for (i, v) in base_values(s, ty, 40).into_iter().enumerate() {
    if i > 0 && !matches!(s.get(ty).def, Def::Enum(..)) {
      break;
    }
    for (k, p) in positions(s, ty, &v).iter().enumerate() {
      if *p != Pos::DerivedAttr {
        out.push((v.clone(), k));
      }
    }
  }
  out
}

/// The value with its string `k` replaced.
pub fn worded(s: &Schema, ty: usize, (v, k): &(Val, usize), x: &str) -> Val {
  with(s, ty, v, Some(*k), x)
}

fn judge(env: &Env, w: &mut Work, ty: usize, v: &Val) -> Result<(), String> {
  let doc = env.ser(ty, v)?;
  let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?;
  let want = model::ser(&env.s, ty, v);
  w.transitions += 2 * want.count() as u64;
  w.traces += 1;
  w.outcome(&doc);
  if got.root.canon(false) != want.canon(false) {
    return Err(format!("written {}, expected {}", doc, render(&want)));
  }
  // the same string again, trimmed in elements
  agree(&env.de(ty, &doc), &model::de(&env.s, ty, &want))
}

/// Spellings of a string as character data.
fn spell(x: &str, how: usize, attr: bool) -> Option<String> {
  let mut o = String::new();
  let must = |c: char| matches!(c, '<' | '&' | '>' | '"' | '\'' | '\r') || (attr && matches!(c, '\n' | '\t'));
  match how {
    0 | 1 => {
      for c in x.chars() {
        if must(c) {
          match (how, c) {
            (0, '<') => o.push_str("&lt;"),
            (0, '>') => o.push_str("&gt;"),
            (0, '&') => o.push_str("&amp;"),
            (0, '"') => o.push_str("&quot;"),
            (0, '\'') => o.push_str("&apos;"),
            _ => o.push_str(&format!("&#{};", c as u32)),
          }
        } else {
          o.push(c)
        }
      }
    }
    2 => x.chars().for_each(|c| o.push_str(&format!("&#x{:X};", c as u32))),
    3 => x.chars().for_each(|c| o.push_str(&format!("&#0{};", c as u32))),
    // CDATA, whole
    4 if !attr && !x.contains("]]>") => o = format!("<![CDATA[{}]]>", x),
    // CDATA per character, comments between
    5 if !attr => x.chars().for_each(|c| o.push_str(&format!("<![CDATA[{}]]><!-- {} -->", c, "x"))),
    // alternately
    6 if !attr => {
      for (i, c) in x.chars().enumerate() {
        if i % 2 == 0 {
          o.push_str(&format!("<![CDATA[{}]]>", c))
        } else {
          o.push_str(&format!("&#{};", c as u32))
        }
      }
    }
    _ => return None,
  }
  Some(o)
}

pub fn run(ctx: &Ctx, env: &Env) {
  let tys: Vec<usize> = env.group("str").into_iter().filter(|t| env.s.get(*t).ser).collect();
  let mut tasks = vec![];
  for &ty in &tys {
    // every string position of a value that has them all
    for (i, v) in base_values(&env.s, ty, 40).into_iter().enumerate() {
      let p = positions(&env.s, ty, &v);
      let enumerated = matches!(env.s.get(ty).def, Def::Enum(..));
      if i > 0 && !enumerated {
        break;
      }
      if p.is_empty() {
        continue;
      }
      for k in 0..p.len() {
        if p[k] != Pos::DerivedAttr {
          tasks.push((ty, v.clone(), Some(k), p[k]));
        }
      }
      if p.len() > 1 {
        // attributes are among them
        let a = if p.contains(&Pos::Attr) { Pos::Attr } else { Pos::Elem };
        tasks.push((ty, v, None, a));
      }
    }
  }
  ctx.bound("string positions", tasks.len());
  let n = ctx.pick(3, 4);
  ctx.bound("strings", format!("all up to {} of {} characters; all pairs of {} and {} pieces", n, SINGLE.len() + 1, SINGLE.len(), MULTI.len()));
  let mut split = vec![];
  for t in &tasks {
    for first in 0..SINGLE.len() + 2 {
      split.push((t, first));
    }
  }
  ctx.par(&split, |((ty, v, at, pos), first), w| {
    let mut alpha: Vec<&str> = SINGLE.to_vec();
    if *pos != Pos::Attr {
      alpha.push("\t");
    }
    let mut go = true;
    let mut one = |w: &mut Work, x: &str| {
      if !go {
        return;
      }
      let v = with(&env.s, *ty, v, *at, x);
      go = w.case(&format!("{} {:?}", env.name(*ty), v), |w| {
        w.count(if *pos == Pos::Attr { "strings in attributes" } else { "strings in elements" }, 1);
        judge(env, w, *ty, &v)
      });
    };
    if *first == alpha.len() {
      one(w, "");
      // pieces
      let all: Vec<&str> = MULTI.iter().chain(alpha.iter()).cloned().collect();
      for a in &all {
        for b in MULTI.iter().chain([""].iter()) {
          one(w, &format!("{}{}", a, b));
          one(w, &format!("{}{}", b, a));
          one(w, &format!("{}x{}", b, a));
        }
      }
      for a in MULTI {
        for b in MULTI {
          for c in MULTI {
            one(w, &format!("{}{}{}", a, b, c));
          }
        }
      }
      return;
    }
    if *first > alpha.len() {
      return;
    }
    for m in 0..n {
      strings(&alpha, m, &mut |s| one(w, &format!("{}{}", alpha[*first], s)));
    }
    if *first == 2 && *ty % 3 == 0 {
      let x = with(&env.s, *ty, v, *at, "<]]>");
      ctx.sample(format!("{:?} -> {:?}", x, env.ser(*ty, &x)));
    }
  });
  // a few in every position of every other type
  let mut rest = vec![];
  for t in env.s.tys.iter().filter(|t| t.ser && t.de && t.rt && !tys.contains(&t.id)) {
    rest.extend(places(&env.s, t.id).into_iter().map(|p| (t.id, p)));
  }
  ctx.bound("string positions of all types", rest.len());
  let few = words();
  ctx.bound("strings in them", few.len());
  ctx.par(&rest, |(ty, p), w| {
    for x in &few {
      let v = worded(&env.s, *ty, p, x);
      let go = w.case(&format!("{} {:?}", env.name(*ty), v), |w| {
        w.count("strings in all types", 1);
        judge(env, w, *ty, &v)
      });
      if !go {
        return;
      }
    }
  });
  // long strings, with markup at every boundary
  let (all, max) = ctx.pick((34, 8192), (300, 1 << 18));
  let lens = sizes(all, max);
  ctx.bound("lengths of strings", format!("all up to {}, around powers of two up to {}", all, max));
  ctx.par(&tasks, |(ty, v, at, pos), w| {
    for &n in &lens {
      for (i, x) in ["&", "<", "]]>", "\"", "\u{1F600}", " ", "\n", "&amp;"].iter().enumerate() {
        for (j, s) in [format!("{}{}", "a".repeat(n - x.len().min(n)), x), format!("{}{}b", "\u{e9}".repeat(n), x), format!("{}{}", x, "a".repeat(n)), x.repeat(n)].iter().enumerate() {
          let s = if *pos == Pos::Elem { s.trim_matches([' ', '\n']) } else { s };
          let go = w.case(&format!("{} {:?} length {} piece {} {}", env.name(*ty), at, n, i, j), |w| {
            w.count("long strings", 1);
            judge(env, w, *ty, &with(&env.s, *ty, v, *at, s)).map_err(|m| clip(&m))
          });
          if !go {
            return;
          }
        }
      }
    }
  });
  // every character
  let mut tasks = vec![];
  for (ty, k) in [("Strs", 0), ("Strs", 1), ("LeafT", 0), ("CData", 0), ("PrimS", 0), ("NewE", 0)] {
    for plane in 0..=16u32 {
      for part in 0..16 {
        tasks.push((env.s.by_name(ty).id, k, plane * 0x10000 + part * 0x1000));
      }
    }
  }
  ctx.bound("characters", ctx.pick("every XML character of the basic plane and every 16th of the others, in 6 positions", "every XML character in 6 positions"));
  let step = ctx.pick(16, 1);
  ctx.par(&tasks, |&(ty, k, from), w| {
    let v = match &env.s.get(ty).def {
      Def::Enum(..) => Val::var(1, Val::s("a")),
      _ => base_values(&env.s, ty, 1)[0].clone(),
    };
    let p = positions(&env.s, ty, &v)[k];
    let mut i = from;
    while i < from + 0x1000 {
      let c = char::from_u32(i);
      i += if from >= 0x10000 { step } else { 1 };
      let c = match c {
        Some(c) if is_char(c) && c != '\r' && !(c == '\t' && p == Pos::Attr) => c,
        _ => continue,
      };
      for x in [format!("{}", c), format!("a{}b", c)] {
        let v = with(&env.s, ty, &v, Some(k), &x);
        let go = w.case(&format!("{} {:?}", env.name(ty), v), |w| {
          w.count("characters", 1);
          judge(env, w, ty, &v)
        });
        if !go {
          return;
        }
      }
    }
  });
  // every spelling of a string is read as that string
  let mut tasks = vec![];
  for (ty, f) in [("Strs", 0usize), ("Strs", 1), ("Strs", 2), ("Strs", 3), ("LeafT", 0), ("CData", 0), ("LeafAS", 1), ("LeafAT", 1)] {
    for m in 0..SINGLE.len() {
      tasks.push((env.s.by_name(ty).id, f, m));
    }
  }
  let n = ctx.pick(3, 4);
  ctx.par(&tasks, |&(ty, f, first), w| {
    let t = env.s.get(ty);
    let base = base_values(&env.s, ty, 1)[0].clone();
    let tree = model::ser(&env.s, ty, &base);
    let fd = &t.fields()[f];
    let attr = fd.kind == Kind::Attr;
    let mark = "\u{2603}";
    // the document with a mark where the string goes
    let mut e = tree.clone();
    match fd.kind {
      Kind::Attr => e.attrs.iter_mut().find(|a| a.name == fd.name).unwrap().value = mark.into(),
      Kind::Text => {
        e.kids.retain(|k| matches!(k, Node::E(_)));
        e.kids.push(Node::T(mark.into()))
      }
      _ => {
        if let Some(Node::E(c)) = e.kids.iter_mut().find(|k| matches!(k, Node::E(c) if c.name == fd.name)) {
          c.kids = vec![Node::T(mark.into())]
        }
      }
    }
    let doc = render(&e);
    let mut go = true;
    let mut alpha: Vec<&str> = SINGLE.to_vec();
    alpha.push("\r");
    alpha.push("\t");
    for m in 0..n {
      strings(&alpha, m, &mut |s| {
        let x = format!("{}{}", alpha[first], s);
        for how in 0..7 {
          if !go {
            return;
          }
          let sp = match spell(&x, how, attr) {
            Some(s) => s,
            None => continue,
          };
          let d = doc.replace(mark, &sp);
          go = w.case(&format!("{} {}", t.rust, d), |w| {
            w.count("spellings", 1);
            w.traces += 1;
            w.transitions += 2 * e.count() as u64;
            let mut text = x.clone();
            if !attr {
              text = text.trim_matches([' ', '\t', '\n', '\r']).to_string();
            }
            let got = env.de(ty, &d)?;
            let l = match &got {
              Val::Struct(l) => &l[f],
              _ => unreachable!(),
            };
            let ok = match l {
              Val::S(y) => *y == text,
              Val::Some(y) => y.text() == text,
              Val::None => fd.kind == Kind::Text && text.is_empty(),
              Val::List(l) => l.first().map_or(false, |y| y.text() == text),
              _ => false,
            };
            if ok {
              Ok(())
            } else {
              Err(format!("got {:?}, expected {:?}", got, text))
            }
          });
        }
      });
    }
  });
  // what is known not to survive
  for (ty, x) in [("LeafT", "a\rb"), ("CData", "a\rb"), ("Leaf", "a\rb"), ("LeafAS", "a\tb"), ("LeafAS", "a\rb")] {
    let t = env.s.by_name(ty).id;
    let v = with(&env.s, t, &base_values(&env.s, t, 1)[0], Some(0), x);
    ctx.par(&[()], |_, w| {
      w.case(&format!("{} {:?}", ty, v), |w| judge(env, w, t, &v));
    });
  }
  let t = env.s.by_name("ATypes").id;
  let v = base_values(&env.s, t, 1)[0].clone();
  for x in ["<", "&"] {
    let p = positions(&env.s, t, &v).iter().position(|p| *p == Pos::DerivedAttr).unwrap();
    let v = with(&env.s, t, &v, Some(p), x);
    ctx.par(&[()], |_, w| {
      w.case(&format!("ATypes {:?}", v), |w| {
        w.traces += 1;
        let d = parse(&env.ser(t, &v)?)?;
        match d.root.attrs.iter().find(|a| a.name == "s") {
          Some(a) if a.value == x => Ok(()),
          a => Err(format!("attribute s is {:?}", a)),
        }
      });
    });
  }
}
