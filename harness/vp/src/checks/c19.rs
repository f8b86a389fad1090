//! Scalars: every value of 8 and 16 bits, every short numeral, the boundaries of every type, in
//! every position, against a grammar of numerals.
use crate::env::*;
use crate::grammar;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

const SCS: [Sc; 12] = [Sc::Str, Sc::Bool, Sc::I8, Sc::U8, Sc::I16, Sc::U16, Sc::I32, Sc::U32, Sc::I64, Sc::U64, Sc::F32, Sc::F64];

struct Pos {
  ty: usize,
  /// member or variant
  i: usize,
  name: &'static str,
  kind: Kind,
  mult: Mult,
  en: bool,
}

fn positions(env: &Env, sc: Sc) -> Vec<Pos> {
  let mut out = vec![];
  for ty in env.group("sc") {
    match &env.s.get(ty).def {
      Def::Struct(fs) => {
        for (i, f) in fs.iter().enumerate() {
          if f.base == Base::Sc(sc) {
            out.push(Pos { ty, i, name: f.name, kind: f.kind, mult: f.mult, en: false });
          }
        }
      }
      Def::Enum(vs, _) => {
        for (i, v) in vs.iter().enumerate() {
          match v.payload {
            Some((mult, Base::Sc(x))) if x == sc => out.push(Pos { ty, i, name: v.name, kind: Kind::Elem, mult, en: true }),
            _ => {}
          }
        }
      }
      _ => {}
    }
  }
  out
}

fn base_text(sc: Sc) -> &'static str {
  scalars(sc)[0]
}

/// The base document and value of a type of group `sc`, by member.
fn base(env: &Env, ty: usize) -> (Vec<(Kind, &'static str, &'static str)>, Vec<Val>) {
  let mut parts = vec![];
  let mut vals = vec![];
  for f in env.s.get(ty).fields() {
    let sc = match f.base {
      Base::Sc(sc) => sc,
      _ => unreachable!(),
    };
    match f.mult {
      Mult::One => {
        parts.push((f.kind, f.name, base_text(sc)));
        vals.push(Val::s(base_text(sc)));
      }
      Mult::Opt => vals.push(Val::None),
      Mult::Vec => vals.push(Val::List(vec![])),
    }
  }
  (parts, vals)
}

/// The document with text x (escaped) at the position, and what must be read: None for an error.
fn read(env: &Env, p: &Pos, sc: Sc, x: &str) -> (String, Option<Val>) {
  let t = env.s.get(p.ty);
  let trimmed = x.trim_matches([' ', '\n', '\t', '\r']);
  if p.en {
    let v = grammar::scalar(sc, trimmed);
    let doc = format!("<{0}><{1}>{2}</{1}></{0}>", t.root, p.name, x);
    let dflt = match &t.def {
      Def::Enum(_, d) => d.clone(),
      _ => unreachable!(),
    };
    let want = match (v, p.mult) {
      (None, _) => dflt,
      (Some(v), Mult::One) => Val::var(p.i, v),
      (Some(v), Mult::Opt) => Val::var(p.i, Val::some(v)),
      (Some(v), Mult::Vec) => Val::var(p.i, Val::List(vec![v])),
    };
    return (doc, Some(want));
  }
  let (parts, mut vals) = base(env, p.ty);
  let mut attrs = String::new();
  let mut kids = String::new();
  for (k, n, b) in parts {
    let b = if n == p.name { x } else { b };
    match k {
      Kind::Attr => attrs += &format!(" {}=\"{}\"", n, b),
      _ => kids += &format!("<{0}>{1}</{0}>", n, b),
    }
  }
  if p.mult != Mult::One {
    match p.kind {
      Kind::Attr => attrs += &format!(" {}=\"{}\"", p.name, x),
      _ => kids += &format!("<{0}>{1}</{0}>", p.name, x),
    }
  }
  let doc = format!("<{0}{1}>{2}</{0}>", t.root, attrs, kids);
  let want = match (p.kind, p.mult) {
    (Kind::Attr, Mult::Vec) => {
      let l: Option<Vec<Val>> = x.split([' ', '\n', '\t']).filter(|y| !y.is_empty()).map(|y| grammar::scalar(sc, y)).collect();
      l.map(Val::List)
    }
    (Kind::Attr, Mult::One) => grammar::scalar(sc, x),
    (Kind::Attr, Mult::Opt) => grammar::scalar(sc, x).map(Val::some),
    (_, Mult::One) => grammar::scalar(sc, trimmed),
    (_, Mult::Opt) => Some(grammar::scalar(sc, trimmed).map_or(Val::None, Val::some)),
    (_, Mult::Vec) => Some(Val::List(grammar::scalar(sc, trimmed).into_iter().collect())),
  };
  (
    doc,
    want.map(|v| {
      vals[p.i] = v;
      Val::Struct(vals)
    }),
  )
}

/// A value that holds x at the position only.
fn holding(env: &Env, p: &Pos, x: &str) -> Val {
  let v = match p.mult {
    Mult::One => Val::s(x),
    Mult::Opt => Val::some(Val::s(x)),
    Mult::Vec => Val::List(vec![Val::s(x)]),
  };
  if p.en {
    return Val::var(p.i, v);
  }
  let mut vals = base(env, p.ty).1;
  vals[p.i] = v;
  Val::Struct(vals)
}

/// Visits the scalars of a value that are not strings.
fn scalars_of(s: &Schema, b: Base, v: &mut Val, f: &mut dyn FnMut(Sc, &mut String)) {
  match (b, v) {
    (b, Val::Some(v)) => scalars_of(s, b, v, f),
    (b, Val::List(l)) => l.iter_mut().for_each(|v| scalars_of(s, b, v, f)),
    (Base::Sc(sc), Val::S(x)) if sc != Sc::Str => f(sc, x),
    (Base::Ty(t), v) => match (&s.get(t).def, v) {
      (Def::Prim(sc), Val::S(x)) if *sc != Sc::Str => f(*sc, x),
      (Def::Struct(fs), Val::Struct(l)) => fs.iter().zip(l).for_each(|(d, v)| scalars_of(s, d.base, v, f)),
      (Def::Enum(vs, _), Val::Var(i, Some(p))) => {
        if let Some((_, b)) = vs[*i].payload {
          scalars_of(s, b, p, f)
        }
      }
      _ => {}
    },
    _ => {}
  }
}

/// A few texts in the place of every scalar of every type, read; those that are values, written.
fn everywhere(ctx: &Ctx, env: &Env) {
  const TEXTS: [&str; 30] = [
    "", " ", "0", "1", "-1", "+1", "01", " 5 ", "5.0", ".5", "5.", "1e1", "-0", "0x5", "1_0", "5 5", "a", "true", "True", "false", "NaN", "inf", "-inf", "256", "-129", "65536", "4294967296", "18446744073709551616", "1e400",
    "\u{663}",
  ];
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| t.ser && t.de && t.rt) {
    for (i, v) in base_values(&env.s, t.id, 40).into_iter().enumerate() {
      if i > 0 && !matches!(t.def, Def::Enum(..)) {
        break;
      }
      let mut at = vec![];
      scalars_of(&env.s, Base::Ty(t.id), &mut v.clone(), &mut |sc, _| at.push(sc));
      for (k, sc) in at.into_iter().enumerate() {
        tasks.push((t.id, v.clone(), k, sc));
      }
    }
  }
  ctx.bound("places of scalars in all types", tasks.len());
  let f = full(&env.s);
  ctx.par(&tasks, |(ty, v, k, sc), w| {
    let put = |x: &str| {
      let mut v = v.clone();
      let mut n = 0;
      scalars_of(&env.s, Base::Ty(*ty), &mut v, &mut |_, y| {
        if n == *k {
          *y = x.to_string();
        }
        n += 1;
      });
      v
    };
    let all = grammar::values(*sc, false);
    let mut l: Vec<String> = all.iter().step_by(all.len() / 200 + 1).cloned().collect();
    l.extend(all.iter().rev().take(2).cloned());
    let values = l.len();
    l.extend(TEXTS.iter().map(|x| x.to_string()));
    for (i, x) in l.iter().enumerate() {
      let v = put(x);
      let go = w.case(&format!("{} with {:?}", env.name(*ty), v), |w| {
        w.transitions += 2;
        w.traces += 1;
        w.count("texts in all types", 1);
        if i < values {
          let doc = env.ser(*ty, &v)?;
          let e = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?.root;
          if e.canon(false) != model::ser(&env.s, *ty, &v).canon(false) {
            return Err(format!("written {}", doc));
          }
          return agree(&env.de(*ty, &doc), &model::de(&env.s, *ty, &e)).map_err(|m| format!("{}: {}", doc, m));
        }
        let e = model::ser(&f, *ty, &v);
        let doc = render(&e);
        agree(&env.de(*ty, &doc), &model::de(&env.s, *ty, &e)).map_err(|m| format!("{}: {}", doc, m))
      });
      if !go {
        return;
      }
    }
  });
}

pub fn run(ctx: &Ctx, env: &Env) {
  everywhere(ctx, env);
  const A: [&str; 15] = ["0", "1", "2", "5", "9", "-", "+", ".", "e", "E", "a", "x", "_", " ", "t"];
  let n = ctx.pick(3, 4);
  ctx.bound("texts", format!("every text of up to {} of {:?}, and texts at the boundaries of the types", n, A));
  let mut tasks = vec![];
  for sc in SCS {
    let ps = positions(env, sc);
    ctx.bound(&format!("positions {:?}", sc), ps.len());
    for p in ps {
      for a in A {
        tasks.push((sc, Pos { ..p }, a));
      }
    }
  }
  let judge = |w: &mut Work, sc: Sc, p: &Pos, x: &str| -> bool {
    let (doc, want) = read(env, p, sc, x);
    w.case(&format!("{} {}", env.name(p.ty), doc), |w| {
      let got = env.de(p.ty, &doc);
      w.transitions += 2;
      w.traces += 1;
      w.outcome(&want);
      w.count(if want.is_some() { "values read" } else { "errors" }, 1);
      match (&want, &got) {
        (Some(a), Ok(b)) if a == b => Ok(()),
        (None, Err(_)) => Ok(()),
        _ => Err(format!("got {}, expected {:?}", show(&got), want)),
      }
    })
  };
  ctx.par(&tasks, |(sc, p, a), w| {
    if *a == "0" {
      if !judge(w, *sc, p, "") {
        return;
      }
      for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 65, 127] {
        for d in [-2i128, -1, 0, 1, 2] {
          let v = (1i128.checked_shl(k).unwrap_or(0)).wrapping_add(d);
          for x in [format!("{}", v), format!("{}", v.wrapping_neg()), format!("+{}", v), format!("000{}", v), format!("{}.0", v), format!("{}e0", v)] {
            if !judge(w, *sc, p, &x) {
              return;
            }
          }
        }
      }
      for x in [
        "true", "false", "TRUE", "FALSE", "True", "False", "yes", "no", "on", "tru", "truee", "true false", "01", "00", "10", "inf", "-inf", "+inf", "INF", "infinity", "-INFINITY", "nan", "NaN", "-nan", "1e400", "-1e400",
        "1e-400", "3.5e38", "1.8e308", "340282350000000000000000000000000000000", "0x10", "0b1", "0o7", "1_000", "1,000", "1.5.5", "1e5e5", "\u{661}", "\u{ff11}", "5\u{a0}", "\u{a0}5", "5 5", "\n5", "5\n", "- 5",
        "--5", "+-5", "1e", "e1", ".", "-", "+", ".e1", "5.", ".5", "-.5", "1e+5", "1E-5", "1e 5", "5f", "5u8", "5i32", "&#53;", "&#x35;",
      ] {
        // references: as in the document
        if x.starts_with('&') {
          let (doc, _) = read(env, p, *sc, x);
          let want = read(env, p, *sc, "5").1;
          let go = w.case(&format!("{} {}", env.name(p.ty), doc), |w| {
            let got = env.de(p.ty, &doc);
            w.transitions += 2;
            w.traces += 1;
            match (&want, &got) {
              (Some(a), Ok(b)) if a == b => Ok(()),
              (None, Err(_)) => Ok(()),
              _ => Err(format!("got {}, expected {:?}", show(&got), want)),
            }
          });
          if !go {
            return;
          }
          continue;
        }
        // an attribute keeps its line ends as they are read: not part of this property
        if x.contains('\u{a0}') && p.kind == Kind::Attr && p.mult == Mult::Vec {
          continue;
        }
        if x.contains('\n') && p.kind == Kind::Attr && p.mult != Mult::Vec {
          continue;
        }
        if !judge(w, *sc, p, x) {
          return;
        }
      }
    }
    if *a == "0" && matches!(sc, Sc::F32 | Sc::F64) {
      for x in grammar::near_midpoints(*sc == Sc::F32, w.ctx.thorough) {
        if !judge(w, *sc, p, &x) {
          return;
        }
      }
    }
    for k in 0..n {
      let mut stop = false;
      strings(&A, k, &mut |rest| {
        if !stop {
          stop = !judge(w, *sc, p, &format!("{}{}", a, rest));
        }
      });
      if stop {
        return;
      }
    }
  });
  // texts in pieces
  let mut tasks = vec![];
  for sc in SCS {
    for p in positions(env, sc) {
      if p.kind != Kind::Attr {
        tasks.push((sc, p));
      }
    }
  }
  ctx.par(&tasks, |(sc, p), w| {
    let (a, b) = if *sc == Sc::Bool { ("fal", "se") } else { ("1", "2") };
    let want = read(env, p, *sc, &format!("{}{}", a, b)).1;
    for x in grammar::spelled(a, b) {
      for x in [format!("\n {} \n", x), x] {
        let doc = read(env, p, *sc, &x).0;
        let go = w.case(&format!("{} {}", env.name(p.ty), doc), |w| {
          let got = env.de(p.ty, &doc);
          w.transitions += 2;
          w.traces += 1;
          w.count("texts in pieces", 1);
          match (&want, &got) {
            (Some(a), Ok(b)) if a == b => Ok(()),
            _ => Err(format!("got {}, expected {:?}", show(&got), want)),
          }
        });
        if !go {
          return;
        }
      }
    }
  });
  // every value
  let mut tasks = vec![];
  for sc in SCS {
    let l = grammar::values(sc, ctx.thorough);
    ctx.bound(&format!("values {:?}", sc), l.len());
    for p in positions(env, sc) {
      for c in l.chunks(4000) {
        tasks.push((sc, Pos { ..p }, c.to_vec()));
      }
    }
  }
  ctx.par(&tasks, |(sc, p, l), w| {
    let ser = env.s.get(p.ty).ser;
    for (i, x) in l.iter().enumerate() {
      if *sc == Sc::Str && !ser {
        continue;
      }
      let v = holding(env, p, x);
      let go = w.case(&format!("{} written {:?}", env.name(p.ty), v), |w| {
        let doc = if ser {
          let doc = env.ser(p.ty, &v)?;
          let e = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?.root;
          if e.canon(false) != model::ser(&env.s, p.ty, &v).canon(false) {
            return Err(format!("written {}", doc));
          }
          w.count("values written", 1);
          doc
        } else {
          read(env, p, *sc, x).0
        };
        w.transitions += 2;
        w.traces += 1;
        let got = env.de(p.ty, &doc);
        match &got {
          Ok(b) if *b == v => Ok(()),
          _ => Err(format!("{} read as {}", doc, show(&got))),
        }
      });
      if !go {
        return;
      }
      if i == 100 {
        w.ctx.sample(format!("{} {:?}", env.name(p.ty), v));
      }
    }
  });
  // all values of 8 and 16 bits in one list, in order and reversed
  let mut tasks = vec![];
  for sc in [Sc::I8, Sc::U8, Sc::I16, Sc::U16] {
    for p in positions(env, sc) {
      if p.mult == Mult::Vec {
        tasks.push((sc, p));
      }
    }
  }
  ctx.par(&tasks, |(sc, p), w| {
    let mut l: Vec<Val> = grammar::values(*sc, false).iter().map(|x| Val::s(x)).collect();
    for dir in ["ascending", "descending"] {
      let list = Val::List(l.clone());
      let v = if p.en {
        Val::var(p.i, list)
      } else {
        let mut vals = base(env, p.ty).1;
        vals[p.i] = list;
        Val::Struct(vals)
      };
      let go = w.case(&format!("{} all {:?} {}", env.name(p.ty), sc, dir), |w| {
        let t = env.s.get(p.ty);
        let doc = if t.ser {
          env.ser(p.ty, &v)?
        } else {
          let x: Vec<&str> = l.iter().map(|v| v.text()).collect();
          format!("<{} {}=\"{}\"/>", t.root, p.name, x.join(" "))
        };
        w.transitions += 2 * l.len() as u64;
        w.traces += 1;
        match env.de(p.ty, &doc) {
          Ok(b) if b == v => Ok(()),
          r => Err(clip(&format!("read as {}", show(&r)))),
        }
      });
      if !go {
        return;
      }
      l.reverse();
    }
  });
}
