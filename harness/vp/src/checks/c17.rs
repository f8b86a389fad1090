//! Primitive types: every short text and every value, in every position, against a grammar of
//! numerals.
use crate::env::*;
use crate::grammar;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

/// Where a text stands: the document and what is read if the text stands for `v`.
/// None: the whole must be an error.
fn places(p: &str, base: &str, x: &str) -> Vec<(String, String, Box<dyn Fn(Option<Val>) -> Option<Val>>)> {
  let pos = format!("Pos{}", p);
  let pose = format!("PosE{}", p);
  let posv = format!("PosV{}", p);
  let b = Val::s(base);
  // e o v r a b
  let st = move |i: usize, v: Val| {
    let mut l = vec![b.clone(), Val::None, Val::List(vec![]), Val::None, b.clone(), Val::None];
    l[i] = v;
    Val::Struct(l)
  };
  let mut out: Vec<(String, String, Box<dyn Fn(Option<Val>) -> Option<Val>>)> = vec![];
  out.push((p.into(), format!("<{p}>{x}</{p}>"), Box::new(|v| v)));
  out.push((p.into(), format!("<any q=\"{base}\">{x}</any>"), Box::new(|v| v)));
  let e = format!("<e>{base}</e>");
  let s = st.clone();
  out.push((pos.clone(), format!("<{pos} a=\"{base}\"><e>{x}</e></{pos}>"), Box::new(move |v| v.map(|v| s(0, v)))));
  let s = st.clone();
  out.push((pos.clone(), format!("<{pos} a=\"{base}\">{e}<o>{x}</o></{pos}>"), Box::new(move |v| v.map(|v| s(1, Val::some(v))))));
  let (s, bb) = (st.clone(), base.to_string());
  out.push((
    pos.clone(),
    format!("<{pos} a=\"{base}\"><v>{x}</v><v>{base}</v>{e}<v>{x}</v></{pos}>"),
    Box::new(move |v| v.map(|v| s(2, Val::List(vec![v.clone(), Val::s(&bb), v])))),
  ));
  let s = st.clone();
  out.push((pos.clone(), format!("<{pos} a=\"{base}\">{e}<re-named>{x}</re-named></{pos}>"), Box::new(move |v| v.map(|v| s(3, Val::some(v))))));
  let s = st.clone();
  out.push((pos.clone(), format!("<{pos} a=\"{x}\">{e}</{pos}>"), Box::new(move |v| v.map(|v| s(4, v)))));
  let s = st.clone();
  out.push((pos.clone(), format!("<{pos} b.b=\"{x}\" a=\"{base}\">{e}</{pos}>"), Box::new(move |v| v.map(|v| s(5, Val::some(v))))));
  out.push((pose.clone(), format!("<{pose}><V>{x}</V></{pose}>"), Box::new(|v| v.map(|v| Val::var(1, v)))));
  out.push((pose.clone(), format!("<{pose}><O>{x}</O></{pose}>"), Box::new(|v| v.map(|v| Val::var(2, Val::some(v))))));
  let bb = base.to_string();
  out.push((pose.clone(), format!("<{pose}><W>{base}</W><W>{x}</W></{pose}>"), Box::new(move |v| v.map(|v| Val::var(3, Val::List(vec![Val::s(&bb), v]))))));
  if !x.is_empty() && !x.contains(char::is_whitespace) {
    let bb = base.to_string();
    out.push((
      posv.clone(),
      format!("<{posv} w=\"{x} {base}\"><x>7</x></{posv}>"),
      Box::new(move |v| v.map(|v| Val::Struct(vec![Val::List(vec![v, Val::s(&bb)]), Val::some(Val::s("7"))]))),
    ));
  }
  out
}

/// Values of a primitive type, as their texts.
fn values_of(def: &Def, thorough: bool) -> Vec<String> {
  match def {
    Def::Prim(Sc::Str) => {
      let mut l = vec![];
      for n in 0..=2 {
        strings(&["a", "1", "<", "&", "\"", "]", "\u{e9}", "x"], n, &mut |s| l.push(s.to_string()));
      }
      l.push("a b".into());
      l
    }
    Def::Prim(sc) => grammar::values(*sc, thorough),
    Def::Hex(bits, mask) => {
      let mut l: Vec<u64> = vec![];
      if *bits <= 16 {
        l.extend(0..(1u64 << bits));
      } else {
        for k in 0..*bits {
          l.push(1 << k);
          l.push((1u64 << k) - 1);
          l.push(!0u64 >> (64 - bits) & !(1 << k));
          for j in 0..k {
            l.push(1 << k | 1 << j);
          }
        }
        l.push(!0u64 >> (64 - bits));
      }
      l.retain(|v| v & !mask == 0);
      l.into_iter().map(grammar::hex).collect()
    }
    _ => vec![],
  }
}

pub fn run(ctx: &Ctx, env: &Env) {
  let prims = env.group("prim");
  let base = |ty: usize| match env.s.get(ty).def {
    Def::Prim(Sc::Bool) => "true",
    Def::Hex(..) => "F1",
    _ => "5",
  };
  // 1. every short text
  const A: [&str; 14] = ["0", "1", "9", "-", "+", ".", "e", "E", "a", "F", "f", "x", "_", " "];
  let n = ctx.pick(4, 5);
  ctx.bound("texts", format!("every text of up to {} of {:?}, and texts at the boundaries of the types", n, A));
  let mut tasks = vec![];
  for &ty in &prims {
    for a in A {
      tasks.push((ty, a));
    }
  }
  let judge = |w: &mut Work, ty: usize, x: &str| -> bool {
    let t = env.s.get(ty);
    for (name, doc, f) in places(t.rust, base(ty), x) {
      let id = env.s.by_name(&name).id;
      let go = w.case(&format!("{} {}", name, doc), |w| {
        let want = f(grammar::prim(&t.def, x.trim_matches([' ', '\n'])));
        let got = env.de(id, &doc);
        w.transitions += 2;
        w.traces += 1;
        w.outcome(&want);
        w.count(if want.is_some() { "values read" } else { "errors" }, 1);
        match (&want, &got) {
          (Some(a), Ok(b)) if a == b => Ok(()),
          (None, Err(_)) => Ok(()),
          _ => Err(format!("got {}, expected {:?}", show(&got), want)),
        }
      });
      if !go {
        return false;
      }
    }
    true
  };
  ctx.par(&tasks, |&(ty, a), w| {
    if a == "0" {
      judge(w, ty, "");
      for x in [
        "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
        "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "100000000000000000000000000000", "00000000000000000000000000005", "true",
        "false", "TRUE", "True", "1", "0", "yes", "t", "inf", "-inf", "NaN", "nan", "INF", "infinity", "-Infinity", "1e400", "-1e400", "1e-400", "0x10", "FF", "100", "FFFF", "10000",
        "FFFFFFFF", "100000000", "FFFFFFFFFFFFFFFF", "10000000000000000", "000000000000000000000000FF", "f0f1", "F0F2", "0F00", "\u{661}", "\u{ff11}", "5\u{a0}", "5,0", "1'000", "5.0", "5.", "#5", "$",
      ] {
        if !judge(w, ty, x) {
          return;
        }
      }
    }
    for k in 0..n {
      let mut stop = false;
      strings(&A, k, &mut |rest| {
        if !stop {
          stop = !judge(w, ty, &format!("{}{}", a, rest));
        }
      });
      if stop {
        return;
      }
    }
  });
  // text in pieces: comments, CDATA, references
  let mut pieces: Vec<(usize, String, &str)> = vec![];
  for &ty in &prims {
    let (a, b, both) = match env.s.get(ty).def {
      Def::Prim(Sc::Bool) => ("tr", "ue", "true"),
      _ => ("1", "2", "12"),
    };
    for x in grammar::spelled(a, b) {
      pieces.push((ty, format!("\n {} \n", x), both));
      pieces.push((ty, x, both));
    }
  }
  ctx.bound("texts in pieces", pieces.len());
  ctx.par(&pieces, |(ty, x, plain), w| {
    let (ty, plain) = (*ty, *plain);
    let t = env.s.get(ty);
    for (name, doc, f) in places(t.rust, base(ty), x) {
      if doc.contains(&format!("\"{}", x)) {
        continue;
      }
      let id = env.s.by_name(&name).id;
      let go = w.case(&format!("{} {}", name, doc), |w| {
        let want = f(grammar::prim(&t.def, plain));
        let got = env.de(id, &doc);
        w.transitions += 2;
        w.traces += 1;
        match (&want, &got) {
          (Some(a), Ok(b)) if a == b => Ok(()),
          (None, Err(_)) => Ok(()),
          _ => Err(format!("got {}, expected {:?}", show(&got), want)),
        }
      });
      if !go {
        return;
      }
    }
  });
  // 2. every value: its text, wherever it stands, and back
  let mut tasks = vec![];
  for &ty in &prims {
    let l = values_of(&env.s.get(ty).def, ctx.thorough);
    ctx.bound(&format!("values {}", env.name(ty)), l.len());
    for c in l.chunks(2000) {
      tasks.push((ty, c.to_vec()));
    }
  }
  ctx.par(&tasks, |(ty, l), w| {
    let t = env.s.get(*ty);
    let string = matches!(t.def, Def::Prim(Sc::Str));
    for (i, x) in l.iter().enumerate() {
      for (name, v) in positions(t.rust, base(*ty), x) {
        // an attribute of a derived type is escaped twice (known finding of C11)
        if string && name.starts_with("Pos") && !name.starts_with("PosE") && x.contains(['<', '&']) {
          continue;
        }
        let id = env.s.by_name(&name).id;
        let go = w.case(&format!("{} written {:?}", name, v), |w| {
          let doc = env.ser(id, &v)?;
          let e = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?.root;
          w.transitions += 2;
          w.traces += 1;
          w.count("values written", 1);
          if e.canon(false) != model::ser(&env.s, id, &v).canon(false) {
            return Err(format!("written {}", doc));
          }
          let got = env.de(id, &doc);
          match &got {
            Ok(b) if *b == v => Ok(()),
            _ => Err(format!("{} read as {}", doc, show(&got))),
          }
        });
        if !go {
          return;
        }
      }
      if i == 7 {
        w.ctx.sample(format!("{} {:?} -> {:?}", t.rust, x, env.ser(*ty, &Val::s(x))));
      }
    }
  });
  // 3. an attribute whose value holds markup characters (known finding)
  let prims = env.s.by_name("PosPrimS").id;
  ctx.one("PosPrimS attribute holding a reference", |w| {
    w.transitions += 1;
    let got = env.de(prims, "<PosPrimS a=\"x&amp;y\"><e>5</e></PosPrimS>");
    match &got {
      Ok(Val::Struct(l)) if l[4] == Val::s("x&y") => Ok(()),
      _ => Err(format!("a=\"x&amp;y\" read as {}", show(&got))),
    }
  });
}

/// The value x in every position: (type, value).
fn positions(p: &str, base: &str, x: &str) -> Vec<(String, Val)> {
  let b = Val::s(base);
  let v = Val::s(x);
  let pos = format!("Pos{}", p);
  let pose = format!("PosE{}", p);
  let st = |e: &Val, o: Val, l: Vec<Val>, r: Val, a: &Val, c: Val| Val::Struct(vec![e.clone(), o, Val::List(l), r, a.clone(), c]);
  vec![
    (p.to_string(), v.clone()),
    (pos.clone(), st(&v, Val::None, vec![], Val::None, &b, Val::None)),
    (pos.clone(), st(&b, Val::some(v.clone()), vec![v.clone(), b.clone(), v.clone()], Val::some(v.clone()), &v, Val::some(v.clone()))),
    (pose.clone(), Val::var(1, v.clone())),
    (pose.clone(), Val::var(2, Val::some(v.clone()))),
    (pose, Val::var(3, Val::List(vec![v.clone(), b, v]))),
  ]
}
