//! Totality: every truncation, every token and byte mutation, every short token string.
//! The oracle: never a panic, an abort or an endless run; an ill-formed or truncated root is an
//! error; a well-formed one means what the model says.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::xml::*;

const TOKENS: [&str; 26] = [
  "<a>", "</a>", "<a/>", "x", "<b>", "</b>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "&lt;", "&", ";", "<", ">", "\"", "'",
  " b=\"5\"", "=", " ", "/", "&#x0;", "\u{e9}", "<!DOCTYPE a>",
];

/// Where this sandbox's XML parser is known to accept what XML 1.0 forbids; such input is not
/// required to be an error (it must still terminate without a panic).
fn lenient(m: &str) -> bool {
  m.contains("]]> in character data") || m.contains("< in attribute value") || m.contains("local part") || m.contains("processing instruction") || m == "doctype"
}

fn judge(env: &Env, w: &mut Work, ty: usize, doc: &str) -> Result<(), String> {
  let got = env.de(ty, doc);
  w.transitions += 1;
  w.outcome(&got.as_ref().ok());
  match parse_root(doc) {
    Err(m) => {
      w.count("ill-formed", 1);
      match got {
        Ok(_) if !lenient(&m) => Err(format!("not well-formed ({}), but {}", m, show(&got))),
        _ => Ok(()),
      }
    }
    Ok((d, _)) => {
      w.count("well-formed", 1);
      w.traces += 1;
      if got.is_err() && parse(doc).is_err() {
        // ill-formed after the root: may be noticed or not
        return Ok(());
      }
      agree(&got, &model::de(&env.s, ty, &d.root))
    }
  }
}

/// Markup and text pieces of a document.
fn tokens(doc: &str) -> Vec<&str> {
  let b = doc.as_bytes();
  let mut out = vec![];
  let mut i = 0;
  let mut s = 0;
  let mut cut = |s: &mut usize, i: usize| {
    if i > *s {
      out.push(&doc[*s..i]);
    }
    *s = i;
  };
  while i < b.len() {
    match b[i] {
      b'<' => {
        cut(&mut s, i);
        i += 1;
        if i < b.len() && matches!(b[i], b'/' | b'!' | b'?') {
          i += 1;
        }
        cut(&mut s, i);
      }
      b'>' | b'"' | b'=' | b' ' | b'/' | b':' | b'&' | b';' => {
        cut(&mut s, i);
        i += 1;
        cut(&mut s, i);
      }
      _ => i += 1,
    }
  }
  cut(&mut s, b.len());
  out
}

/// Every text and every attribute value of a document replaced by `t`, each in turn; unknown
/// elements and attributes of that name.
fn replaced(e: &Elem, t: &str) -> Vec<Elem> {
  let mut out = vec![];
  for i in 0..e.kids.len() {
    match &e.kids[i] {
      Node::T(_) | Node::C(_) => {
        let mut d = e.clone();
        d.kids[i] = Node::T(t.into());
        out.push(d);
      }
      Node::E(x) => {
        for y in replaced(x, t) {
          let mut d = e.clone();
          d.kids[i] = Node::E(y);
          out.push(d);
        }
      }
      _ => {}
    }
  }
  for i in 0..e.attrs.len() {
    let mut d = e.clone();
    d.attrs[i].value = t.into();
    out.push(d);
  }
  if !t.starts_with(|c: char| c.is_ascii_digit()) && !t.contains('\u{20ac}') {
    let mut d = e.clone();
    let mut z = Elem::new(t);
    z.kids.push(Node::T("5".into()));
    d.kids.push(Node::E(z));
    out.push(d);
    let mut d = e.clone();
    d.attrs.push(Attr { ns: None, name: t.into(), value: "5".into() });
    out.push(d);
  }
  out
}

pub fn run(ctx: &Ctx, env: &Env) {
  bigs(ctx);
  let bases = ctx.pick(3, 10);
  let mut tasks = vec![];
  for ty in env.all_de() {
    for (i, e) in base_docs(&env.s, ty, bases).into_iter().enumerate() {
      tasks.push((ty, i, render(&e), e));
    }
  }
  ctx.bound("documents", tasks.len());
  ctx.par(&tasks, |(ty, i, doc, _), w| {
    let ty = *ty;
    let mut go = true;
    let mut one = |w: &mut Work, d: String, kind: &'static str| {
      if !go {
        return;
      }
      w.count(kind, 1);
      go = w.case(&format!("{} {}", env.name(ty), d), |w| judge(env, w, ty, &d));
    };
    for k in 0..doc.len() {
      if doc.is_char_boundary(k) {
        one(w, doc[..k].to_string(), "truncations");
      }
    }
    let t = tokens(doc);
    if *i > 0 && t.len() > 120 && !ctx.thorough {
      return;
    }
    for k in 0..t.len() {
      let mut l = t.clone();
      l.remove(k);
      one(w, l.concat(), "token deletions");
      let mut l = t.clone();
      l.insert(k, t[k]);
      one(w, l.concat(), "token duplications");
      for x in TOKENS {
        let mut l = t.clone();
        l[k] = x;
        one(w, l.concat(), "token replacements");
        let mut l = t.clone();
        l.insert(k, x);
        one(w, l.concat(), "token insertions");
      }
      if t.len() < 60 || ctx.thorough {
        for m in k + 1..t.len() {
          let mut l = t.clone();
          l.swap(k, m);
          one(w, l.concat(), "token swaps");
          // a hole of any length
          let mut l = t.clone();
          l.drain(k..m);
          one(w, l.concat(), "token range deletions");
        }
      }
    }
    if ty % 19 == 0 && *i == 0 {
      ctx.sample(format!("{} {:?}", env.name(ty), t));
    }
  });
  // long texts and names, with characters of every width at every place
  let n = ctx.pick(40, 140);
  ctx.bound("texts and names", format!("up to {} characters of one byte before, after or within ones of one to four", n));
  let some: Vec<_> = tasks.iter().filter(|(ty, i, _, _)| *i < if env.s.get(*ty).has("pair") { 1 } else { ctx.pick(2, 6) }).collect();
  ctx.par(&some, |(ty, _, _, e), w| {
    let ty = *ty;
    for k in 0..=n {
      for c in ["", "\u{e9}", "\u{20ac}", "\u{1F600}"] {
        if c.is_empty() && k == 0 {
          continue;
        }
        let mut texts = vec![format!("{}{}{}", "1".repeat(k), c, "2"), format!("{}{}", "x".repeat(k), c.repeat(3))];
        if k > 0 && !c.is_empty() {
          texts.push(c.repeat(k));
        }
        for t in &texts {
          for d in replaced(e, t) {
            let doc = render(&d);
            let go = w.case(&format!("{} {}", env.name(ty), doc), |w| {
              w.count("long texts and names", 1);
              judge(env, w, ty, &doc)
            });
            if !go {
              return;
            }
          }
        }
      }
    }
  });
  // bytes
  let io: Vec<_> = tasks.iter().filter(|(ty, i, _, _)| *i < ctx.pick(2, 6) && env.ops[*ty].de_r.is_some()).collect();
  ctx.par(&io, |(ty, _, doc, _), w| {
    for k in 0..doc.len() {
      for x in [0u8, 0x1f, 0x80, 0xc3, 0xed, 0xf8, 0xff, b'<', b'>', b'&', b'"', b'\'', b'/', b'!', b'?', b'[', b']', b' ', b'\n', b'\r'] {
        for insert in [false, true] {
          let mut b = doc.as_bytes().to_vec();
          if insert {
            b.insert(k, x);
          } else {
            b[k] = x;
          }
          let text = String::from_utf8_lossy(&b).into_owned();
          let go = w.case(&format!("{} byte {:#x} {} {}", env.name(*ty), x, if insert { "before" } else { "for" }, text), |w| {
            w.count("byte mutations", 1);
            if let Ok(s) = std::str::from_utf8(&b) {
              judge(env, w, *ty, s)?;
            }
            let got = env.ops[*ty].de_r.unwrap()(&mut &b[..]);
            w.transitions += 1;
            match std::str::from_utf8(&b) {
              Err(_) if got.is_ok() => Err(format!("not UTF-8, but {}", show(&got))),
              Err(_) => Ok(()),
              Ok(s) => agree(&got, &env.de(*ty, s)),
            }
          });
          if !go {
            return;
          }
        }
      }
    }
  });
  // all short strings of tokens, as content of the root, and as the whole document
  let tys: Vec<usize> = ["Leaf", "LeafT", "NewE", "UnitE", "TwoV", "PrimI", "Deep1", "Rec", "FlO", "RootFlE", "MixedT", "Tagged", "NsA"]
    .iter()
    .map(|n| env.s.by_name(n).id)
    .collect();
  let mut tasks = vec![];
  for &t in &tys {
    for (k, first) in TOKENS.iter().enumerate() {
      tasks.push((t, k, *first));
    }
  }
  let n = ctx.pick(2, 3);
  ctx.bound("token strings", format!("all of up to {} tokens of {} for {} types, inside and as the document", n + 1, TOKENS.len(), tys.len()));
  ctx.par(&tasks, |(ty, k, first), w| {
    let root = render(&{
      let t = env.s.get(*ty);
      let mut e = vcore::xml::Elem::new(t.root);
      e.ns = t.uri(t.prefix).map(|x| x.to_string());
      e.kids.push(Node::T("@".into()));
      e
    });
    let (pre, post) = root.split_once('@').unwrap();
    let mut go = true;
    for m in 0..=n {
      // with the own tags of the type in the alphabet
      strings(&TOKENS, m, &mut |s| {
        for whole in [true, false] {
          if !go {
            return;
          }
          let d = if whole { format!("{}{}", first, s) } else { format!("{}{}{}{}", pre, first, s, post) };
          w.count("token strings", 1);
          go = w.case(&format!("{} {}", env.name(*ty), d), |w| judge(env, w, *ty, &d));
        }
      });
    }
    let _ = k;
  });
}

/// A big document: `deep` foreign nesting, `own` nesting of the type's own element, `wide`
/// siblings, a long `text`, a long `attr`, `open` tags only.
pub fn big(ty: &str, how: &str, n: usize) -> String {
  let rep = |s: &str| s.repeat(n);
  let (open, own) = match ty {
    "Leaf" => ("<Leaf>", "<a>x</a>"),
    "Fl" => ("<Fl>", "<x>5</x><a>x</a>"),
    "NewE" => ("<NewE>", "<S>x</S>"),
    "Mixed" => ("<Mixed id=\"5\">", "<name>x</name><sub><a>x</a></sub><kind>A</kind>"),
    "Rec" => ("<Rec>", "<v>5</v>"),
    "LeafT" => ("<LeafT>", "x"),
    "PrimS" => ("<PrimS>", "x"),
    _ => unreachable!(),
  };
  let close = format!("</{}>", ty);
  match how {
    "deep" => format!("{}{}{}{}{}", open, rep("<zz>"), rep("</zz>"), own, close),
    "own" => format!("<Rec>{}{}<v>5</v></Rec>", rep("<r><v>5</v>"), rep("</r>")),
    "wide" => format!("{}{}{}{}", open, own, rep("<zz/>t<zz a=\"5\">t</zz>"), close),
    "text" => format!("{}<zz>{}</zz>{}{}", open, rep("text "), own, close),
    "attr" => format!("{} zz=\"{}\">{}{}", &open[..open.len() - 1], rep("text "), own, close),
    "open" => format!("{}{}", open, rep("<zz>")),
    _ => unreachable!(),
  }
}

/// Big documents, each in a process of its own.
fn bigs(ctx: &Ctx) {
  let mut tasks = vec![];
  let n = ctx.pick(100_000, 500_000);
  for ty in ["Leaf", "Fl", "NewE", "Mixed", "LeafT", "PrimS"] {
    for how in ["deep", "wide", "text", "attr", "open"] {
      // the parser itself takes quadratic time for nesting
      tasks.push((ty, how, if how == "deep" || how == "open" { n / 10 } else { n }));
    }
  }
  for n in [10, 100, 300] {
    tasks.push(("Rec", "own", n));
  }
  tasks.push(("Rec", "own", 100_000));
  ctx.bound("big documents", format!("{} documents of up to {} repetitions", tasks.len(), n));
  let exe = std::env::current_exe().expect("exe");
  ctx.par(&tasks, |&(ty, how, n), w| {
    w.case(&format!("big {} {} {}", ty, how, n), |w| {
      w.transitions += n as u64;
      w.traces += 1;
      let o = std::process::Command::new("timeout").arg("25").arg(&exe).args(["big", ty, how, &n.to_string()]).output().map_err(|e| e.to_string())?;
      let out = String::from_utf8_lossy(&o.stdout);
      // a derived primitive is not written to have child elements
      let want = if how == "open" || ty == "PrimS" && how != "attr" { None } else { Some("value") };
      match (out.trim(), want) {
        ("value", Some(_)) | ("error", None) => Ok(()),
        ("value", None) if ty == "PrimS" && how != "open" => Ok(()),
        _ => Err(format!("{:?} {} {}", o.status, out.trim(), clip(&String::from_utf8_lossy(&o.stderr)))),
      }
    });
  });
}
