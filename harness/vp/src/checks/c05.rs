//! Foreign content at every position, one and two at a time, changes nothing.
use crate::env::*;
use vcore::docs::*;
use vcore::model;
use vcore::run::*;
use vcore::scale::sizes;
use vcore::schema::*;
use vcore::xml::*;

fn fragments(env: &Env, ty: usize, root: &Elem, rich: bool) -> Vec<Node> {
  let v = voc(&env.s, ty, if rich { 3 } else { 1 }, false);
  let mut z = vec![];
  let e = |k: Vec<Node>| {
    let mut x = Elem::new("zz");
    x.kids = k;
    Node::E(x)
  };
  let named = |n: &(Option<String>, String), k: Vec<Node>| {
    let mut x = Elem::new(&n.1);
    x.ns = n.0.clone();
    x.kids = k;
    x
  };
  z.push(e(vec![]));
  z.push(e(vec![Node::T("5".into())]));
  z.push(Node::Com(" <a>5</a> ".into()));
  z.push(Node::Pi("a b='5'".into()));
  z.push(Node::T("\n  ".into()));
  z.push(e(vec![Node::E(root.clone())]));
  if rich {
    // what other vocabularies give a meaning
    for p in ["xml-stylesheet type='text/xsl' href='a.xsl'", "xml-model href='a.rng'", "xmlx version='1.0'"] {
      z.push(Node::Pi(p.into()));
    }
    for (ns, n, k) in [
      ("http://www.w3.org/2001/XInclude", "include", "fallback"),
      ("http://www.w3.org/2000/09/xmldsig#", "Signature", "SignedInfo"),
      ("http://www.w3.org/1999/xhtml", "div", "p"),
    ] {
      if !v.names.iter().any(|x| x.1 == n || x.1 == k) {
        let mut inner = Elem::new(k);
        inner.ns = Some(ns.into());
        inner.kids = root.kids.clone();
        let mut x = Elem::new(n);
        x.ns = Some(ns.into());
        x.attrs.push(Attr { ns: None, name: "href".into(), value: "a.xml".into() });
        x.kids.push(Node::E(inner));
        z.push(Node::E(x));
      }
    }
  }
  let mut attr = Elem::new("zz");
  for a in &v.attrs {
    attr.attrs.push(Attr { ns: None, name: a.1.clone(), value: "6".into() });
  }
  z.push(Node::E(attr));
  if rich {
    // elements with a name near to one of the type's
    for n in nears(&env.s, ty).0 {
      z.push(Node::E(named(&n, vec![Node::T("5".into())])));
    }
    // elements named like attributes and texts of the type itself
    for n in voc(&env.s, ty, 5, false).odd {
      z.push(Node::E(named(&n, vec![Node::T("5".into())])));
    }
  }
  for n in v.names.iter().filter(|n| n.1 != "zz") {
    let own = named(n, vec![Node::T("5".into())]);
    z.push(e(vec![Node::E(own.clone())]));
    z.push(e(vec![Node::T("q".into()), Node::E(own.clone()), Node::E(own.clone()), Node::C("r".into())]));
    if rich {
      z.push(e(vec![e(vec![Node::E(own.clone())]), Node::E(own.clone())]));
      // nested below an equally named element
      z.push(e(vec![Node::E(named(n, vec![Node::E(own.clone())]))]));
      z.push(Node::E(named(&(Some("urn:foreign".into()), n.1.clone()), vec![Node::E(own.clone())])));
    }
    z.push(Node::E(named(&(Some("urn:foreign".into()), n.1.clone()), vec![Node::T("5".into())])));
  }
  z
}

/// Attributes that mean something to other processors.
fn known_attributes() -> Vec<(Option<String>, String, &'static str)> {
  let xsi = Some("http://www.w3.org/2001/XMLSchema-instance".to_string());
  let xml = Some("http://www.w3.org/XML/1998/namespace".to_string());
  let mut l = vec![];
  for v in ["true", "1", "false"] {
    l.push((xsi.clone(), "nil".to_string(), v));
    l.push((None, "nil".to_string(), v));
  }
  for ns in [&xsi, &None] {
    l.push((ns.clone(), "type".into(), "xs:string"));
    l.push((ns.clone(), "schemaLocation".into(), "urn:a a.xsd"));
  }
  for (n, v) in [("space", "preserve"), ("lang", "en"), ("base", "http://a/"), ("id", "i1")] {
    l.push((xml.clone(), n.into(), v));
    l.push((None, n.into(), v));
  }
  l.push((None, "encoding".into(), "base64"));
  l.push((None, "version".into(), "1.1"));
  l.push((None, "href".into(), "#i1"));
  l
}

fn flat_enum(env: &Env, t: usize) -> bool {
  env.s.get(t).fields().iter().any(|f| {
    f.kind == Kind::Flatten && matches!(f.base, Base::Ty(b) if matches!(env.s.get(b).def, Def::Enum(..)) || flat_enum(env, b))
  })
}

/// Every document with one fragment inserted between members.
fn insertions(env: &Env, ty: usize, e: &Elem, frags: &[Node], rich: bool) -> Vec<Elem> {
  let mut out = vec![];
  let xml = Some("http://www.w3.org/XML/1998/namespace".to_string());
  let mut attrs: Vec<(Option<String>, String)> = vec![(None, "qq".into()), (Some("urn:foreign".to_string()), "qq".into()), (xml, "space".into())];
  let (near_elems, near_attrs) = nears(&env.s, ty);
  if rich {
    attrs.extend(near_attrs.into_iter().map(|n| (None, n)));
  }
  let mut attrs: Vec<(Option<String>, String, &str)> = attrs.into_iter().map(|(ns, n)| (ns, n, "7")).collect();
  if rich {
    let own = voc(&env.s, ty, 6, false).attrs;
    attrs.extend(known_attributes().into_iter().filter(|a| !own.iter().any(|o| o.1 == a.1)));
  }
  let foreign = |n: &str| matches!(n, "zz" | "include" | "Signature" | "div") || near_elems.iter().any(|x| x.1 == n);
  for (path, at) in places(&env.s, ty, e) {
    let n = get(e, &path);
    for f in frags {
      if at == At::Scalar {
        break;
      }
      // a variant is named by its local name in any namespace
      if (matches!(at, At::Enum(_)) || matches!(at, At::Struct(t) if flat_enum(env, t))) && matches!(f, Node::E(x) if !foreign(&x.name)) {
        continue;
      }
      for i in 0..=n.kids.len() {
        // text stays in one piece
        let split = i > 0 && i < n.kids.len() && matches!(n.kids[i - 1], Node::T(_) | Node::C(_)) && matches!(n.kids[i], Node::T(_) | Node::C(_));
        if split {
          continue;
        }
        let mut d = e.clone();
        at_mut(&mut d, &path).kids.insert(i, f.clone());
        out.push(d);
      }
    }
    for (ns, name, value) in &attrs {
      if n.attrs.iter().any(|a| a.name == *name) {
        continue;
      }
      for first in [false, true] {
        let mut d = e.clone();
        let a = Attr { ns: ns.clone(), name: name.clone(), value: value.to_string() };
        let l = &mut at_mut(&mut d, &path).attrs;
        if first {
          l.insert(0, a)
        } else {
          l.push(a)
        }
        out.push(d);
      }
    }
  }
  out
}

/// Every document with one of its texts written in other pieces: a comment or an instruction
/// within it, a part of it or all of it as a CDATA section.
fn respelled(env: &Env, ty: usize, e: &Elem) -> Vec<Elem> {
  let mut out = vec![];
  for (path, at) in places(&env.s, ty, e) {
    if at == At::Foreign {
      continue;
    }
    let n = get(e, &path);
    for (i, k) in n.kids.iter().enumerate() {
      let t = match k {
        Node::T(t) | Node::C(t) => t,
        _ => continue,
      };
      let mut put = |l: Vec<Node>| {
        let mut d = e.clone();
        at_mut(&mut d, &path).kids.splice(i..=i, l);
        out.push(d);
      };
      let text = |t: &str| Node::T(t.into());
      let data = |t: &str| Node::C(t.into());
      if !t.contains("]]>") {
        put(vec![data(t)]);
      }
      let cuts: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
      for &c in &cuts {
        let (a, b) = t.split_at(c);
        let part = |mid: Node| -> Vec<Node> {
          [text(a), mid, text(b)].into_iter().filter(|n| !matches!(n, Node::T(t) if t.is_empty())).collect()
        };
        put(part(Node::Com(" <a>5</a> ".into())));
        let blank = |c: Option<char>| c.is_some_and(char::is_whitespace);
        if !blank(a.chars().last()) && !blank(b.chars().next()) {
          put(part(Node::Pi("a b='5'".into())));
        }
        if !a.is_empty() && !b.is_empty() && !t.contains("]]>") {
          put(vec![data(a), text(b)]);
          put(vec![text(a), data(b)]);
          put(vec![data(a), data(b)]);
          put(vec![data(a), Node::Com("c".into()), data(b)]);
        }
      }
    }
  }
  out
}

fn spell(e: &Elem) -> String {
  // the xml prefix is predeclared
  render(e)
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for ty in env.all_de() {
    let pair = env.s.get(ty).has("pair");
    for (i, e) in base_docs(&env.s, ty, if pair { ctx.pick(2, 10) } else { ctx.pick(6, 16) }).into_iter().enumerate() {
      tasks.push((ty, i, e.clone(), true));
      if i < if pair { ctx.pick(1, 4) } else { ctx.pick(2, 8) } {
        tasks.push((ty, i, e, false));
      }
    }
  }
  let budget = ctx.pick(10_000, 400_000);
  ctx.par(&tasks, |(ty, i, e, single), w| {
    let ty = *ty;
    let doc = render(e);
    let want = model::de(&env.s, ty, e);
    if *single {
      // around the root element
      for (pre, post) in [
        ("<?xml version=\"1.0\" encoding=\"utf-8\"?>", ""),
        ("<?xml version=\"1.0\"?>\n<!-- c -->\n<?pi x?>\n", "\n<!-- c -->\n<?pi x?>\n"),
        ("<!DOCTYPE a>", ""),
        ("<?xml version=\"1.0\" standalone=\"yes\"?><!DOCTYPE a SYSTEM \"a.dtd\">\n", "\n"),
        ("<!DOCTYPE a [<!ELEMENT a (#PCDATA)>]>", "<!---->"),
        (" \n\t", "   "),
      ] {
        let d = format!("{}{}{}", pre, doc, post);
        let go = w.case(&format!("{} {}", env.name(ty), d), |w| {
          w.transitions += events(&d);
          w.traces += 1;
          agree(&env.de(ty, &d), &want)
        });
        if !go {
          return;
        }
      }
      let l = insertions(env, ty, e, &fragments(env, ty, e, true), true);
      for d in l.iter().chain(&respelled(env, ty, e)) {
        let doc = spell(d);
        let desc = format!("{} {}", env.name(ty), doc);
        if ty % 23 == 0 && w.states % 97 == 3 {
          ctx.sample(desc.clone());
        }
        let go = w.case(&desc, |w| {
          let got = env.de(ty, &doc);
          w.transitions += events(&doc);
          w.traces += 1;
          w.count("one insertion", 1);
          w.outcome(&got.as_ref().ok());
          agree(&got, &want)
        });
        if !go {
          return;
        }
      }
      return;
    }
    // pairs, as far as the budget goes: fewer fragments until they fit
    let mut frags = fragments(env, ty, e, false);
    let mut l = insertions(env, ty, e, &frags, false);
    while l.len() * l.len() / 2 > budget && frags.len() > 3 {
      frags.truncate(frags.len() - 1);
      l = insertions(env, ty, e, &frags, false);
    }
    if l.len() * l.len() / 2 > budget {
      ctx.bound(&format!("{} {}", env.name(ty), i), "one insertion only");
      return;
    }
    ctx.bound(&format!("{} {}", env.name(ty), i), format!("pairs of {} fragments", frags.len()));
    for d in &l {
      for x in insertions(env, ty, d, &frags, false) {
        let doc = spell(&x);
        let desc = format!("{} {}", env.name(ty), doc);
        let go = w.case(&desc, |w| {
          let got = env.de(ty, &doc);
          w.transitions += events(&doc);
          w.traces += 1;
          w.count("two insertions", 1);
          agree(&got, &want)
        });
        if !go {
          return;
        }
      }
    }
  });  scaled(ctx, env);
}

/// Foreign content of any size: many elements, deep elements, many attributes, long texts.
pub fn bulk(root: &Elem, n: usize) -> Vec<Vec<Node>> {
  let z = |k: Vec<Node>| {
    let mut x = Elem::new("zz");
    x.kids = k;
    Node::E(x)
  };
  let text = |s: &str| -> String { s.chars().cycle().take(n).collect() };
  let own: Vec<Node> = root.kids.iter().filter(|k| matches!(k, Node::E(_))).take(2).cloned().collect();
  let mut deep = Node::E(root.clone());
  for _ in 0..n {
    deep = z(vec![deep]);
  }
  // nested elements of the type's own name
  let mut same = vec![Node::T("5".into())];
  for _ in 0..n {
    let mut x = Elem::new(&root.name);
    x.ns = root.ns.clone();
    x.kids = same;
    same = vec![Node::E(x)];
  }
  let mut attrs = Elem::new("zz");
  attrs.attrs = (0..n).map(|i| Attr { ns: None, name: format!("q{}", i), value: "5".into() }).collect();
  vec![
    (0..n).map(|i| z(vec![Node::T(format!("{}", i))])).collect(),
    (0..n).flat_map(|i| [Node::Com(format!("{}", i)), Node::Pi("a 5".into())]).collect(),
    vec![deep],
    vec![z(same)],
    vec![z((0..n).flat_map(|_| own.iter().cloned()).collect())],
    vec![Node::E(attrs)],
    vec![Node::T(text("\n  \t "))],
    vec![Node::Com(text("<a>5</a> "))],
    vec![Node::Pi(format!("a {}", text("<a>5</a> ")))],
    vec![z(vec![Node::T(text("text ")), Node::C(text("<a>5</a>"))])],
  ]
}

fn scaled(ctx: &Ctx, env: &Env) {
  let (all, max) = ctx.pick((10, 1024), (120, 8192));
  let mut tasks = vec![];
  for n in sizes(all, max) {
    for ty in env.all_de() {
      let t = env.s.get(ty);
      // the parser takes quadratic time for nesting: the longest ones for some types
      if !t.has("pair") && (n <= 34 || t.has("io") || n <= 257 && t.has("fl")) {
        tasks.push((ty, n));
      }
    }
  }
  ctx.bound("sizes of foreign content", format!("all up to {}, around powers of two up to {}", all, max));
  ctx.par(&tasks, |&(ty, n), w| {
    for e in base_docs(&env.s, ty, if n <= 34 { 2 } else { 1 }) {
      let want = model::de(&env.s, ty, &e);
      for (path, at) in places(&env.s, ty, &e) {
        if at == At::Scalar || path.len() > 2 {
          continue;
        }
        let kids = get(&e, &path).kids.len();
        let mut k = 0;
        let mut docs = vec![];
        for b in bulk(&e, n) {
          for i in [0, kids / 2, kids] {
            let x = get(&e, &path);
            let split = i > 0 && i < kids && matches!(x.kids[i - 1], Node::T(_) | Node::C(_)) && matches!(x.kids[i], Node::T(_) | Node::C(_));
            if split {
              continue;
            }
            let mut d = e.clone();
            at_mut(&mut d, &path).kids.splice(i..i, b.iter().cloned());
            docs.push(d);
          }
        }
        for front in [false, true] {
          let mut d = e.clone();
          let l = &mut at_mut(&mut d, &path).attrs;
          let many = (0..n).map(|i| Attr { ns: None, name: format!("q{}", i), value: "7".into() });
          if front {
            l.splice(0..0, many);
          } else {
            l.extend(many);
          }
          docs.push(d);
        }
        for d in docs {
          k += 1;
          let go = w.case(&format!("{} {:?} size {} insertion {}", env.name(ty), path, n, k), |w| {
            let doc = render(&d);
            let got = env.de(ty, &doc);
            w.transitions += events(&doc);
            w.traces += 1;
            w.count("sized insertions", 1);
            agree(&got, &want).map_err(|m| format!("{}: {}", clip(&doc), clip(&m)))
          });
          if !go {
            return;
          }
        }
      }
    }
  });
}
