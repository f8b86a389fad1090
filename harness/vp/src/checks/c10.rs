//! Names are namespaces and local names: every assignment of namespaces to the elements of
//! documents, every small tree over qualified names, in every spelling of the prefixes.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::xml::*;

type Ns = Option<String>;

fn uris(env: &Env, ty: usize) -> Vec<Ns> {
  let mut l: Vec<Ns> = vec![None];
  fn rec(s: &Schema, ty: usize, depth: usize, l: &mut Vec<Ns>) {
    for (_, u) in &s.get(ty).nss {
      let u = Some(u.to_string());
      if !l.contains(&u) {
        l.push(u)
      }
    }
    if depth > 0 {
      for f in s.get(ty).fields() {
        if let Base::Ty(b) = f.base {
          rec(s, b, depth - 1, l)
        }
      }
    }
  }
  rec(&env.s, ty, 2, &mut l);
  l.push(Some("urn:x".into()));
  l
}

/// Names that are nearly, but not quite, those of the type's namespaces.
fn near(env: &Env, ty: usize) -> Vec<String> {
  let us = uris(env, ty);
  let mut l: Vec<String> = vec![
    "http://www.w3.org/XML/1998/namespace/".into(),
    "http://www.w3.org/1999/xhtml".into(),
    "http://www.w3.org/2001/XMLSchema-instance".into(),
    "*".into(),
    "##any".into(),
  ];
  for u in us.iter().flatten() {
    let cut: String = u.chars().take(u.chars().count() - 1).collect();
    l.extend([
      format!("{}/", u),
      format!("{}#", u),
      format!("{}{}", u, u),
      format!("{} ", u),
      format!(" {}", u),
      format!("{}x", u),
      format!("x{}", u),
      u.to_uppercase(),
      u.replace("urn:", "URN:"),
      u.replace(':', "%3A"),
      u.replace(':', "/"),
      u.rsplit(':').next().unwrap().to_string(),
      u.trim_end_matches('/').to_string(),
      cut,
    ]);
  }
  for (p, _) in &env.s.get(ty).nss {
    l.push(p.to_string());
  }
  l.retain(|x| !x.is_empty() && !us.contains(&Some(x.clone())));
  l.sort();
  l.dedup();
  l
}

/// Attributes are known by their local name only (known finding): documents stay clear of it.
fn dup_attr(e: &Elem) -> bool {
  let mut d = false;
  e.walk(&mut |x| {
    for (i, a) in x.attrs.iter().enumerate() {
      d |= x.attrs[..i].iter().any(|b| b.name == a.name);
    }
  });
  d
}

pub fn flattens(s: &Schema, ty: usize, depth: usize) -> bool {
  s.get(ty).fields().iter().any(|f| {
    f.kind == Kind::Flatten || matches!(f.base, Base::Ty(b) if depth > 0 && flattens(s, b, depth - 1))
  })
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut tys = env.group("ns");
  tys.extend(["Leaf", "UnitE", "Deep1", "NewE", "TwoV"].iter().map(|n| env.s.by_name(n).id));
  ctx.bound("types", tys.len());
  ctx.bound("spellings", STYLES.len());
  // 1. every assignment of namespaces to the elements of base documents
  let mut tasks = vec![];
  for &ty in &tys {
    for e in base_docs(&env.s, ty, ctx.pick(16, 60)) {
      tasks.push((ty, e));
    }
  }
  let budget = ctx.pick(3_000, 60_000);
  ctx.par(&tasks, |(ty, e), w| {
    let u = uris(env, *ty);
    let ps = paths(e);
    // all assignments if they fit, else as many deviations as do
    let mut k = 0;
    let mut count: usize = 1;
    let mut c = 1usize;
    for j in 1..=ps.len() {
      c = c * (ps.len() - j + 1) / j;
      let more = c.saturating_mul((u.len() - 1).saturating_pow(j as u32));
      if count.saturating_add(more) > budget {
        break;
      }
      count += more;
      k = j;
    }
    let kind = if k == ps.len() { "documents with all assignments" } else if k > 1 { "documents with two or more reassigned" } else { "documents with one reassigned" };
    w.count(kind, 1);
    fn rec(e: &mut Elem, ps: &[Vec<usize>], i: usize, left: usize, u: &[Ns], f: &mut dyn FnMut(&Elem) -> bool) -> bool {
      if i == ps.len() {
        return f(e);
      }
      let old = get(e, &ps[i]).ns.clone();
      if !rec(e, ps, i + 1, left, u, f) {
        return false;
      }
      if left > 0 {
        for x in u {
          if *x != old {
            at_mut(e, &ps[i]).ns = x.clone();
            if !rec(e, ps, i + 1, left - 1, u, f) {
              return false;
            }
          }
        }
        at_mut(e, &ps[i]).ns = old;
      }
      true
    }
    let mut d = e.clone();
    rec(&mut d, &ps, 0, k.max(1), &u, &mut |d| {
      if *ty % 5 == 0 && w.states % 331 == 2 {
        ctx.sample(format!("{} {}", env.name(*ty), render(d)));
      }
      STYLES.into_iter().all(|s| {
        w.count("reassigned", 1);
        env.de_case(w, *ty, d, s)
      })
    });
  });
  // 1b. namespaces that nearly are the declared ones
  let mut tasks = vec![];
  for &ty in &tys {
    for e in base_docs(&env.s, ty, ctx.pick(6, 30)) {
      tasks.push((ty, e));
    }
  }
  ctx.par(&tasks, |(ty, e), w| {
    let near = near(env, *ty);
    for p in paths(e) {
      for n in &near {
        let mut d = e.clone();
        at_mut(&mut d, &p).ns = Some(n.clone());
        for s in [STYLES[0], STYLES[1], STYLES[2]] {
          w.count("near namespaces", 1);
          if !env.de_case(w, *ty, &d, s) {
            return;
          }
        }
      }
    }
    // any number of declarations, before and after those that count
    for (n, s) in [(1, STYLES[0]), (10, STYLES[1]), (100, STYLES[2]), (1000, STYLES[0])] {
      let more: String = (0..n).map(|k| format!(" xmlns:zz{}=\"urn:zz{}\"", k, k)).collect();
      let mut doc = String::new();
      render_into(e, s, &mut doc);
      let start = doc.find('<').unwrap();
      let name = start + doc[start..].find([' ', '>', '/']).unwrap();
      let close = start + doc[start..].find('>').unwrap();
      let close = if doc[..close].ends_with('/') { close - 1 } else { close };
      for at in [name, close] {
        let mut d = doc.clone();
        d.insert_str(at, &more);
        w.count("many declarations", 1);
        if !env.de_doc(w, *ty, e, &d) {
          return;
        }
      }
    }
  });
  // 2. small trees over all qualified names
  let mut tasks = vec![];
  for &ty in &tys {
    let a = alphabet(env, ty);
    let (n, c) = a.bound(ctx.pick(12_000, 300_000));
    ctx.bound(&format!("trees {}", env.name(ty)), format!("{} nodes below the root, {} names, {} trees", n, a.names.len(), c));
    let of = (c / 5000 + 1) as usize;
    for me in 0..of {
      tasks.push((ty, n, me, of));
    }
  }
  ctx.par(&tasks, |&(ty, n, me, of), w| {
    let a = alphabet(env, ty);
    docs(&a, n, me, of, &mut |e| {
      STYLES.into_iter().all(|s| {
        w.count("small trees", 1);
        env.de_case(w, ty, e, s)
      })
    });
  });
  // 3. attributes: every namespace of every attribute a base document has
  let mut tasks = vec![];
  for &ty in &tys {
    for e in base_docs(&env.s, ty, 12) {
      let mut any = false;
      e.walk(&mut |x| any |= !x.attrs.is_empty());
      if any {
        tasks.push((ty, e));
      }
    }
  }
  ctx.par(&tasks, |(ty, e), w| {
    for p in paths(e) {
      for i in 0..get(e, &p).attrs.len() {
        // the value an attribute has is found in whatever order attributes and declarations stand
        for s in STYLES {
          for front in [false, true] {
            let mut d = e.clone();
            let x = at_mut(&mut d, &p);
            if front {
              let a = x.attrs.remove(i);
              x.attrs.insert(0, a);
            }
            if dup_attr(&d) {
              continue;
            }
            w.count("attributes", 1);
            if !env.de_case(w, *ty, &d, s) {
              return;
            }
          }
        }
      }
    }
  });
  // 4. what is written resolves to the declared namespaces
  let budget = ctx.pick(2_000, 40_000);
  ctx.par(&tys, |&ty, w| {
    if !env.s.get(ty).ser {
      return;
    }
    let v = Vals { scalars: 2, list: 2, depth: 3, alts: 10, all: true };
    let (_, _, l) = values(&env.s, ty, v, budget);
    for x in &l {
      let go = w.case(&format!("{} {:?}", env.name(ty), x), |w| {
        let doc = env.ser(ty, x)?;
        let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?;
        w.transitions += 2 * got.root.count() as u64;
        w.traces += 1;
        w.count("values written", 1);
        let want = model::ser(&env.s, ty, x);
        if got.root.canon(true) != want.canon(true) {
          return Err(format!("written {}, expected {}", doc, render(&want)));
        }
        // a document that spells its prefixes otherwise is read as the same value
        let a = env.de(ty, &doc);
        for s in STYLES {
          let mut d = String::new();
          render_into(&got.root, s, &mut d);
          agree(&env.de(ty, &d), &a).map_err(|m| format!("{}: {}", d, m))?;
        }
        Ok(())
      });
      if !go {
        return;
      }
    }
  });
  // xmlns="" in a flattened member
  {
    let t = env.s.by_name("NsFl").id;
    let doc = "<root xmlns=\"urn:n\"><x>5</x><a>a</a><b xmlns=\"\">5</b></root>";
    let e = parse(doc).expect("probe").root;
    ctx.par(&[()], |_, w| {
      env.de_doc(w, t, &e, doc);
    });
  }
  // a nested type that binds the prefix of its parent to another namespace
  {
    let t = env.s.by_name("NsShad").id;
    for x in base_values(&env.s, t, 1) {
      use vcore::val::Val;
      let some = |i: usize| matches!(&x, Val::Struct(l) if l[i] != Val::None);
      if !some(0) {
        continue;
      }
      ctx.one(&format!("NsShad shadow {:?}", x), |w| {
        let doc = env.ser(t, &x)?;
        w.traces += 1;
        let d = parse(&doc)?;
        let first = d.root.elems().next();
        match first {
          Some(c) if c.ns.as_deref() == Some("urn:n") && c.name == "i" => Ok(()),
          c => Err(format!("member i is written as {:?}: {}", c, doc)),
        }
      });
    }
  }
  // a namespace name with a markup character
  {
    let t = env.s.by_name("NsAmp").id;
    let v = vcore::val::Val::Struct(vec![vcore::val::Val::some(vcore::val::Val::s("a"))]);
    ctx.one("NsAmp root", |w| {
      w.traces += 1;
      let doc = env.ser(t, &v)?;
      let d = parse(&doc)?;
      if d.root.ns.as_deref() != Some("urn:a&b") {
        return Err(format!("written {}", doc));
      }
      agree(&env.de(t, &doc), &Ok(v.clone()))
    });
    let d = "<root xmlns=\"urn:a&amp;b\"><a>a</a></root>";
    ctx.one(&format!("NsAmp {}", d), |w| {
      w.traces += 1;
      agree(&env.de(t, d), &Ok(v.clone()))
    });
  }
  // 5. equal local names of attributes in different namespaces
  for (ty, doc, want) in [
    ("NsAttr", "<n:root xmlns:n=\"urn:n\" xmlns:m=\"urn:m\" n:x=\"a\" m:x=\"b\"/>", "a"),
    ("NsAttr", "<n:root xmlns:n=\"urn:n\" n:x=\"a\" x=\"b\"/>", "a"),
  ] {
    let t = env.s.by_name(ty).id;
    ctx.one(&format!("{} {}", ty, doc), |w| {
      w.traces += 1;
      match env.de(t, doc)? {
        vcore::val::Val::Struct(l) if l[0] == vcore::val::Val::some(vcore::val::Val::s(want)) => Ok(()),
        v => Err(format!("got {:?}, expected x to be {:?}", v, want)),
      }
    });
  }
}

fn alphabet(env: &Env, ty: usize) -> Alphabet {
  let v = voc(&env.s, ty, 1, false);
  let u = uris(env, ty);
  let t = env.s.get(ty);
  let mut locals: Vec<String> = vec![];
  for n in &v.names {
    if !locals.contains(&n.1) && n.1 != t.root {
      locals.push(n.1.clone());
    }
  }
  locals.truncate(5);
  let mut names = vec![];
  for l in &locals {
    for n in &u {
      names.push((n.clone(), l.clone()));
    }
  }
  let mut roots: Vec<(Ns, String)> = u.iter().map(|n| (n.clone(), t.root.to_string())).collect();
  roots.push((t.uri(t.prefix).map(|x| x.to_string()), "zz".into()));
  Alphabet { roots, root_attrs: vec![vec![]], names, leaf: vec![vec![Node::T("5".into())], vec![]], attrs: vec![vec![]] }
}
