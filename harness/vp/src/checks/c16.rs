//! Every sequence of nodes as the content of an enum's element, wherever the enum stands.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::xml::*;

fn elem(ns: Option<&str>, name: &str, kids: Vec<Node>) -> Elem {
  Elem { ns: ns.map(|x| x.to_string()), kids, ..Elem::new(name) }
}

/// What may stand in the element of an enum.
fn nodes(env: &Env, ty: usize, rich: bool) -> Vec<Node> {
  let t = env.s.get(ty);
  let vars = match &t.def {
    Def::Enum(v, _) => v,
    _ => unreachable!(),
  };
  let mut out: Vec<Node> = vec![];
  for (i, v) in vars.iter().enumerate() {
    let ns = t.uri(v.prefix);
    match v.payload {
      None => {
        out.push(Node::T(v.name.into()));
        out.push(Node::E(elem(ns, v.name, vec![])));
        for p in ["n", "m"] {
          if v.prefix == Some(p) || rich && v.prefix.is_some() {
            out.push(Node::T(format!("{}:{}", p, v.name)));
          }
        }
      }
      Some((_, Base::Sc(_))) => {
        for x in ["5", "x", "A"].iter().take(if rich { 3 } else { 2 }) {
          out.push(Node::E(elem(ns, v.name, vec![Node::T(x.to_string())])));
        }
        if rich {
          out.push(Node::E(elem(ns, v.name, vec![])));
          out.push(Node::E(elem(ns, v.name, vec![Node::E(elem(None, v.name, vec![Node::T("5".into())]))])));
        }
      }
      Some((_, Base::Ty(b))) => {
        for mut e in base_docs(&env.s, b, if rich { 3 } else { 1 }) {
          e.name = v.name.into();
          e.ns = ns.map(|x| x.into());
          out.push(Node::E(e));
        }
        out.push(Node::E(elem(ns, v.name, if rich { vec![Node::T("5".into())] } else { vec![] })));
      }
    }
    if i < if rich { vars.len() } else { 2 } {
      // the name as text, in a foreign element, as a foreign element's attribute
      if v.payload.is_some() {
        out.push(Node::T(v.name.into()));
      }
      let mut z = elem(None, "zz", vec![Node::E(elem(ns, v.name, vec![Node::T("5".into())]))]);
      z.attrs.push(Attr { ns: None, name: "q".into(), value: v.name.into() });
      out.push(Node::E(z));
      out.push(Node::E(elem(None, "zz", vec![Node::T(v.name.into())])));
    }
  }
  out.push(Node::E(elem(None, "zz", vec![])));
  out.push(Node::T("zz".into()));
  out.push(Node::Com(vars[0].name.into()));
  if rich {
    out.push(Node::Pi(format!("{} x", vars[0].name)));
    out.push(Node::C(vars[0].name.into()));
    out.push(Node::T(" ".into()));
  }
  let mut l: Vec<Node> = vec![];
  for n in out {
    if !l.contains(&n) {
      l.push(n)
    }
  }
  l
}

/// Which nodes: few of a kind, more of them, or also names near to those of the variants.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
  Plain,
  Rich,
  Near,
}

fn alphabet(env: &Env, ty: usize, en: usize, mode: Mode) -> Vec<Node> {
  let mut l = nodes(env, en, mode == Mode::Rich);
  if let (Mode::Near, Def::Enum(vars, _)) = (mode, &env.s.get(en).def) {
    let names = nears(&env.s, ty).0;
    for v in vars {
      for x in near(v.name) {
        if names.iter().any(|n| n.1 == x) {
          l.push(Node::E(elem(env.s.get(en).uri(v.prefix), &x, vec![Node::T("5".into())])));
          l.push(Node::T(x));
        }
      }
    }
  }
  if env.s.get(ty).has("flen") && env.s.get(en).flatten {
    for f in env.s.get(ty).fields() {
      if f.kind == Kind::Elem {
        for x in ["5", "x"] {
          l.push(Node::E(elem(None, f.name, vec![Node::T(x.into())])));
        }
      }
    }
  }
  l
}

/// The elements a tagged enum may have: attributes and content.
fn tagged(env: &Env, ty: usize, n: usize) -> Vec<(Vec<Attr>, Vec<Node>)> {
  let t = env.s.get(ty);
  let tag = t.tag.unwrap();
  let vars = match &t.def {
    Def::Enum(v, _) => v,
    _ => unreachable!(),
  };
  let a = |n: &str, v: &str| Attr { ns: None, name: n.into(), value: v.into() };
  let mut vals: Vec<String> = vec!["zz".into(), "".into(), "a".into()];
  for v in vars {
    let mut l = vec![v.name.to_string(), v.ident.to_string(), format!(" {}", v.name), v.name.to_lowercase()];
    l.extend(near(v.name));
    for x in l {
      if !vals.contains(&x) {
        vals.push(x)
      }
    }
  }
  let mut attrs = vec![vec![], vec![a("q", vars[0].name)], vec![a(vars[0].name, tag)]];
  for v in &vals {
    attrs.push(vec![a(tag, v)]);
    attrs.push(vec![a("q", vars[1].name), a(tag, v)]);
    attrs.push(vec![a(tag, v), a("q", vars[1].name)]);
  }
  for x in near(tag) {
    attrs.push(vec![a(&x, vars[1].name)]);
    for v in [&vars[0], &vars[vars.len() - 1]] {
      attrs.push(vec![a(&x, vars[1].name), a(tag, v.name)]);
      attrs.push(vec![a(tag, v.name), a(&x, vars[1].name)]);
    }
  }
  let mut al = vec![];
  for v in vars {
    al.push(Node::T(v.name.into()));
    al.push(Node::E(elem(None, v.name, vec![])));
    let mut z = elem(None, "zz", vec![Node::T(v.name.into())]);
    z.attrs.push(a(tag, v.name));
    al.push(Node::E(z));
    let mut z = elem(None, t.root, vec![Node::E(elem(None, v.name, vec![]))]);
    z.attrs.push(a(tag, v.name));
    al.push(Node::E(z));
  }
  let mut out = vec![];
  for x in attrs {
    sequences(&al, n, &mut |k| {
      out.push((x.clone(), k.to_vec()));
      true
    });
  }
  out
}

/// Every sequence of at most n of the items.
pub fn sequences<T: Clone>(al: &[T], n: usize, f: &mut dyn FnMut(&[T]) -> bool) -> bool {
  fn rec<T: Clone>(al: &[T], n: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T]) -> bool) -> bool {
    if !f(cur) {
      return false;
    }
    if cur.len() < n {
      for x in al {
        cur.push(x.clone());
        let go = rec(al, n, cur, f);
        cur.pop();
        if !go {
          return false;
        }
      }
    }
    true
  }
  rec(al, n, &mut vec![], f)
}

fn depth(al: usize, budget: usize) -> usize {
  let mut n = 1;
  let mut c = al;
  while c * al <= budget && n < 6 {
    c *= al;
    n += 1;
  }
  n
}

/// The elements of enums in a document of type `ty`: path and type of the enum.
fn enums(env: &Env, ty: usize, e: &Elem) -> Vec<(Vec<usize>, usize)> {
  places(&env.s, ty, e)
    .into_iter()
    .filter_map(|(p, a)| match a {
      At::Enum(t) => Some((p, t)),
      _ => None,
    })
    .collect()
}

pub fn run(ctx: &Ctx, env: &Env) {
  // 1. the enum's element as the root, and inside every type that has a member of such a type
  let budget = ctx.pick(150_000, 4_000_000);
  let mut tasks = vec![];
  for ty in env.all_de() {
    let t = env.s.get(ty);
    let own = matches!(t.def, Def::Enum(..));
    let bases: Vec<Elem> = if own && !t.flatten {
      let mut e = Elem::new(t.root);
      e.ns = t.uri(t.prefix).map(|x| x.into());
      vec![e]
    } else if !own {
      base_docs(&env.s, ty, ctx.pick(2, 6))
    } else {
      vec![]
    };
    let mut seen = vec![];
    for base in bases {
      let l = if own { vec![(vec![], ty)] } else { enums(env, ty, &base) };
      for (path, en) in l {
        if seen.contains(&(path.clone(), en)) {
          continue;
        }
        seen.push((path.clone(), en));
        tasks.push((ty, base.clone(), path, en, own));
      }
    }
  }
  // 1b. flattened enums: their variants among the members
  for ty in env.group("flen") {
    if !env.s.get(ty).de {
      continue;
    }
    for base in base_docs(&env.s, ty, 1) {
      for f in env.s.get(ty).fields() {
        if let (Kind::Flatten, Base::Ty(b)) = (f.kind, f.base) {
          tasks.push((ty, base.clone(), vec![], b, true));
        }
      }
    }
  }
  ctx.bound("places of enums", tasks.len());
  let mut parts = vec![];
  for t in &tasks {
    for rich in [Mode::Plain, Mode::Rich, Mode::Near] {
      let n = if env.s.get(t.3).tag.is_some() { 1 } else { alphabet(env, t.0, t.3, rich).len() };
      for first in 0..n {
        parts.push((t, rich, first));
      }
    }
  }
  ctx.par(&parts, |((ty, base, path, en, own), rich, first), w| {
    let (ty, en) = (*ty, *en);
    if env.s.get(en).tag.is_some() {
      for (attrs, kids) in tagged(env, en, if *rich == Mode::Rich { 2 } else { 1 }) {
        let mut d = base.clone();
        let e = at_mut(&mut d, path);
        e.attrs = attrs;
        e.kids = kids;
        w.count("tagged", 1);
        if !env.de_case(w, ty, &d, Style::Root) {
          return;
        }
      }
      return;
    }
    let al = alphabet(env, ty, en, *rich);
    let n = depth(al.len(), if *own { budget } else { budget / 10 });
    if *first == 0 {
      ctx.bound(
        &format!("{} {:?} {:?}", env.name(ty), path, rich),
        format!("every sequence of up to {} of {} nodes", n, al.len()),
      );
    }
    let mut d = base.clone();
    let mut k = 0;
    sequences(&al, n - 1, &mut |rest| {
      let e = at_mut(&mut d, path);
      e.kids = vec![al[*first].clone()];
      e.kids.extend(rest.iter().cloned());
      k += 1;
      if k == 30 {
        ctx.sample(format!("{} {}", env.name(ty), render(&d)));
      }
      env.de_case(w, ty, &d, Style::Root)
    });
  });
  // 2. what is written for each value
  let mut tasks = env.all_ser();
  tasks.retain(|&t| matches!(env.s.get(t).def, Def::Enum(..)) || env.s.get(t).has("enin") || env.s.get(t).has("flen") || env.s.get(t).has("tag"));
  let budget = ctx.pick(5_000, 100_000);
  ctx.par(&tasks, |&ty, w| {
    let (k, full, l) = values(&env.s, ty, Vals { scalars: 2, list: 2, depth: 3, alts: 30, all: true }, budget);
    ctx.bound(&format!("written {}", env.name(ty)), if full { format!("all {} values", l.len()) } else { format!("{} deviations, {} values", k, l.len()) });
    for v in &l {
      if env.s.get(ty).flatten && rootless(&env.s, ty, v) {
        continue;
      }
      let go = w.case(&format!("{} written {:?}", env.name(ty), v), |w| {
        let x = env.ser(ty, v)?;
        let e = parse(&x).map_err(|m| format!("not well-formed: {}: {}", m, x))?.root;
        let want = model::ser(&env.s, ty, v).canon(true);
        w.transitions += 2 * e.count() as u64;
        w.traces += 1;
        w.outcome(&x);
        if e.canon(true) != want {
          return Err(format!("written {}, expected {}", x, render(&want)));
        }
        Ok(())
      });
      if !go {
        return;
      }
    }
  });
}
