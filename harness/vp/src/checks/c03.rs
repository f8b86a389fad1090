//! Documents mean what the reference model says: every small tree over the type's vocabulary,
//! and every document within two edits of a document of each kind of value.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::scale::*;
use vcore::xml::*;

pub fn run(ctx: &Ctx, env: &Env) {
  trees(ctx, env, &env.all_de(), ctx.pick(40_000, 1_000_000));
  edited(ctx, env, &env.all_de(), ctx.pick(4, 12), ctx.pick(60_000, 1_500_000), Style::Root);
  sized(ctx, env);
}

/// Documents of values of any size.
fn sized(ctx: &Ctx, env: &Env) {
  let (all, max) = ctx.pick((17, 1024), (120, 8192));
  let mut tasks = vec![];
  for n in sizes(all, max) {
    for ty in env.all_de() {
      if !env.s.get(ty).has("pair") && !env.s.get(ty).flatten {
        tasks.push((ty, n));
      }
    }
  }
  ctx.bound("sizes of texts, lists and nesting", format!("all up to {}, around powers of two up to {}", all, max));
  let f = full(&env.s);
  ctx.par(&tasks, |&(ty, n), w| {
    let mut l = scaled(&env.s, ty, if n > 257 { 1 } else { 2 }, n);
    if n <= 1024 {
      l.extend(nested(&env.s, ty, n));
    }
    for (k, v) in l.iter().enumerate() {
      let e = model::ser(&f, ty, v);
      for (j, style) in [Style::Root, Style::Default].into_iter().enumerate() {
        let go = w.case(&format!("{} size {} part {} spelling {}", env.name(ty), n, k, j), |w| {
          let mut doc = String::new();
          render_into(&e, style, &mut doc);
          w.transitions += 2 * e.count() as u64;
          w.traces += 1;
          w.count("sized documents", 1);
          agree(&env.de(ty, &doc), &model::de(&env.s, ty, &e)).map_err(|m| format!("{}: {}", clip(&doc), clip(&m)))
        });
        if !go {
          return;
        }
      }
    }
  });
}

pub fn alphabet(env: &Env, ty: usize, depth: usize, attrs: bool) -> Alphabet {
  let v = voc(&env.s, ty, depth, false);
  let mk = |a: &(Option<String>, String), x: &str| {
    vec![Attr { ns: a.0.clone(), name: a.1.clone(), value: x.into() }]
  };
  let mut at = vec![vec![]];
  if attrs {
    for a in v.attrs.iter().take(3) {
      at.push(mk(a, "5"));
    }
  }
  let t = env.s.get(ty);
  let mut root_attrs = vec![vec![]];
  let all: Vec<Attr> = v
    .attrs
    .iter()
    .filter(|a| a.1 != "qq")
    .map(|a| mk(a, "5")[0].clone())
    .collect();
  if !all.is_empty() {
    root_attrs.insert(0, all);
  }
  Alphabet {
    roots: vec![(t.uri(t.prefix).map(|x| x.to_string()), t.root.to_string())],
    root_attrs,
    names: v.names.clone(),
    leaf: v.contents.clone(),
    attrs: at,
  }
}

/// All small trees.
pub fn trees(ctx: &Ctx, env: &Env, tys: &[usize], budget: u128) {
  let mut tasks = vec![];
  for &ty in tys {
    for (depth, attrs) in [(0, false), (1, false), (2, true)] {
      let a = alphabet(env, ty, depth, attrs);
      let (n, c) = a.bound(budget);
      let of = (c / 20_000 + 1) as usize;
      ctx.bound(&format!("tree {} depth {}", env.name(ty), depth), format!("{} nodes below the root, {} names, {} trees", n, a.names.len(), c));
      for me in 0..of {
        tasks.push((ty, depth, attrs, n, me, of));
      }
    }
  }
  ctx.par(&tasks, |&(ty, depth, attrs, n, me, of), w| {
    let a = alphabet(env, ty, depth, attrs);
    let mut k = 0;
    docs(&a, n, me, of, &mut |e| {
      k += 1;
      if k == 3 && ty % 29 == 0 {
        ctx.sample(format!("{} {}", env.name(ty), render(e)));
      }
      w.count("small trees", 1);
      env.de_case(w, ty, e, Style::Root)
    });
  });
}

/// All documents one edit from each base document; and two edits, as far as the budget goes.
pub fn edited(ctx: &Ctx, env: &Env, tys: &[usize], bases: usize, budget: usize, style: Style) {
  let mut tasks = vec![];
  for &ty in tys {
    let b = base_docs(&env.s, ty, bases);
    for (i, e) in b.iter().enumerate() {
      tasks.push((ty, i, e.clone(), 0, 0));
      // two edits, with the plain vocabulary
      let v = voc(&env.s, ty, 2, false);
      let first = edits(e, &v);
      let per = first.get(first.len() / 2).map_or(0, |d| edits(d, &v).len());
      if per == 0 || first.len() * per > budget {
        ctx.bound(&format!("edits {} {}", env.name(ty), i), format!("1 edit ({} documents; 2 edits would be {})", first.len(), first.len() * per));
        continue;
      }
      ctx.bound(&format!("edits {} {}", env.name(ty), i), format!("2 edits ({} documents)", first.len() * per));
      let of = first.len() * per / 20_000 + 1;
      for me in 0..of {
        tasks.push((ty, i, e.clone(), of, me));
      }
    }
  }
  ctx.par(&tasks, |(ty, i, e, of, me), w| {
    if *of == 0 {
      let v = voc(&env.s, *ty, 3, true);
      if !env.de_case(w, *ty, e, style) {
        return;
      }
      for d in edits(e, &v) {
        w.count("one edit", 1);
        if !env.de_case(w, *ty, &d, style) {
          return;
        }
      }
      return;
    }
    let v = voc(&env.s, *ty, 2, false);
    for (k, d) in edits(e, &v).iter().enumerate() {
      if k % of != *me {
        continue;
      }
      let l = edits(d, &v);
      if k == 7 && *ty % 17 == 0 && *i == 0 {
        if let Some(x) = l.last() {
          ctx.sample(format!("{} {}", env.name(*ty), render(x)));
        }
      }
      for x in l {
        w.count("two edits", 1);
        if !env.de_case(w, *ty, &x, style) {
          return;
        }
      }
    }
  });
}
