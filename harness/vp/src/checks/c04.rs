//! Permutations of children and attributes leave the result unchanged.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::xml::*;

/// Orders of `n` things: all permutations if few, else every move of one or two of them and the
/// reversal.
fn orders(n: usize, all: usize) -> Vec<Vec<usize>> {
  let id: Vec<usize> = (0..n).collect();
  if n <= all {
    return perms(n).into_iter().filter(|p| *p != id).collect();
  }
  let mut out = vec![id.iter().rev().cloned().collect::<Vec<_>>()];
  for i in 0..n {
    for j in 0..n {
      let mut p = id.clone();
      let x = p.remove(i);
      p.insert(j, x);
      if p != id && !out.contains(&p) {
        out.push(p);
      }
    }
  }
  for i in 0..n {
    for j in i + 1..n {
      let mut p = id.clone();
      p.swap(i, j);
      if !out.contains(&p) {
        out.push(p);
      }
    }
  }
  out
}

/// Every permutation of the element children of one element (equally named ones keep their
/// order, character data keeps its place), and of its attributes.
pub fn permuted(env: &Env, ty: usize, e: &Elem, all: usize) -> Vec<Elem> {
  let mut out = vec![];
  for (path, at) in places(&env.s, ty, e) {
    let n = get(e, &path);
    if n.attrs.len() > 1 {
      for o in orders(n.attrs.len(), all) {
        let mut d = e.clone();
        at_mut(&mut d, &path).attrs = o.iter().map(|&i| n.attrs[i].clone()).collect();
        out.push(d);
      }
    }
    if !matches!(at, At::Struct(_) | At::Foreign) {
      continue;
    }
    let slots: Vec<usize> = (0..n.kids.len()).filter(|&i| matches!(n.kids[i], Node::E(_))).collect();
    if slots.len() < 2 {
      continue;
    }
    let name = |i: usize| match &n.kids[slots[i]] {
      Node::E(c) => (c.ns.clone(), c.name.clone()),
      _ => unreachable!(),
    };
    for o in orders(slots.len(), all) {
      let keeps = (0..o.len()).all(|a| (a + 1..o.len()).all(|b| o[a] < o[b] || name(o[a]) != name(o[b])));
      if !keeps {
        continue;
      }
      let mut d = e.clone();
      let x = at_mut(&mut d, &path);
      for (k, &i) in o.iter().enumerate() {
        x.kids[slots[k]] = n.kids[slots[i]].clone();
      }
      out.push(d);
    }
  }
  out
}

/// A flattened enum takes the last of several variants: order is what tells them apart.
fn flat_enum(env: &Env, ty: usize) -> bool {
  fn rec(s: &Schema, ty: usize, depth: usize) -> bool {
    if depth == 0 {
      return false;
    }
    let t = s.get(ty);
    (t.flatten && matches!(t.def, Def::Enum(..)))
      || t.fields().iter().any(|f| matches!(f.base, Base::Ty(b) if rec(s, b, depth - 1)))
  }
  rec(&env.s, ty, 4)
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for ty in env.all_de() {
    for e in base_docs(&env.s, ty, ctx.pick(8, 24)) {
      tasks.push((ty, e));
    }
  }
  let all = ctx.pick(6, 7);
  let budget = ctx.pick(8_000, 200_000);
  ctx.bound("all permutations of up to", all);
  ctx.par(&tasks, |(ty, e), w| {
    let ty = *ty;
    // the document itself, and (within the budget) every document one edit away
    let mut l = vec![e.clone()];
    if !flat_enum(env, ty) {
      let v = voc(&env.s, ty, 2, false);
      l.extend(edits(e, &v));
    }
    let mut done = 0;
    for (k, d) in l.iter().enumerate() {
      if done > budget {
        w.count("base documents whose edits were cut by the budget", 1);
        break;
      }
      let doc = render(d);
      let mut want = None;
      for p in permuted(env, ty, d, if k == 0 { all } else { all - 1 }) {
        done += 1;
        let pd = render(&p);
        let desc = format!("{} {} vs {}", env.name(ty), doc, pd);
        let go = w.case(&desc, |w| {
          if want.is_none() {
            want = Some((env.de(ty, &doc), model::de(&env.s, ty, d)));
            w.transitions += events(&doc);
          }
          let (a, m) = want.as_ref().unwrap();
          let b = env.de(ty, &pd);
          w.transitions += events(&pd);
          w.traces += 1;
          w.outcome(&a.as_ref().ok());
          agree(&b, a)?;
          agree(&b, m)
        });
        if !go {
          return;
        }
        if k == 0 && done % 31 == 2 {
          ctx.sample(desc);
        }
      }
    }
  });
}
