//! Every combination of values that are written, skipped, or equal to their default.
use crate::env::*;
use vcore::docs::rootless;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::val::{pred, Val};
use vcore::xml::*;

/// How often the members of one struct stand in its element, by their declarations alone:
/// (is attribute, local name, namespace) -> count.
fn expected(s: &Schema, t: &Ty, v: &Val, out: &mut Vec<(bool, String, usize)>) {
  let l = match v {
    Val::Struct(l) => l,
    _ => return,
  };
  for (f, v) in t.fields().iter().zip(l) {
    let omitted = f.skip || f.skip_if.map_or(false, |p| pred(p, v)) || f.default.as_ref() == Some(v);
    let n = match v {
      Val::None => 0,
      Val::List(l) => l.len(),
      _ => 1,
    };
    let n = if omitted { 0 } else { n };
    match f.kind {
      Kind::Text => {}
      Kind::Flatten => {
        if n > 0 {
          let v = match v {
            Val::Some(v) => v,
            v => v,
          };
          if let Base::Ty(b) = f.base {
            expected(s, s.get(b), v, out)
          }
        }
      }
      _ => out.push((f.kind == Kind::Attr, f.name.to_string(), n)),
    }
  }
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut tys = env.group("skip");
  tys.extend(["Mixed", "OScalA", "OTypes", "OATypes", "FlA", "FlO", "FlMix", "Renamed"].iter().map(|n| env.s.by_name(n).id));
  let budget = ctx.pick(40_000, 1_000_000);
  ctx.bound("types", tys.len());
  let mut tasks = vec![];
  for &ty in &tys {
    if env.s.get(ty).ser {
      for m in 0..8 {
        tasks.push((ty, m));
      }
    }
  }
  ctx.par(&tasks, |&(ty, m), w| {
    let t = env.s.get(ty);
    let vals = Vals { scalars: 3, list: 2, depth: 3, alts: ctx.pick(6, 10), all: true };
    let (k, full, l) = values(&env.s, ty, vals, budget);
    if m == 0 {
      ctx.bound(t.rust, if full { format!("all {} combinations", l.len()) } else { format!("{} members off their value, {} combinations", k, l.len()) });
    }
    for v in l.iter().skip(m).step_by(8) {
      if t.flatten && rootless(&env.s, ty, v) {
        continue;
      }
      let desc = format!("{} {:?}", t.rust, v);
      let go = w.case(&desc, |w| {
        let doc = env.ser(ty, v)?;
        let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?.root;
        w.traces += 1;
        w.outcome(&doc);
        let mut exp = vec![];
        expected(&env.s, t, v, &mut exp);
        w.transitions += exp.len() as u64;
        let mut merged: Vec<(bool, String, usize)> = vec![];
        for x in exp {
          match merged.iter_mut().find(|m| m.0 == x.0 && m.1 == x.1) {
            Some(m) => m.2 += x.2,
            None => merged.push(x),
          }
        }
        for (attr, name, n) in &merged {
          let found = if *attr {
            got.attrs.iter().filter(|a| a.name == *name).count()
          } else {
            got.elems().filter(|e| e.name == *name).count()
          };
          if found != *n {
            return Err(format!("{} {} stands {} times, expected {}: {}", if *attr { "attribute" } else { "element" }, name, found, n, doc));
          }
          w.count(if *n > 0 { "members written" } else { "members omitted" }, 1);
        }
        let want = model::ser(&env.s, ty, v);
        if got.canon(true) != want.canon(true) {
          return Err(format!("written {}, expected {}", doc, render(&want)));
        }
        Ok(())
      });
      if w.states % 9001 == 1 {
        ctx.sample(format!("{} -> {:?}", desc, env.ser(ty, v)));
      }
      if !go {
        return;
      }
    }
  });
}
