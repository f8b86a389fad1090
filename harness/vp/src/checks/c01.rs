//! Round trip, on every value within the bounds of every type that derives both traits.
use crate::env::*;
use vcore::enumerate::*;
use vcore::run::*;
use vcore::scale::*;

pub fn run(ctx: &Ctx, env: &Env) {
  let budget = ctx.pick(20_000, 250_000);
  let v = Vals {
    scalars: ctx.pick(4, 6),
    list: ctx.pick(2, 3),
    depth: ctx.pick(3, 4),
    alts: ctx.pick(12, 24),
    all: false,
  };
  let tys: Vec<usize> = env.s.tys.iter().filter(|t| t.ser && t.de && t.rt).map(|t| t.id).collect();
  let mut tasks = vec![];
  for &t in &tys {
    for m in 0..4 {
      tasks.push((t, m));
    }
  }
  ctx.bound("types", tys.len());
  ctx.bound("values per type", budget);
  ctx.par(&tasks, |&(ty, m), w| {
    let (k, full, l) = values(&env.s, ty, v, budget);
    if m == 0 {
      w.count(if full { "types with the whole product of member values" } else { "types bounded by deviations" }, 1);
      ctx.bound(&format!("deviations {}", env.name(ty)), if full { "all".to_string() } else { k.to_string() });
      if ty % 13 == 0 {
        if let Some(x) = l.last() {
          ctx.sample(format!("{} {:?} -> {:?}", env.name(ty), x, env.ser(ty, x)));
        }
      }
    }
    for x in l.iter().skip(m).step_by(4) {
      let desc = format!("{} {:?}", env.name(ty), x);
      let go = w.case(&desc, |w| {
        let doc = env.ser(ty, x)?;
        let got = env.de(ty, &doc);
        w.transitions += 2 * events(&doc);
        w.traces += 1;
        w.outcome(&doc);
        match got {
          Ok(y) if y == *x => Ok(()),
          got => Err(format!("written as {}, read as {}", doc, show(&got))),
        }
      });
      if !go {
        return;
      }
    }
  });
  // values of any size
  let mut tasks = vec![];
  let (all, max) = ctx.pick((20, 1024), (300, 65536));
  for n in sizes(all, max) {
    tasks.extend(tys.iter().map(|&t| (t, n)));
  }
  ctx.bound("sizes of texts, lists and nesting", format!("all up to {}, around powers of two up to {}", all, max));
  ctx.par(&tasks, |&(ty, n), w| {
    let pair = env.s.get(ty).has("pair");
    if pair && n > 20 {
      return;
    }
    let mut l = scaled(&env.s, ty, if n > 257 { 1 } else { 3 }, n);
    if n <= 1024 {
      l.extend(nested(&env.s, ty, n));
    }
    for (k, x) in l.iter().enumerate() {
      let go = w.case(&format!("{} size {} part {}", env.name(ty), n, k), |w| {
        let doc = env.ser(ty, x)?;
        let got = env.de(ty, &doc);
        w.transitions += 2 * events(&doc);
        w.traces += 1;
        w.count("sized values", 1);
        match got {
          Ok(y) if y == *x => Ok(()),
          got => Err(format!("{} is written as {}, read as {}", clip(&format!("{:?}", x)), clip(&doc), clip(&show(&got)))),
        }
      });
      if !go {
        return;
      }
    }
  });
}
