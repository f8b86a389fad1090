//! The document of every value within the bounds is the one the model prescribes, as an
//! independent strict parser reads it.
use crate::env::*;
use vcore::docs::rootless;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::scale::*;
use vcore::val::Val;
use vcore::xml::*;

pub fn run(ctx: &Ctx, env: &Env) {
  let budget = ctx.pick(20_000, 250_000);
  let v = Vals {
    scalars: ctx.pick(4, 6),
    list: ctx.pick(2, 3),
    depth: ctx.pick(3, 4),
    alts: ctx.pick(12, 24),
    all: true,
  };
  let mut tasks = vec![];
  for t in env.all_ser() {
    for m in 0..4 {
      tasks.push((t, m));
    }
  }
  ctx.bound("types", tasks.len() / 4);
  ctx.bound("values per type", budget);
  ctx.par(&tasks, |&(ty, m), w| {
    let (k, full, l) = values(&env.s, ty, v, budget);
    if m == 0 {
      ctx.bound(&format!("deviations {}", env.name(ty)), if full { "all".to_string() } else { k.to_string() });
    }
    let flat = env.s.get(ty).flatten;
    let indented = yaserde::ser::Config { perform_indent: true, ..Default::default() };
    for x in l.iter().skip(m).step_by(4) {
      if flat && rootless(&env.s, ty, x) {
        continue;
      }
      let desc = format!("{} {:?}", env.name(ty), x);
      let go = w.case(&desc, |w| {
        let doc = env.ser(ty, x)?;
        w.transitions += events(&doc);
        w.outcome(&doc);
        if ty % 13 == 0 && m == 0 {
          ctx.sample(format!("{} -> {}", desc, doc));
        }
        let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?;
        let want = model::ser(&env.s, ty, x);
        w.traces += 1;
        if !got.decl {
          return Err(format!("no declaration: {}", doc));
        }
        if got.root.canon(true) != want.canon(true) {
          return Err(format!("written {}, expected {}", doc, render(&want)));
        }
        let doc = env.ops[ty].ser_c.unwrap()(x, &indented)?;
        let laid_out = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?;
        w.transitions += events(&doc);
        super::c12::layout(&got.root, &laid_out.root).map_err(|m| format!("indented: {}", m))
      });
      if !go {
        return;
      }
    }
  });
  // values of any size, plain and indented
  let mut tasks = vec![];
  let (all, max) = ctx.pick((17, 1024), (300, 65536));
  for n in sizes(all, max) {
    tasks.extend(env.all_ser().into_iter().map(|t| (t, n)));
  }
  ctx.bound("sizes of texts, lists and nesting", format!("all up to {}, around powers of two up to {}", all, max));
  ctx.par(&tasks, |&(ty, n), w| {
    let t = env.s.get(ty);
    if t.has("pair") && n > 5 || t.flatten {
      return;
    }
    let mut l = scaled(&env.s, ty, if n > 257 { 1 } else { 2 }, n);
    if n <= 1024 {
      l.extend(nested(&env.s, ty, n));
    }
    for (k, x) in l.iter().enumerate() {
      let go = w.case(&format!("{} size {} part {}", env.name(ty), n, k), |w| {
        let doc = env.ser(ty, x)?;
        w.transitions += events(&doc);
        w.traces += 1;
        w.count("sized values", 1);
        let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, clip(&doc)))?;
        let want = model::ser(&env.s, ty, x);
        if got.root.canon(true) != want.canon(true) {
          return Err(format!("written {}, expected {}", clip(&doc), clip(&render(&want))));
        }
        Ok(())
      });
      if !go {
        return;
      }
    }
  });
  // every character XML can hold (a carriage return is C11's), one per element of a list
  let ty = env.s.by_name("Buchar").id;
  let blocks: Vec<u32> = (0..0x1100).collect();
  ctx.bound("characters as members", "all of XML 1.0 but the carriage return");
  ctx.par(&blocks, |&b, w| {
    let l: Vec<Val> = (0..256)
      .filter_map(|k| char::from_u32(b * 256 + k))
      .filter(|c| matches!(*c, '\t' | '\n' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..))
      .map(|c| Val::S(c.to_string()))
      .collect();
    if l.is_empty() {
      return;
    }
    let e = l[0].clone();
    let x = Val::Struct(vec![e.clone(), Val::some(e), Val::List(l), Val::None, Val::s("a"), Val::None]);
    w.case(&format!("Buchar block {:x}", b), |w| {
      let doc = env.ser(ty, &x)?;
      w.transitions += events(&doc);
      w.traces += 1;
      let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?;
      let want = model::ser(&env.s, ty, &x);
      if got.root.canon(true) != want.canon(true) {
        return Err(format!("written {}, expected {}", clip(&doc), clip(&render(&want))));
      }
      Ok(())
    });
  });
}
