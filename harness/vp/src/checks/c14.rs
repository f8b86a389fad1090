//! A struct with flattened members and its twin with the members in place: the same documents,
//! the same values, the same errors.
use crate::checks::c10::flattens;
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::scale::*;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

/// The members of a value with the flattened ones in place; None inside a missing option.
/// What the twin flattens as well (options and enums among other members) stays.
fn splice(s: &Schema, t: &Ty, twin: Option<&Ty>, v: &Val) -> Vec<Val> {
  let stays = |f: &Field| twin.map_or(false, |t| t.fields().iter().any(|g| g.kind == Kind::Flatten && g.ident == f.ident));
  let l = match v {
    Val::Struct(l) => l,
    _ => unreachable!(),
  };
  let mut out = vec![];
  for (f, v) in t.fields().iter().zip(l) {
    match (f.kind, f.base, v) {
      _ if stays(f) => out.push(v.clone()),
      (Kind::Flatten, Base::Ty(b), Val::Some(v)) => {
        for (g, x) in s.get(b).fields().iter().zip(splice(s, s.get(b), None, v)) {
          out.push(if g.mult == Mult::One { Val::some(x) } else { x })
        }
      }
      (Kind::Flatten, Base::Ty(b), Val::None) => out.extend(s.get(b).fields().iter().map(|_| Val::None)),
      (Kind::Flatten, Base::Ty(b), v) => out.extend(splice(s, s.get(b), None, v)),
      _ => out.push(v.clone()),
    }
  }
  out
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut pairs = vec![];
  for t in &env.s.tys {
    if let Some(tw) = env.s.tys.iter().find(|x| x.rust == format!("{}Tw", t.rust)) {
      pairs.push((t.id, tw.id));
    }
  }
  ctx.bound("twins", pairs.len());
  // 1. serialization
  let budget = ctx.pick(10_000, 200_000);
  ctx.par(&pairs, |&(a, b), w| {
    let vals = Vals { scalars: 3, list: 2, depth: 3, alts: 10, all: true };
    let (k, full, l) = values(&env.s, a, vals, budget);
    ctx.bound(env.name(a), if full { format!("all {} values", l.len()) } else { format!("{} deviations, {} values", k, l.len()) });
    for v in &l {
      let go = w.case(&format!("{} {:?}", env.name(a), v), |w| {
        let tv = Val::Struct(splice(&env.s, env.s.get(a), Some(env.s.get(b)), v));
        let (x, y) = (env.ser(a, v)?, env.ser(b, &tv)?);
        let p = |d: &str| parse(d).map_err(|m| format!("not well-formed: {}: {}", m, d)).map(|d| d.root);
        let (ex, ey) = (p(&x)?, p(&y)?);
        w.transitions += 2 * ey.count() as u64;
        w.traces += 1;
        w.count("values", 1);
        w.outcome(&x);
        if ex.canon(true) != ey.canon(true) {
          return Err(format!("written {}, the twin {:?} is written {}", x, tv, y));
        }
        Ok(())
      });
      if !go {
        return;
      }
    }
    if let Some(v) = l.last() {
      ctx.sample(format!("{} {:?} -> {:?}", env.name(a), v, env.ser(a, v)));
    }
  });
  // an optional flattened member swallows errors its twin reports: those are compared below
  let opts = |t: usize| env.s.get(t).fields().iter().filter(|f| f.kind == Kind::Flatten && f.mult == Mult::Opt).count();
  pairs.retain(|(a, b)| opts(*a) == opts(*b));
  // 2. deserialization: small trees and edited documents of the twin
  let judge = |w: &mut Work, a: usize, b: usize, e: &Elem, s: Style| -> bool {
    let mut doc = String::new();
    render_into(e, s, &mut doc);
    w.case(&format!("{} {}", env.name(a), doc), |w| {
      w.transitions += 2 * e.count() as u64;
      w.traces += 1;
      let (x, y) = (env.de(a, &doc), env.de(b, &doc));
      w.outcome(&y.as_ref().ok());
      w.count(if y.is_ok() { "values read" } else { "errors" }, 1);
      let x2 = x.as_ref().map(|v| Val::Struct(splice(&env.s, env.s.get(a), Some(env.s.get(b)), v)));
      match (&x2, &y) {
        (Ok(p), Ok(q)) if p == q => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("got {}, the twin {}", show(&x), show(&y))),
      }
    })
  };
  let mut tasks = vec![];
  for &(a, b) in &pairs {
    for depth in [0, 1, 2] {
      let al = super::c03::alphabet(env, b, depth, true);
      let (n, c) = al.bound(ctx.pick(60_000, 1_500_000));
      ctx.bound(&format!("trees {} depth {}", env.name(a), depth), format!("{} nodes below the root, {} trees", n, c));
      let of = (c / 10_000 + 1) as usize;
      for me in 0..of {
        tasks.push((a, b, depth, n, me, of));
      }
    }
  }
  ctx.par(&tasks, |&(a, b, depth, n, me, of), w| {
    let al = super::c03::alphabet(env, b, depth, true);
    docs(&al, n, me, of, &mut |e| judge(w, a, b, e, Style::Root));
  });
  let mut tasks = vec![];
  for &(a, b) in &pairs {
    for e in base_docs(&env.s, b, ctx.pick(8, 24)) {
      tasks.push((a, b, e));
    }
  }
  let two = ctx.pick(60_000, 1_000_000);
  ctx.par(&tasks, |(a, b, e), w| {
    let v = voc(&env.s, *b, 2, true);
    let plain = voc(&env.s, *b, 2, false);
    let mut first = edits(e, &v);
    first.push(e.clone());
    for d in &first {
      for s in [Style::Root, Style::Default] {
        if !judge(w, *a, *b, d, s) {
          return;
        }
      }
    }
    let first = edits(e, &plain);
    if first.len() * first.len() > two {
      w.count("base documents with one edit only", 1);
      return;
    }
    for d in &first {
      for x in edits(d, &plain) {
        if !judge(w, *a, *b, &x, Style::Root) {
          return;
        }
      }
    }
  });
  // every text in every place for one
  let mut tasks = vec![];
  for &(a, b) in &pairs {
    tasks.extend(super::c11::places(&env.s, b).into_iter().map(|p| (a, b, p)));
  }
  ctx.bound("places of texts", tasks.len());
  let few = super::c11::words();
  ctx.bound("texts in them", few.len());
  let f = full(&env.s);
  ctx.par(&tasks, |(a, b, p), w| {
    for x in &few {
      let e = model::ser(&f, *b, &super::c11::worded(&env.s, *b, p, x));
      if !judge(w, *a, *b, &e, Style::Root) {
        return;
      }
    }
  });
  // documents of any size
  let (all, max) = ctx.pick((17, 1024), (120, 8192));
  let mut tasks = vec![];
  for n in sizes(all, max) {
    tasks.extend(pairs.iter().map(|&(a, b)| (a, b, n)));
  }
  ctx.bound("sizes of texts, lists and foreign content", format!("all up to {}, around powers of two up to {}", all, max));
  let f = full(&env.s);
  ctx.par(&tasks, |&(a, b, n), w| {
    let mut l: Vec<Elem> = scaled(&env.s, b, if n > 34 { 1 } else { 2 }, n).iter().map(|v| model::ser(&f, b, v)).collect();
    for e in base_docs(&env.s, b, if n > 34 { 1 } else { 2 }) {
      for x in super::c05::bulk(&e, n) {
        for i in [0, e.kids.len()] {
          let mut d = e.clone();
          d.kids.splice(i..i, x.iter().cloned());
          l.push(d);
        }
      }
    }
    for (k, e) in l.iter().enumerate() {
      let go = w.case(&format!("{} size {} part {}", env.name(a), n, k), |w| {
        let doc = render(e);
        w.transitions += 2 * e.count() as u64;
        w.traces += 1;
        w.count("sized documents", 1);
        let (x, y) = (env.de(a, &doc), env.de(b, &doc));
        let x2 = x.as_ref().map(|v| Val::Struct(splice(&env.s, env.s.get(a), Some(env.s.get(b)), v)));
        match (&x2, &y) {
          (Ok(p), Ok(q)) if p == q => Ok(()),
          (Err(_), Err(_)) => Ok(()),
          _ => Err(format!("{}: got {}, the twin {}", clip(&doc), clip(&show(&x)), clip(&show(&y)))),
        }
      });
      if !go {
        return;
      }
    }
  });
  // 3. flattened members without a twin (options, enums, nested parents): against the model
  let tys: Vec<usize> = env
    .s
    .tys
    .iter()
    .filter(|t| t.de && flattens(&env.s, t.id, 2) && !pairs.iter().any(|p| p.0 == t.id))
    .map(|t| t.id)
    .collect();
  ctx.bound("types without a twin", tys.len());
  super::c03::trees(ctx, env, &tys, ctx.pick(60_000, 1_500_000));
  super::c03::edited(ctx, env, &tys, ctx.pick(8, 24), ctx.pick(100_000, 1_500_000), Style::Root);
  // an option is present exactly if its members can be read by themselves
  let (o, i) = (env.s.by_name("FlO").id, env.s.by_name("FlIn").id);
  let mut tasks = vec![];
  for e in base_docs(&env.s, o, 12) {
    tasks.push(e);
  }
  ctx.par(&tasks, |e, w| {
    let v = voc(&env.s, o, 2, true);
    for d in edits(e, &v) {
      let doc = render(&d);
      let go = w.case(&format!("FlO alone {}", doc), |w| {
        // the members of the option, in an element of their own
        let mut alone = d.clone();
        alone.name = "FlIn".into();
        alone.kids.retain(|k| !matches!(k, Node::E(c) if c.ns.is_none() && (c.name == "x" || c.name == "y")));
        w.traces += 1;
        w.transitions += 2 * d.count() as u64;
        let (x, y) = (env.de(o, &doc), env.de(i, &render(&alone)));
        match (&x, &y) {
          (Err(_), _) => Ok(()),
          (Ok(Val::Struct(l)), Ok(f)) if l[1] == Val::some(f.clone()) => Ok(()),
          (Ok(Val::Struct(l)), Err(_)) if l[1] == Val::None => Ok(()),
          _ => Err(format!("got {}, by itself {}", show(&x), show(&y))),
        }
      });
      if !go {
        return;
      }
    }
  });
  // text in several pieces
  for doc in ["<FlT>a<x>5</x>b</FlT>", "<FlT>a<x>5</x>b<x>6</x><!---->c<![CDATA[d]]></FlT>"] {
    let (a, b) = (env.s.by_name("FlT").id, env.s.by_name("FlTTw").id);
    let e = parse(doc).expect("probe").root;
    ctx.par(&[()], |_, w| {
      judge(w, a, b, &e, Style::Root);
    });
  }
  // a namespace name with a reference, unused at that
  let t = env.s.by_name("FlO").id;
  let doc = "<FlO xmlns:p=\"urn:a&amp;b\"><x>5</x><a>a</a></FlO>";
  ctx.one(&format!("FlO {}", doc), |w| {
    w.traces += 1;
    agree(&env.de(t, doc), &model::de(&env.s, t, &parse(doc).expect("probe").root))
  });
  // a flattened struct without the namespace of its parent
  let t = env.s.by_name("NsFlP").id;
  let v = base_values(&env.s, t, 1)[0].clone();
  ctx.one(&format!("NsFlP {:?}", v), |w| {
    w.traces += 1;
    let doc = env.ser(t, &v)?;
    agree(&env.de(t, &doc), &Ok(v.clone()))
  });
}
