//! Lists: every interleaving of the items of several lists, other members and foreign content,
//! against the filtered sequence itself.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

#[derive(Clone, Debug)]
enum Sym {
  /// an item of list i
  Item(usize, Val, Node),
  /// anything else
  Other(Node),
}

/// Single-item values and their elements.
fn items(env: &Env, ty: usize, i: usize, n: usize) -> Vec<(Val, Node)> {
  let t = env.s.get(ty);
  let f = &t.fields()[i];
  let vals: Vec<Val> = match f.base {
    Base::Sc(sc) => scalars(sc).iter().filter(|x| !x.is_empty()).take(n).map(|x| Val::s(x)).collect(),
    Base::Ty(b) => base_values(&env.s, b, n),
  };
  let full = full(&env.s);
  vals
    .into_iter()
    .map(|v| {
      let mut e = match f.base {
        Base::Sc(_) => Elem::leaf(f.name, v.text()),
        Base::Ty(b) => {
          let mut l = full.get(b).nss.clone();
          l.clear();
          let mut e = model::ser(&full, b, &v);
          e.name = f.name.into();
          e
        }
      };
      e.ns = t.uri(f.prefix).map(|x| x.to_string());
      (v, Node::E(e))
    })
    .collect()
}

fn symbols(env: &Env, ty: usize, per: usize) -> (Vec<Sym>, Vec<usize>) {
  let t = env.s.get(ty);
  let mut out = vec![];
  let mut lists = vec![];
  let mut all = vec![];
  for (i, f) in t.fields().iter().enumerate() {
    if f.kind == Kind::Elem && f.mult == Mult::Vec {
      lists.push(i);
      for (v, n) in items(env, ty, i, per) {
        all.push(n.clone());
        out.push(Sym::Item(i, v, n));
      }
    }
  }
  // foreign elements holding every kind of item, and text
  let mut z = Elem::new("zz");
  z.kids = all.clone();
  out.push(Sym::Other(Node::E(z)));
  // an item's element in another namespace, holding an item
  if let Some(Node::E(e)) = all.first() {
    let mut e = e.clone();
    e.ns = Some("urn:foreign".into());
    out.push(Sym::Other(Node::E(e)));
  }
  out.push(Sym::Other(Node::Com("c".into())));
  if !t.fields().iter().any(|f| f.kind == Kind::Text) {
    out.push(Sym::Other(Node::T("t".into())));
  }
  // the other members
  for (i, f) in t.fields().iter().enumerate() {
    if f.kind == Kind::Elem && f.mult != Mult::Vec {
      if let Some((_, n)) = items(env, ty, i, 1).pop() {
        out.push(Sym::Other(n));
      }
    }
  }
  (out, lists)
}

pub fn run(ctx: &Ctx, env: &Env) {
  let budget = ctx.pick(60_000, 3_000_000);
  let mut tasks = vec![];
  for ty in env.all_de() {
    let t = env.s.get(ty);
    if t.flatten || !t.fields().iter().any(|f| f.kind == Kind::Elem && f.mult == Mult::Vec) {
      continue;
    }
    for per in [2, 3] {
      let (syms, lists) = symbols(env, ty, per);
      let mut n = 1;
      let mut c = syms.len();
      while c * syms.len() <= budget && n < 8 {
        c *= syms.len();
        n += 1;
      }
      ctx.bound(&format!("read {} ({} items per list)", t.rust, per), format!("every sequence of up to {} of {} nodes, {} lists", n, syms.len(), lists.len()));
      for first in 0..syms.len() {
        tasks.push((ty, per, n, first));
      }
    }
  }
  ctx.par(&tasks, |&(ty, per, n, first), w| {
    let (syms, lists) = symbols(env, ty, per);
    let base = base_docs(&env.s, ty, 1).remove(0);
    let t = env.s.get(ty);
    let list_elem = |k: &Node| matches!(k, Node::E(e) if lists.iter().any(|&i| { let f = &t.fields()[i]; e.name == f.name && e.ns.as_deref() == t.uri(f.prefix) }));
    let rest: Vec<Node> = base.kids.iter().filter(|k| !list_elem(k)).cloned().collect();
    super::c16::sequences(&syms, n - 1, &mut |tail| {
      let mut d = Elem { kids: vec![], ..base.clone() };
      let mut want: Vec<Vec<Val>> = vec![vec![]; lists.len()];
      for s in std::iter::once(&syms[first]).chain(tail) {
        match s {
          Sym::Item(i, v, n) => {
            want[lists.iter().position(|x| x == i).unwrap()].push(v.clone());
            d.kids.push(n.clone());
          }
          Sym::Other(n) => d.kids.push(n.clone()),
        }
      }
      // the required members stand at one of the ends
      if tail.len() % 2 == 0 {
        d.kids.extend(rest.iter().cloned());
      } else {
        d.kids.splice(0..0, rest.iter().cloned());
      }
      let doc = render(&d);
      w.case(&format!("{} {}", t.rust, doc), |w| {
        let got = env.de(ty, &doc);
        w.transitions += 2 * d.count() as u64;
        w.traces += 1;
        w.count("sequences read", 1);
        w.outcome(&want);
        match &got {
          Ok(Val::Struct(l)) => {
            for (k, &i) in lists.iter().enumerate() {
              if l[i] != Val::List(want[k].clone()) {
                return Err(format!("list {}: got {:?}, expected {:?}", t.fields()[i].name, l[i], want[k]));
              }
            }
            Ok(())
          }
          r => Err(format!("got {}", show(r))),
        }
      })
    });
  });
  written(ctx, env);
  attributes(ctx, env);
  long(ctx, env);
}

/// Every pair of short lists, as written: the elements of each name in order.
fn written(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for ty in env.all_ser() {
    let t = env.s.get(ty);
    match &t.def {
      Def::Struct(fs) => {
        let l: Vec<usize> = (0..fs.len()).filter(|&i| fs[i].kind == Kind::Elem && fs[i].mult == Mult::Vec && !fs[i].skip && fs[i].skip_if.is_none() && fs[i].default.is_none()).collect();
        for (n, &i) in l.iter().enumerate() {
          tasks.push((ty, i, l.get(n + 1).or(l.first()).copied().filter(|j| *j != i)));
        }
      }
      Def::Enum(vs, _) => {
        for (i, v) in vs.iter().enumerate() {
          if matches!(v.payload, Some((Mult::Vec, _))) && !t.flatten && !v.flatten {
            tasks.push((ty, i, None));
          }
        }
      }
      _ => {}
    }
  }
  let n = ctx.pick(4, 6);
  ctx.bound("lists written", format!("{} lists: every list of up to {} of 3 items, each with every list of up to 2 of a second member", tasks.len(), n));
  ctx.par(&tasks, |&(ty, i, j), w| {
    let t = env.s.get(ty);
    let place = |i: usize| -> (Base, &'static str, Option<&'static str>) {
      match &t.def {
        Def::Struct(fs) => (fs[i].base, fs[i].name, t.uri(fs[i].prefix)),
        Def::Enum(vs, _) => (vs[i].payload.unwrap().1, vs[i].name, t.uri(vs[i].prefix)),
        _ => unreachable!(),
      }
    };
    let vals = |i: usize, n: usize| -> Vec<Val> {
      match place(i).0 {
        Base::Sc(sc) => scalars(sc).iter().take(n).map(|x| Val::s(x)).collect(),
        Base::Ty(b) => base_values(&env.s, b, n),
      }
    };
    let base = base_values(&env.s, ty, 1).remove(0);
    let put = |l: &[Val], m: &[Val]| match &base {
      Val::Struct(b) => {
        let mut b = b.clone();
        b[i] = Val::List(l.to_vec());
        if let Some(j) = j {
          b[j] = Val::List(m.to_vec());
        }
        Val::Struct(b)
      }
      _ => Val::var(i, Val::List(l.to_vec())),
    };
    let elems = |v: &Val, i: usize| -> Result<(String, Vec<Elem>), String> {
      let doc = env.ser(ty, v)?;
      let root = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?.root.canon(false);
      let (_, name, ns) = place(i);
      // of a member in a default namespace, only the local name counts here
      let l = root.elems().filter(|e| e.name == name && (t.dns.is_some() || e.ns.as_deref() == ns)).cloned().collect();
      Ok((doc, l))
    };
    let a = vals(i, 3);
    let b = j.map_or(vec![], |j| vals(j, 2));
    // the element of each item, alone
    let one = |i: usize, x: &Val| -> Result<Elem, String> {
      let v = if Some(i) == j { put(&[], &[x.clone()]) } else { put(&[x.clone()], &[]) };
      let (doc, mut l) = elems(&v, i)?;
      if l.len() != 1 {
        return Err(format!("one item written {}", doc));
      }
      Ok(l.remove(0))
    };
    let ea: Vec<_> = a.iter().map(|x| one(i, x)).collect();
    let eb: Vec<_> = b.iter().map(|x| one(j.unwrap(), x)).collect();
    let ia: Vec<usize> = (0..a.len()).collect();
    let ib: Vec<usize> = (0..b.len()).collect();
    super::c16::sequences(&ia, n, &mut |la| {
      super::c16::sequences(&ib, 2, &mut |lb| {
        let v = put(&la.iter().map(|&k| a[k].clone()).collect::<Vec<_>>(), &lb.iter().map(|&k| b[k].clone()).collect::<Vec<_>>());
        w.case(&format!("{} written {:?}", t.rust, v), |w| {
          w.traces += 1;
          w.count("lists written", 1);
          for (i, l, es) in [(Some(i), la, &ea), (j, lb, &eb)] {
            if let Some(i) = i {
              let (doc, got) = elems(&v, i)?;
              w.transitions += got.len() as u64;
              if got.len() != l.len() {
                return Err(format!("written {}: {} elements {}", doc, got.len(), place(i).1));
              }
              for (g, &k) in got.iter().zip(l) {
                if *g != es[k].clone()? {
                  return Err(format!("written {}", doc));
                }
              }
            }
          }
          Ok(())
        })
      })
    });
  });
}

/// Attribute lists: every sequence of tokens, with every way to separate them.
fn attributes(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for ty in env.all_de() {
    for (i, f) in env.s.get(ty).fields().iter().enumerate() {
      if f.kind == Kind::Attr && f.mult == Mult::Vec {
        tasks.push((ty, i));
      }
    }
  }
  let n = ctx.pick(4, 5);
  const SEP: [&str; 5] = [" ", "  ", "\n", "\t", " \n  "];
  ctx.bound("attribute lists", format!("{} members: every sequence of up to {} of 3 tokens, with {} separators, between, before and after", tasks.len(), n, SEP.len()));
  ctx.par(&tasks, |&(ty, i), w| {
    let t = env.s.get(ty);
    let f = &t.fields()[i];
    let vals: Vec<Val> = match f.base {
      Base::Sc(Sc::Str) => ["a", "5", "x:y"].iter().map(|x| Val::s(x)).collect(),
      Base::Sc(sc) => scalars(sc).iter().take(3).map(|x| Val::s(x)).collect(),
      Base::Ty(b) => match &env.s.get(b).def {
        Def::Enum(vs, _) => vs.iter().enumerate().filter(|(_, v)| v.payload.is_none()).take(3).map(|(i, _)| Val::Var(i, None)).collect(),
        Def::Prim(Sc::Str) => ["a", "5", "x:y"].iter().map(|x| Val::s(x)).collect(),
        Def::Prim(sc) => scalars(*sc).iter().take(3).map(|x| Val::s(x)).collect(),
        _ => ["F1", "00", "80"].iter().map(|x| Val::s(x)).collect(),
      },
    };
    let text = |v: &Val| match (v, f.base) {
      (Val::Var(k, _), Base::Ty(b)) => match &env.s.get(b).def {
        Def::Enum(vs, _) => vs[*k].name.to_string(),
        _ => unreachable!(),
      },
      (v, _) => v.text().to_string(),
    };
    let base = base_docs(&env.s, ty, 1).remove(0);
    let want0 = env.de(ty, &render(&Elem { attrs: base.attrs.iter().filter(|a| a.name != f.name).cloned().collect(), ..base.clone() }));
    super::c16::sequences(&vals, n, &mut |l| {
      for sep in SEP {
        for (pre, post) in [("", ""), (sep, ""), ("", sep), (sep, sep)] {
          let x: Vec<String> = l.iter().map(&text).collect();
          let value = format!("{}{}{}", pre, x.join(sep), post);
          let mut d = base.clone();
          d.attrs.retain(|a| a.name != f.name);
          d.attrs.push(Attr { ns: None, name: f.name.into(), value });
          let doc = render(&d);
          let go = w.case(&format!("{} {}", t.rust, doc), |w| {
            let got = env.de(ty, &doc);
            w.transitions += l.len() as u64 + 1;
            w.traces += 1;
            w.count("attribute lists", 1);
            let mut want = want0.clone()?;
            if let Val::Struct(m) = &mut want {
              m[i] = Val::List(l.to_vec());
            }
            match got {
              Ok(v) if v == want => Ok(()),
              r => Err(format!("got {}, expected {:?}", show(&r), want)),
            }
          });
          if !go {
            return false;
          }
        }
      }
      true
    });
  });
}

/// Long lists, written and read.
fn long(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for ty in env.all_de() {
    let t = env.s.get(ty);
    if !t.ser || !t.rt {
      continue;
    }
    for (i, f) in t.fields().iter().enumerate() {
      if f.kind == Kind::Elem && f.mult == Mult::Vec {
        tasks.push((ty, i));
      }
    }
  }
  let lens: Vec<usize> = ctx.pick(vec![5, 16, 17, 255, 256, 257, 1000], vec![5, 16, 17, 255, 256, 257, 1000, 65536, 100_000]);
  ctx.bound("long lists", format!("{} members, lengths {:?}", tasks.len(), lens));
  ctx.par(&tasks, |&(ty, i), w| {
    let t = env.s.get(ty);
    let vals: Vec<Val> = items(env, ty, i, 3).into_iter().map(|x| x.0).collect();
    // beyond 16 bits for some
    let lens = lens.iter().cloned().chain((t.has("io") && !ctx.thorough).then_some(65_600));
    for n in lens {
      let mut v = base_values(&env.s, ty, 1).remove(0);
      if let Val::Struct(l) = &mut v {
        l[i] = Val::List((0..n).map(|k| vals[(k * k + k / 3) % vals.len()].clone()).collect());
      }
      let go = w.case(&format!("{}.{} of {} items", t.rust, t.fields()[i].name, n), |w| {
        let doc = env.ser(ty, &v)?;
        w.transitions += 2 * n as u64;
        w.traces += 1;
        match env.de(ty, &doc) {
          Ok(x) if x == v => Ok(()),
          r => Err(clip(&show(&r))),
        }
      });
      if !go {
        return;
      }
    }
  });
}
