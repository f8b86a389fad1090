//! Every combination of members present, absent and unusable.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

/// A state of a member: what stands in the document, and what the member is then.
#[derive(Clone)]
struct St {
  nodes: Vec<Node>,
  attr: Option<Attr>,
  /// the value, or nothing usable
  got: Vec<Val>,
  /// reading it is an error in itself
  err: bool,
}

fn states(env: &Env, t: &Ty, f: &Field) -> Vec<St> {
  let s = &env.s;
  let ns = t.uri(f.prefix).map(|x| x.to_string());
  let el = |k: Vec<Node>| {
    let mut e = Elem::new(f.name);
    e.ns = ns.clone();
    e.kids = k;
    Node::E(e)
  };
  let none = St { nodes: vec![], attr: None, got: vec![], err: false };
  let mut out = vec![];
  match f.kind {
    Kind::Attr => {
      let at = |x: &str| Some(Attr { ns: ns.clone(), name: f.name.to_string(), value: x.to_string() });
      match f.base {
        Base::Sc(sc) => {
          let good = scalars(sc)[0];
          let got = if f.mult == Mult::Vec { vec![Val::s(good), Val::s(good)] } else { vec![Val::s(good)] };
          let text = if f.mult == Mult::Vec { format!("{} {}", good, good) } else { good.to_string() };
          out.push(St { attr: at(&text), got, ..none.clone() });
          if sc != Sc::Str {
            for bad in ["q", "5 5x", "--"] {
              out.push(St { attr: at(bad), err: true, ..none.clone() });
            }
            out.push(St { attr: at(""), err: f.mult != Mult::Vec, ..none.clone() });
          } else if f.mult != Mult::Vec {
            out.push(St { attr: at(""), got: vec![Val::s("")], ..none.clone() });
          }
        }
        Base::Ty(b) => {
          let good = &base_values(s, b, 1)[0];
          let text = match good {
            Val::S(x) => x.clone(),
            Val::Var(i, None) => match &s.get(b).def {
              Def::Enum(v, _) => v[*i].name.to_string(),
              _ => unreachable!(),
            },
            _ => return vec![none],
          };
          out.push(St { attr: at(&text), got: vec![good.clone()], ..none.clone() });
        }
      }
      out.push(none);
    }
    Kind::Elem | Kind::Cdata => {
      match f.base {
        Base::Sc(sc) => {
          let good = scalars(sc)[0];
          out.push(St { nodes: vec![el(vec![Node::T(good.into())])], got: vec![Val::s(good)], ..none.clone() });
          out.push(none.clone());
          let mut bad: Vec<Vec<Node>> = vec![
            vec![Node::E(Elem::new("zz"))],
            vec![Node::T(good.into()), Node::E(Elem::new("zz"))],
            vec![Node::E(Elem::leaf(f.name, good))],
          ];
          if sc != Sc::Str {
            bad.push(vec![]);
            bad.push(vec![Node::T("q".into())]);
            bad.push(vec![Node::T(format!("{} {}", good, good))]);
          }
          for b in bad {
            out.push(St { nodes: vec![el(b.clone())], ..none.clone() });
            // an unusable one beside a usable one counts as absent
            out.push(St { nodes: vec![el(vec![Node::T(good.into())]), el(b)], got: vec![Val::s(good)], ..none.clone() });
          }
          if sc == Sc::Str {
            out.push(St { nodes: vec![el(vec![])], got: vec![Val::s("")], ..none.clone() });
          }
        }
        Base::Ty(b) => {
          let v = &base_values(s, b, 1)[0];
          let mut e = model::element(&full(s), b, v, "x", &vec![]);
          e.name = f.name.into();
          e.ns = ns.clone();
          out.push(St { nodes: vec![Node::E(e)], got: vec![v.clone()], ..none.clone() });
          out.push(none.clone());
          // empty element: what the type says about it
          let mut e = Elem::new(f.name);
          e.ns = ns.clone();
          let r = model::de_ty(s, b, &e, false);
          out.push(St { nodes: vec![Node::E(e)], err: r.is_err(), got: r.into_iter().collect(), ..none.clone() });
        }
      }
    }
    Kind::Text => {
      out.push(St { nodes: vec![Node::T("a".into())], got: vec![Val::s("a")], ..none.clone() });
      out.push(St { got: if f.mult == Mult::One && f.default.is_none() { vec![Val::s("")] } else { vec![] }, ..none.clone() });
    }
    Kind::Flatten => unreachable!(),
  }
  out
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| t.de && !t.has("probe") && !t.flatten && !t.fields().is_empty()) {
    if t.fields().iter().any(|f| f.kind == Kind::Flatten) {
      continue;
    }
    for m in 0..4 {
      tasks.push((t.id, m));
    }
  }
  ctx.bound("struct types", tasks.len() / 4);
  let budget = ctx.pick(60_000, 1_000_000);
  ctx.par(&tasks, |&(ty, m), w| {
    let t = env.s.get(ty);
    let st: Vec<Vec<St>> = t.fields().iter().map(|f| states(env, t, f)).collect();
    // combinations of state numbers
    let alts: Vec<Vec<Val>> = st.iter().map(|l| (0..l.len()).map(|i| Val::S(i.to_string())).collect()).collect();
    let (k, all, l) = combos(&alts, budget);
    if m == 0 {
      ctx.bound(t.rust, if all { format!("all {} combinations", l.len()) } else { format!("{} members off their value, {} combinations", k, l.len()) });
    }
    for c in l.iter().skip(m).step_by(4) {
      let mut e = Elem::new(t.root);
      e.ns = t.uri(t.prefix).map(|x| x.to_string());
      let mut want = vec![];
      let mut missing = vec![];
      let mut err = false;
      for ((f, st), i) in t.fields().iter().zip(&st).zip(c) {
        let x = &st[i.text().parse::<usize>().unwrap()];
        e.attrs.extend(x.attr.clone());
        e.kids.extend(x.nodes.clone());
        err |= x.err;
        want.push(match f.mult {
          Mult::Vec => Val::List(x.got.clone()),
          Mult::Opt => x.got.last().map_or(Val::None, |v| Val::some(v.clone())),
          Mult::One => match (x.got.last(), &f.default) {
            (Some(v), _) => v.clone(),
            (None, Some(d)) => d.clone(),
            (None, None) => {
              if !x.err {
                missing.push(f.ident);
              }
              Val::None
            }
          },
        });
      }
      let doc = render(&e);
      let desc = format!("{} {}", t.rust, doc);
      let go = w.case(&desc, |w| {
        let got = env.de(ty, &doc);
        w.transitions += events(&doc);
        w.traces += 1;
        w.outcome(&got.as_ref().ok());
        agree(&got, &model::de(&env.s, ty, &e))?;
        match &got {
          _ if err => {
            w.count("unusable", 1);
            if got.is_ok() {
              return Err(format!("expected an error, got {}", show(&got)));
            }
          }
          Ok(v) => {
            w.count("usable", 1);
            if !missing.is_empty() || *v != Val::Struct(want.clone()) {
              return Err(format!("got {:?}, expected {:?}, missing {:?}", v, want, missing));
            }
          }
          Err(msg) => {
            w.count("missing", 1);
            if !missing.iter().any(|i| msg.contains(i) && msg.contains(t.rust.split('<').next().unwrap())) {
              return Err(format!("error {:?} names none of the missing {:?} of {}", msg, missing, t.rust));
            }
          }
        }
        Ok(())
      });
      if w.states % 5003 == 1 {
        ctx.sample(desc);
      }
      if !go {
        return;
      }
    }
  });
  // enums: contents that name no variant
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| t.de && !t.has("probe") && !t.flatten) {
    if let Def::Enum(_, d) = &t.def {
      tasks.push((t.id, d.clone()));
    }
  }
  ctx.bound("enum types", tasks.len());
  ctx.par(&tasks, |(ty, d), w| {
    let t = env.s.get(*ty);
    let mut contents: Vec<Vec<Node>> = vec![
      vec![],
      vec![Node::T("nothing".into())],
      vec![Node::E(Elem::leaf("zz", "5"))],
      vec![Node::T("q".into()), Node::E(Elem::new("zz")), Node::T("r".into())],
      vec![Node::Com("x".into())],
    ];
    let names = |f: &dyn Fn(&str) -> Vec<Node>| -> Vec<Vec<Node>> {
      match &t.def {
        Def::Enum(vs, _) => vs.iter().map(|v| f(v.name)).collect(),
        _ => vec![],
      }
    };
    contents.extend(names(&|n| vec![Node::E(Elem::new("zz").kid(Elem::leaf(n, "5")))]));
    contents.extend(names(&|n| vec![Node::E(Elem::leaf("zz", n))]));
    contents.extend(names(&|n| vec![Node::T(format!("{}x", n))]));
    contents.extend(names(&|n| vec![Node::T(format!("x {}", n))]));
    contents.extend(names(&|n| vec![Node::Com(n.into())]));
    for c in contents {
      let mut e = Elem::new(t.root);
      e.ns = t.uri(t.prefix).map(|x| x.to_string());
      if let Some(tag) = t.tag {
        e.attrs.push(Attr { ns: None, name: tag.into(), value: "nothing".into() });
      }
      e.kids = c;
      let doc = render(&e);
      let go = w.case(&format!("{} {}", t.rust, doc), |w| {
        w.transitions += events(&doc);
        w.traces += 1;
        agree(&env.de(*ty, &doc), &Ok(d.clone()))
      });
      if !go {
        return;
      }
    }
  });
}
