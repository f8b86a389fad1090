//! The element of a value, in every parent, beside every sibling and after every other call: the
//! same as the value's own document. No reference model takes part in the comparison.
use crate::env::*;
use std::io::{Read, Write};
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::run::*;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

/// A member or variant that holds a value of a derived type in an element of its own.
#[derive(Clone, Copy)]
struct Place {
  parent: usize,
  i: usize,
  child: usize,
  mult: Mult,
  en: bool,
  /// a member of a variant with named members: the variant, and the type of its members
  named: Option<(usize, usize)>,
  name: &'static str,
  ns: Option<&'static str>,
}

fn places_of(env: &Env) -> Vec<Place> {
  let mut out = vec![];
  for t in &env.s.tys {
    // a member of its own namespace rebinds the parent's prefix: known finding of C10
    if t.dns.is_some() || t.rust == "NsShad" {
      continue;
    }
    let mut add = |i: usize, b: Base, mult: Mult, en: bool, named, name: &'static str, ns: Option<&'static str>| {
      if let Base::Ty(child) = b {
        if !env.s.get(child).flatten {
          out.push(Place { parent: t.id, i, child, mult, en, named, name, ns });
        }
      }
    };
    match &t.def {
      Def::Struct(fs) => {
        for (i, f) in fs.iter().enumerate() {
          if f.kind == Kind::Elem && !f.skip && f.skip_if.is_none() && f.default.is_none() {
            add(i, f.base, f.mult, false, None, f.name, t.uri(f.prefix));
          }
        }
      }
      Def::Enum(vs, _) => {
        for (i, v) in vs.iter().enumerate() {
          match v.payload {
            Some((_, Base::Ty(h))) if v.named => {
              for (k, f) in env.s.get(h).fields().iter().enumerate() {
                add(k, f.base, f.mult, false, Some((i, h)), f.name, t.uri(f.prefix));
              }
            }
            Some((m, b)) if !v.flatten => add(i, b, m, true, None, v.name, t.uri(v.prefix)),
            _ => {}
          }
        }
      }
      _ => {}
    }
  }
  out
}

impl Place {
  /// A value of the parent with the items in this place.
  fn put(&self, parent: &Val, items: &[Val]) -> Option<Val> {
    let v = match (self.mult, items) {
      (Mult::Vec, l) => Val::List(l.to_vec()),
      (Mult::Opt, [v]) => Val::some(v.clone()),
      (Mult::One, [v]) => v.clone(),
      _ => return None,
    };
    if self.en {
      return Some(Val::var(self.i, v));
    }
    match parent {
      Val::Struct(l) => {
        let mut l = l.clone();
        l[self.i] = v;
        let x = Val::Struct(l);
        Some(match self.named {
          Some((k, _)) => Val::var(k, x),
          None => x,
        })
      }
      _ => None,
    }
  }
  /// The items in this place.
  fn items(&self, v: &Val) -> Option<Vec<Val>> {
    let x = match (self.en, v) {
      (true, Val::Var(i, Some(x))) if *i == self.i => &**x,
      (false, Val::Struct(l)) => &l[self.i],
      _ => return None,
    };
    Some(match (self.mult, x) {
      (Mult::Vec, Val::List(l)) => l.clone(),
      (Mult::Opt, Val::Some(v)) => vec![(**v).clone()],
      (Mult::Opt, _) => vec![],
      (_, v) => vec![v.clone()],
    })
  }
  fn is(&self, e: &Elem) -> bool {
    e.name == self.name && e.ns.as_deref() == self.ns
  }
}

pub fn run(ctx: &Ctx, env: &Env) {
  let places = places_of(env);
  ctx.bound("places of derived types", places.len());
  written(ctx, env, &places);
  read(ctx, env, &places);
  calls(ctx, env);
  reentrant(ctx, env);
  interleaved(ctx, env);
  logged(ctx, env);
}

fn written(ctx: &Ctx, env: &Env, places: &[Place]) {
  let few = ctx.pick(2_000, 30_000);
  let parents = ctx.pick(6, 16);
  ctx.par(places, |p, w| {
    if !env.s.get(p.parent).ser || !env.s.get(p.child).ser || env.s.get(p.parent).flatten {
      return;
    }
    let (k, full, l) = values(&env.s, p.child, Vals { scalars: 3, list: 2, depth: 3, alts: 12, all: true }, few);
    ctx.bound(&format!("written {}.{}", env.name(p.parent), p.name), if full { format!("all {} values", l.len()) } else { format!("{} deviations, {} values", k, l.len()) });
    let bases = if p.en { vec![Val::None] } else { base_values(&env.s, p.named.map_or(p.parent, |n| n.1), parents) };
    for (n, v) in l.iter().enumerate() {
      let mut sets = vec![vec![v.clone()]];
      if p.mult == Mult::Vec {
        let o = &l[(n + 1) % l.len()];
        let o2 = &l[(n * 7 + 3) % l.len()];
        sets.push(vec![v.clone(), v.clone()]);
        sets.push(vec![o.clone(), v.clone(), o2.clone()]);
        sets.push(vec![v.clone(), o.clone()]);
      }
      for b in &bases {
        for items in &sets {
          let pv = match p.put(b, items) {
            Some(x) => x,
            None => continue,
          };
          let go = w.case(&format!("{}.{} written {:?}", env.name(p.parent), p.name, pv), |w| {
            let doc = env.ser(p.parent, &pv)?;
            let root = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?.root;
            let got: Vec<&Elem> = root.elems().filter(|e| p.is(e)).collect();
            w.transitions += 2 * root.count() as u64;
            w.traces += 1;
            w.count("values written", 1);
            w.outcome(&doc);
            if got.len() != items.len() {
              return Err(format!("written {}: {} elements {}", doc, got.len(), p.name));
            }
            for (g, v) in got.iter().zip(items) {
              let own = env.ser(p.child, v)?;
              let mut e = parse(&own).map_err(|m| format!("not well-formed: {}: {}", m, own))?.root;
              e.name = p.name.into();
              e.ns = p.ns.map(|x| x.to_string());
              if e.canon(false) != g.canon(false) {
                return Err(format!("written {}, its own document is {}", doc, own));
              }
            }
            Ok(())
          });
          if !go {
            return;
          }
        }
      }
    }
  });
}

fn read(ctx: &Ctx, env: &Env, places: &[Place]) {
  let bases = ctx.pick(4, 12);
  let mut tasks = vec![];
  for p in places {
    if !env.s.get(p.parent).de || !env.s.get(p.child).de || env.s.get(p.parent).flatten || env.s.get(p.parent).tag.is_some() {
      continue;
    }
    for i in 0..bases {
      tasks.push((*p, i));
    }
  }
  ctx.par(&tasks, |&(p, i), w| {
    // the element of the value: a base document and every document one edit away
    let base = match base_docs(&env.s, p.child, i + 1).into_iter().nth(i) {
      Some(b) => b,
      None => return,
    };
    let mut kids = edits(&base, &voc(&env.s, p.child, 2, false));
    kids.insert(0, base);
    if i == 0 {
      ctx.bound(&format!("read {}.{}", env.name(p.parent), p.name), format!("{} base documents and every single edit, {} of the first", bases, kids.len()));
    }
    let t = env.s.get(p.parent);
    let parent = if p.en {
      let mut e = Elem::new(t.root);
      e.ns = t.uri(t.prefix).map(|x| x.into());
      e
    } else {
      let mut e = base_docs(&env.s, p.parent, 1).remove(0);
      e.kids.retain(|k| !matches!(k, Node::E(c) if p.is(c)));
      e
    };
    let own = env.s.get(p.child);
    let prim = matches!(own.def, Def::Prim(_) | Def::Hex(..));
    let alone = |e: &Elem| {
      let mut d = e.clone();
      d.name = own.root.into();
      d.ns = if prim { None } else { own.uri(own.prefix).map(|x| x.into()) };
      env.de(p.child, &render(&d))
    };
    let other = {
      let mut z = Elem::new("zz");
      z.kids.push(Node::E(kids[0].clone()));
      z.kids.push(Node::T("5".into()));
      z
    };
    let first = kids[0].clone();
    for k in &kids {
      let mut k = k.clone();
      k.name = p.name.into();
      k.ns = p.ns.map(|x| x.into());
      let mut f = first.clone();
      f.name = k.name.clone();
      f.ns = k.ns.clone();
      let own_k = alone(&k);
      let own_f = alone(&f);
      // the element alone, between foreign elements, before and after the members, twice
      let n = parent.kids.len();
      let variants: [(usize, Vec<Node>, Vec<&Result<Val, String>>); 5] = [
        (0, vec![Node::E(k.clone())], vec![&own_k]),
        (n, vec![Node::E(k.clone())], vec![&own_k]),
        (n / 2, vec![Node::E(other.clone()), Node::E(k.clone()), Node::T(" ".into()), Node::E(other.clone())], vec![&own_k]),
        (0, vec![Node::E(f.clone()), Node::E(k.clone())], vec![&own_f, &own_k]),
        (n, vec![Node::E(k.clone()), Node::E(other.clone()), Node::E(f.clone())], vec![&own_k, &own_f]),
      ];
      for (at, nodes, owns) in variants {
        let mut d = parent.clone();
        d.kids.splice(at..at, nodes);
        let doc = render(&d);
        let go = w.case(&format!("{} {}", env.name(p.parent), doc), |w| {
          let got = env.de(p.parent, &doc);
          w.transitions += 2 * d.count() as u64;
          w.traces += 1;
          w.outcome(&got.as_ref().ok());
          let mut want: Result<Vec<Val>, String> = owns.iter().map(|r| (*r).clone()).collect();
          if let (Ok(l), true) = (&mut want, p.mult != Mult::Vec) {
            let x = l.pop().unwrap();
            *l = vec![x];
          }
          w.count(if want.is_ok() { "values read" } else { "errors" }, 1);
          match (&got, &want) {
            (Ok(v), Ok(l)) if p.items(v).as_ref() == Some(l) => Ok(()),
            (Err(_), Err(_)) => Ok(()),
            _ => Err(format!("got {}, on its own {:?}", show(&got), want)),
          }
        });
        if !go {
          return;
        }
      }
    }
    if i == 0 {
      ctx.sample(format!("{} in {}: {}", env.name(p.child), env.name(p.parent), render(&parent)));
    }
  });
}

/// A reader that hands out n bytes at a time and then fails, or ends.
struct Src<'a> {
  data: &'a [u8],
  chunk: usize,
  fail: bool,
  each: &'a mut dyn FnMut(),
}
impl Read for Src<'_> {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    (self.each)();
    if self.data.is_empty() && self.fail {
      return Err(std::io::Error::new(std::io::ErrorKind::Other, "read"));
    }
    let n = self.chunk.min(b.len()).min(self.data.len());
    b[..n].copy_from_slice(&self.data[..n]);
    self.data = &self.data[n..];
    Ok(n)
  }
}
/// A writer that takes n bytes at a time and fails after so many bytes.
struct Dst<'a> {
  out: Vec<u8>,
  chunk: usize,
  limit: usize,
  each: &'a mut dyn FnMut(),
}
impl Write for Dst<'_> {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    (self.each)();
    if self.out.len() >= self.limit {
      return Err(std::io::Error::new(std::io::ErrorKind::Other, "write"));
    }
    let n = self.chunk.min(b.len()).min(self.limit - self.out.len());
    self.out.extend(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

#[derive(Clone, Debug)]
enum Call {
  Ser(usize, Val),
  SerC(usize, Val),
  SerContent(usize, Val),
  /// fails after so many bytes
  SerFail(usize, Val, usize),
  De(usize, String),
  /// fails at the end of the text
  DeFail(usize, String),
}

fn call(env: &Env, c: &Call, each: &mut dyn FnMut()) -> Result<String, String> {
  let cfg = yaserde::ser::Config { perform_indent: true, write_document_declaration: false, indent_string: Some("\t".into()) };
  match c {
    Call::Ser(t, v) => match env.ops[*t].ser_w {
      Some(f) => {
        let mut d = Dst { out: vec![], chunk: 16, limit: usize::MAX, each };
        f(v, &mut d, &yaserde::ser::Config::default())?;
        Ok(String::from_utf8_lossy(&d.out).into_owned())
      }
      None => env.ser(*t, v),
    },
    Call::SerC(t, v) => env.ops[*t].ser_c.unwrap()(v, &cfg),
    Call::SerContent(t, v) => env.ops[*t].ser_content.unwrap()(v),
    Call::SerFail(t, v, limit) => {
      let mut d = Dst { out: vec![], chunk: 16, limit: *limit, each };
      env.ops[*t].ser_w.unwrap()(v, &mut d, &cfg)?;
      Ok(String::from_utf8_lossy(&d.out).into_owned())
    }
    Call::De(t, s) => match env.ops[*t].de_r {
      Some(f) => f(&mut Src { data: s.as_bytes(), chunk: 16, fail: false, each }).map(|v| format!("{:?}", v)),
      None => env.de(*t, s).map(|v| format!("{:?}", v)),
    },
    Call::DeFail(t, s) => env.ops[*t].de_r.unwrap()(&mut Src { data: s.as_bytes(), chunk: 16, fail: true, each }).map(|v| format!("{:?}", v)),
  }
}

fn calls_of(env: &Env, all: bool) -> Vec<Call> {
  let mut out = vec![];
  for ty in env.group("io") {
    let t = env.s.get(ty);
    if !t.ser || !t.de {
      continue;
    }
    if !all && !["Mixed", "NsOut", "FlO", "NewE", "CData", "RootFlE"].contains(&t.rust) {
      continue;
    }
    let v = base_values(&env.s, ty, 1).remove(0);
    if t.flatten && rootless(&env.s, ty, &v) {
      continue;
    }
    let doc = render(&base_docs(&env.s, ty, 1)[0]);
    out.push(Call::Ser(ty, v.clone()));
    out.push(Call::De(ty, doc.clone()));
    if all || t.rust == "Mixed" || t.rust == "RootFlE" {
      out.push(Call::SerC(ty, v.clone()));
      out.push(Call::SerContent(ty, v.clone()));
      for cut in [doc.len() / 3, doc.len() * 2 / 3] {
        out.push(Call::SerFail(ty, v.clone(), cut));
        let mut k = cut;
        while !doc.is_char_boundary(k) {
          k -= 1
        }
        out.push(Call::DeFail(ty, doc[..k].into()));
        out.push(Call::De(ty, doc[..k].into()));
      }
    }
  }
  out
}

/// Every sequence of calls: each gives what it gives on a thread of its own.
fn calls(ctx: &Ctx, env: &Env) {
  let set = calls_of(env, false);
  let long = calls_of(env, true);
  let own = |l: &[Call]| -> Vec<Result<String, String>> {
    std::thread::scope(|s| {
      l.iter().map(|c| s.spawn(move || call(env, c, &mut || ())).join().unwrap_or(Err("panic".into()))).collect()
    })
  };
  let n = ctx.pick(3, 4);
  ctx.bound("call sequences", format!("every sequence of {} of {} calls, every pair of {}", n, set.len(), long.len()));
  let (own_set, own_long) = (own(&set), own(&long));
  let firsts: Vec<usize> = (0..set.len()).collect();
  let check = |w: &mut Work, set: &[Call], own: &[Result<String, String>], seq: &[usize]| -> bool {
    let desc = format!("calls {:?}", seq.iter().map(|&i| &set[i]).collect::<Vec<_>>());
    w.case(&desc, |w| {
      for &i in seq {
        let r = call(env, &set[i], &mut || ());
        w.transitions += 1;
        if r != own[i] {
          return Err(format!("{:?}: got {:?}, on its own {:?}", set[i], r, own[i]));
        }
      }
      w.traces += 1;
      w.count("call sequences", 1);
      Ok(())
    })
  };
  ctx.par(&firsts, |&f, w| {
    let idx: Vec<usize> = (0..set.len()).collect();
    super::c16::sequences(&idx, n - 1, &mut |rest| {
      if rest.len() + 1 < n {
        return true;
      }
      let mut seq = vec![f];
      seq.extend(rest);
      check(w, &set, &own_set, &seq)
    });
  });
  let firsts: Vec<usize> = (0..long.len()).collect();
  ctx.par(&firsts, |&f, w| {
    for g in 0..long.len() {
      if !check(w, &long, &own_long, &[f, g]) {
        return;
      }
    }
  });
}

/// Every call while another one is in progress: started from each of its reads or writes.
fn reentrant(ctx: &Ctx, env: &Env) {
  let set = calls_of(env, false);
  let own: Vec<Result<String, String>> = set.iter().map(|c| std::thread::scope(|s| s.spawn(move || call(env, c, &mut || ())).join().unwrap_or(Err("panic".into())))).collect();
  let mut tasks = vec![];
  for i in 0..set.len() {
    for j in 0..set.len() {
      tasks.push((i, j));
    }
  }
  ctx.bound("calls within calls", tasks.len());
  ctx.par(&tasks, |&(i, j), w| {
    w.case(&format!("{:?} within {:?}", set[j], set[i]), |w| {
      let mut bad = None;
      let mut n = 0;
      let r = call(env, &set[i], &mut || {
        n += 1;
        let r = call(env, &set[j], &mut || ());
        if r != own[j] {
          bad = Some(r);
        }
      });
      w.transitions += n + 1;
      w.traces += 1;
      w.count("calls within calls", n);
      if let Some(b) = bad {
        return Err(format!("the inner call: got {:?}, on its own {:?}", b, own[j]));
      }
      if r != own[i] {
        return Err(format!("the outer call: got {:?}, on its own {:?}", r, own[i]));
      }
      Ok(())
    });
  });
}

/// Two threads that take turns as a schedule says: of the entries (thread, steps), the current one
/// says who runs, and for how many reads or writes yet.
struct Turns {
  state: std::sync::Mutex<(Vec<(usize, usize)>, [bool; 2])>,
  changed: std::sync::Condvar,
}

impl Turns {
  fn new(schedule: &[(usize, usize)]) -> Turns {
    Turns { state: std::sync::Mutex::new((schedule.iter().rev().cloned().collect(), [false; 2])), changed: std::sync::Condvar::new() }
  }
  /// Before a step of `me`, and before its first.
  fn step(&self, me: usize, first: bool) {
    let mut s = self.state.lock().unwrap();
    if !first {
      match s.0.last_mut() {
        Some(x) if x.1 > 0 => x.1 -= 1,
        _ => {
          s.0.pop();
          self.changed.notify_all();
        }
      }
    }
    loop {
      let other_done = s.1[1 - me];
      match s.0.last() {
        None => return,
        Some(x) if x.0 == me => return,
        Some(_) if other_done => {
          s.0.pop();
        }
        _ => {
          let (next, late) = self.changed.wait_timeout(s, std::time::Duration::from_secs(5)).unwrap();
          s = next;
          // the other thread waits for this one: no such schedule exists
          if late.timed_out() {
            s.0.clear();
          }
        }
      }
    }
  }
  fn done(&self, me: usize) {
    let mut s = self.state.lock().unwrap();
    s.1[me] = true;
    if s.0.last().is_some_and(|x| x.0 == me) {
      s.0.pop();
    }
    self.changed.notify_all();
  }
}

/// Two calls on two threads, in every interleaving of their reads and writes with up to three
/// changes from one to the other.
fn interleaved(ctx: &Ctx, env: &Env) {
  let set = calls_of(env, false);
  let steps: Vec<(usize, Result<String, String>)> = set
    .iter()
    .map(|c| {
      let mut n = 0;
      let r = call(env, c, &mut || n += 1);
      (n, r)
    })
    .collect();
  let most = ctx.pick(9, 60);
  // one pair at a time: nothing else runs meanwhile
  ctx.par(&[()], |_, w| {
    for a in 0..set.len() {
      for b in 0..set.len() {
        let places = |n: usize| -> Vec<usize> { (0..=n).filter(|k| n <= most || k * most / n != (k + 1) * most / n || *k == n).collect() };
        for &i in &places(steps[a].0) {
          for &j in &places(steps[b].0) {
            let turns = Turns::new(&[(0, i), (1, j), (0, usize::MAX), (1, usize::MAX)]);
            let go = w.case(&format!("{:?} for {} steps, {:?} for {}, then their rests", set[a], i, set[b], j), |w| {
              let run = |me: usize, k: usize| {
                turns.step(me, true);
                let c = &set[k];
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(env, c, &mut || turns.step(me, false))));
                turns.done(me);
                r.unwrap_or(Err("panic".into()))
              };
              let (x, y) = std::thread::scope(|s| {
                let x = s.spawn(|| run(0, a));
                let y = run(1, b);
                (x.join().unwrap(), y)
              });
              w.transitions += (steps[a].0 + steps[b].0) as u64;
              w.traces += 1;
              w.count("interleavings of two calls", 1);
              for (k, r) in [(a, x), (b, y)] {
                if r != steps[k].1 {
                  return Err(format!("{:?}: got {:?}, on its own {:?}", set[k], r, steps[k].1));
                }
              }
              Ok(())
            });
            if !go {
              return;
            }
          }
        }
      }
    }
  });
  ctx.bound("interleaved calls", format!("every pair of {}, every schedule with up to three changes of thread (places thinned to {})", set.len(), most));
}

/// A logger that takes everything and formats it.
struct Logger;
impl yaserde::__log::Log for Logger {
  fn enabled(&self, _: &yaserde::__log::Metadata) -> bool {
    true
  }
  fn log(&self, record: &yaserde::__log::Record) {
    let l = record.args().to_string().len() as u64;
    LOGGED.fetch_add(1 + (l == 0) as u64, std::sync::atomic::Ordering::Relaxed);
  }
  fn flush(&self) {}
}
static LOGGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Whether anyone listens to the library's log makes no difference.
fn logged(ctx: &Ctx, env: &Env) {
  use yaserde::__log::{set_logger, set_max_level, LevelFilter};
  static LOGGER: Logger = Logger;
  set_logger(&LOGGER).expect("logger");
  let mut tasks = vec![];
  for t in &env.s.tys {
    if env.ops[t.id].de.is_some() {
      for e in base_docs(&env.s, t.id, ctx.pick(12, 60)) {
        let d = render(&e);
        // also a result that is an error
        tasks.push((t.id, Err(d.replacen("</", "<!-- c --><zz><zz/>q</zz></", 1))));
        tasks.push((t.id, Err(d.replace("</", "</x"))));
        tasks.push((t.id, Err(d)));
      }
    }
    if env.ops[t.id].ser.is_some() {
      tasks.extend(base_values(&env.s, t.id, ctx.pick(12, 60)).into_iter().map(|v| (t.id, Ok(v))));
    }
  }
  ctx.bound("calls with a logger", tasks.len());
  let run = |(ty, x): &(usize, Result<Val, String>)| match x {
    Ok(v) => env.ser(*ty, v),
    Err(d) => env.de(*ty, d).map(|v| format!("{:?}", v)),
  };
  let quiet: Vec<Result<String, String>> = tasks.iter().map(|t| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(t))).unwrap_or(Err("panic".into()))).collect();
  let tasks: Vec<_> = tasks.into_iter().zip(quiet).collect();
  for level in [LevelFilter::Debug, LevelFilter::Trace] {
    set_max_level(level);
    ctx.par(&tasks, |(t, want), w| {
      w.case(&format!("{} {:?} logging {}", env.name(t.0), t.1, level), |w| {
        w.transitions += 1;
        w.traces += 1;
        w.count("calls with a logger", 1);
        let got = run(t);
        if got != *want {
          return Err(format!("got {:?}, without a logger {:?}", got, want));
        }
        Ok(())
      });
    });
  }
  set_max_level(LevelFilter::Off);
  ctx.bound("messages logged", if LOGGED.load(std::sync::atomic::Ordering::Relaxed) > 0 { "some" } else { "none" });
}
