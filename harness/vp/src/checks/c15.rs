//! Every sequence of cursor operations, on every document of a set, against the list of events
//! the document consists of.
use crate::env::*;
use std::io::Read;
use vcore::enumerate::*;
use vcore::model::runs;
use vcore::run::*;
use vcore::scale::sizes;
use vcore::xml::*;
use xml::name::OwnedName;
use xml::reader::XmlEvent;
use yaserde::de::Deserializer;

type Name = (Option<String>, String);

#[derive(Clone, Debug, PartialEq, Hash)]
enum Ev {
  Start(Name, Vec<(Name, String)>),
  Chars(String),
  End(Name),
  EndDoc,
}

fn name(n: &OwnedName) -> Name {
  (n.namespace.clone(), n.local_name.clone())
}

fn ev(e: &XmlEvent) -> Ev {
  match e {
    XmlEvent::StartElement { name: n, attributes, .. } => Ev::Start(name(n), attributes.iter().map(|a| (name(&a.name), a.value.clone())).collect()),
    XmlEvent::EndElement { name: n } => Ev::End(name(n)),
    XmlEvent::Characters(t) => Ev::Chars(t.clone()),
    XmlEvent::EndDocument => Ev::EndDoc,
    e => Ev::Chars(format!("unexpected {:?}", e)),
  }
}

/// The events of a tree.
fn events(e: &Elem, out: &mut Vec<Ev>) {
  let n = (e.ns.clone(), e.name.clone());
  out.push(Ev::Start(n.clone(), e.attrs.iter().map(|a| ((a.ns.clone(), a.name.clone()), a.value.clone())).collect()));
  let mut run = Elem::new("x");
  for k in &e.kids {
    match k {
      Node::E(c) => {
        out.extend(runs(&run, false).into_iter().map(Ev::Chars));
        run.kids.clear();
        events(c, out);
      }
      k => run.kids.push(k.clone()),
    }
  }
  out.extend(runs(&run, false).into_iter().map(Ev::Chars));
  out.push(Ev::End(n));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
  Peek,
  Next,
  Skip,
  /// read_inner_value with a closure that reads nothing
  Inner,
  /// ... that reads the text
  InnerText,
  /// ... that fails
  InnerErr,
  /// ... that reads one inner value of its own
  InnerInner,
  /// ... that reads everything up to the end of the element
  InnerAll,
  /// expect the end of the element that is open
  End,
  /// expect the end of another element
  EndOther,
}
const OPS: [Op; 10] = [Op::Next, Op::Peek, Op::Skip, Op::InnerText, Op::End, Op::Inner, Op::InnerErr, Op::InnerInner, Op::InnerAll, Op::EndOther];

#[derive(Debug, PartialEq, Clone, Hash)]
enum Out {
  Ev(Ev),
  Text(String),
  Skipped(Vec<Ev>),
  Unit,
  Err,
}

/// The document as a list of events, and where the cursor is.
#[derive(Clone)]
struct Model<'a> {
  evs: &'a [Ev],
  /// whether the list ends in an error
  broken: bool,
  at: usize,
  open: Vec<Name>,
}

impl Model<'_> {
  fn peek(&self) -> Option<&Ev> {
    if self.at < self.evs.len() {
      return Some(&self.evs[self.at]);
    }
    if self.broken {
      None
    } else {
      Some(&Ev::EndDoc)
    }
  }
  fn next(&mut self) -> Option<Ev> {
    let e = self.peek()?.clone();
    self.at += 1;
    match &e {
      Ev::Start(n, _) => self.open.push(n.clone()),
      Ev::End(_) => {
        self.open.pop();
      }
      _ => {}
    }
    Some(e)
  }
  fn end(&mut self, n: &Name) -> Out {
    match self.next() {
      Some(Ev::End(m)) if m == *n => Out::Unit,
      _ => Out::Err,
    }
  }
  fn skip(&mut self) -> Out {
    let d = self.open.len();
    let mut l = vec![];
    while self.open.len() >= d {
      match self.next() {
        Some(e) => l.push(e),
        None => return Out::Err,
      }
    }
    Out::Skipped(l)
  }
  fn text(&mut self) -> String {
    let mut t = String::new();
    while let Some(Ev::Chars(x)) = self.peek() {
      t.push_str(x);
      self.at += 1;
    }
    t
  }
  fn inner(&mut self, op: Op) -> Out {
    let n = match self.next() {
      Some(Ev::Start(n, _)) => n,
      _ => return Out::Err,
    };
    let r = match op {
      Op::Inner => Out::Unit,
      Op::InnerText => Out::Text(self.text()),
      Op::InnerInner => self.inner(Op::InnerText),
      Op::InnerAll => self.skip(),
      _ => Out::Err,
    };
    if r == Out::Err {
      return r;
    }
    match self.end(&n) {
      Out::Unit => r,
      _ => Out::Err,
    }
  }
  fn step(&mut self, op: Op) -> Out {
    match op {
      Op::Peek => self.peek().map_or(Out::Err, |e| Out::Ev(e.clone())),
      Op::Next => self.next().map_or(Out::Err, Out::Ev),
      Op::Skip => self.skip(),
      Op::End => {
        let n = self.open.last().cloned().unwrap_or((None, "none".into()));
        self.end(&n)
      }
      Op::EndOther => {
        let n = other(self.open.last());
        self.end(&n)
      }
      op => self.inner(op),
    }
  }
}

/// A name that is not the open element's, by its namespace only.
fn other(n: Option<&Name>) -> Name {
  match n {
    Some((None, l)) => (Some("urn:else".into()), l.clone()),
    Some((Some(_), l)) => (None, l.clone()),
    None => (None, "none".into()),
  }
}

fn real_inner<R: Read>(d: &mut Deserializer<R>, op: Op) -> Out {
  let r = d.read_inner_value(|d| match op {
    Op::Inner => Ok(Out::Unit),
    Op::InnerText => {
      let mut t = String::new();
      while let XmlEvent::Characters(s) = d.peek()? {
        t.push_str(s);
        d.next_event()?;
      }
      Ok(Out::Text(t))
    }
    Op::InnerInner => match real_inner(d, Op::InnerText) {
      Out::Err => Err("inner".into()),
      o => Ok(o),
    },
    Op::InnerAll => {
      let mut l = vec![];
      d.skip_element(|e| l.push(ev(e)))?;
      Ok(Out::Skipped(l))
    }
    _ => Err("closure".to_string()),
  });
  r.unwrap_or(Out::Err)
}

struct Real<'a> {
  d: Deserializer<&'a [u8]>,
  doc: &'a str,
}

impl Real<'_> {
  fn step(&mut self, op: Op, open: Option<&Name>) -> Out {
    let d = &mut self.d;
    let doc = self.doc;
    let own = |n: Name| OwnedName { prefix: prefix(doc, &n), local_name: n.1, namespace: n.0 };
    match op {
      Op::Peek => d.peek().map_or(Out::Err, |e| Out::Ev(ev(e))),
      Op::Next => d.next_event().map_or(Out::Err, |e| Out::Ev(ev(&e))),
      Op::Skip => {
        let mut l = vec![];
        match d.skip_element(|e| l.push(ev(e))) {
          Ok(()) => Out::Skipped(l),
          Err(_) => Out::Err,
        }
      }
      Op::End => {
        let n = own(open.cloned().unwrap_or((None, "none".into())));
        d.expect_end_element(&n).map_or(Out::Err, |_| Out::Unit)
      }
      Op::EndOther => d.expect_end_element(&own(other(open))).map_or(Out::Err, |_| Out::Unit),
      op => real_inner(d, op),
    }
  }
}

fn documents(ctx: &Ctx) -> Vec<(String, Vec<Ev>, bool)> {
  let mut out = vec![];
  let n = |x: &str| (None, x.to_string());
  // all small trees over two names
  let a = Alphabet {
    roots: vec![n("a")],
    root_attrs: vec![vec![]],
    names: vec![n("a"), n("b")],
    leaf: vec![vec![], vec![Node::T("x".into())]],
    attrs: vec![vec![]],
  };
  docs(&a, ctx.pick(3, 4), 0, 1, &mut |e| {
    let mut l = vec![];
    events(e, &mut l);
    out.push((render(e), l, false));
    true
  });
  // kinds of nodes
  for t in [
    "<a x=\"1\" y=\"2\"><b z=\"3\">t<c/>u</b> v </a>",
    "<?xml version=\"1.0\"?><!-- c --><?p q?><a>x<!-- c -->y<?p q?>z<![CDATA[w]]>v</a><!-- c -->",
    "<a>\n  <b> </b>\n  <b>\n</b> x </a>\n",
    "<n:a xmlns:n=\"urn:n\"><n:b><c xmlns=\"urn:n\"/><m:d xmlns:m=\"urn:n\">q</m:d></n:b></n:a>",
    "<a><a><a><a/></a></a></a>",
    "<a><![CDATA[]]><b><![CDATA[ ]]></b><c><![CDATA[<a>]]></c></a>",
    "<a>&lt;&amp;&#65;<b>&#32;</b></a>",
    "<!DOCTYPE a><a/>",
  ] {
    let e = parse(t).expect("document").root;
    let mut l = vec![];
    events(&e, &mut l);
    out.push((t.to_string(), l, false));
  }
  out
}

pub fn run(ctx: &Ctx, _env: &Env) {
  let docs = documents(ctx);
  ctx.bound("documents", docs.len());
  let n = ctx.pick(5, 6);
  ctx.bound("operations", format!("every sequence of {} of {} operations, then reads up to the end of the document", n, OPS.len()));
  let mut tasks = vec![];
  for i in 0..docs.len() {
    for first in OPS {
      tasks.push((i, &docs[i], first));
    }
  }
  ctx.par(&tasks, |(i, (doc, evs, broken), first), w| {
    let len = if doc.len() > 60 { n - 1 } else { n };
    let mut seq = vec![*first];
    // depth-first over sequences; each is replayed on a fresh cursor
    fn rec(w: &mut Work, doc: &str, evs: &[Ev], broken: bool, seq: &mut Vec<Op>, len: usize) -> bool {
      // skipping outside of any element has no end: not a sequence to explore
      let mut m = Model { evs, broken, at: 0, open: vec![] };
      for op in seq.iter() {
        if matches!(op, Op::Skip) && m.open.is_empty() {
          return true;
        }
        m.step(*op);
      }
      if seq.len() == len || m.at > evs.len() {
        let desc = format!("{:?} {}", seq, doc);
        return w.case(&desc, |w| replay(w, doc, evs, broken, seq));
      }
      for op in OPS {
        seq.push(op);
        let go = rec(w, doc, evs, broken, seq, len);
        seq.pop();
        if !go {
          return false;
        }
      }
      true
    }
    if *i % 17 == 3 && *first == Op::Next {
      w.ctx.sample(format!("{} {:?}", doc, evs));
    }
    rec(w, doc, evs, *broken, &mut seq, len);
  });
  // documents of any size: every operation, alone and twice, after every number of reads
  let (all, max) = ctx.pick((20, 260), (70, 1024));
  let mut tasks = vec![];
  for n in sizes(all, max) {
    let mut deep = Elem::leaf("a", "x");
    let mut mixed = Elem::leaf("b", "x");
    for i in 0..n {
      let mut p = Elem::new(if i % 3 == 0 { "a" } else { "b" });
      p.kids = vec![Node::T("x".into()), Node::E(mixed), Node::E(Elem::new("a"))];
      mixed = p;
      deep = Elem::new("a").kid(deep);
    }
    let mut wide = Elem::new("a");
    wide.kids = (0..n).flat_map(|i| [Node::E(Elem::leaf("b", "x")), Node::T(format!("t{}", i)), Node::E(Elem::new("a"))]).collect();
    let mut attrs = Elem::new("a").kid(Elem::new("b"));
    attrs.attrs = (0..n).map(|i| Attr { ns: None, name: format!("q{}", i), value: format!("{}", i) }).collect();
    let long = Elem::new("a").kid(Elem::leaf("b", &"x".repeat(n)));
    for e in [deep, mixed, wide, attrs, long] {
      let mut l = vec![];
      events(&e, &mut l);
      tasks.push((n, render(&e), l));
    }
  }
  ctx.bound("sizes of documents", format!("all up to {}, around powers of two up to {}", all, max));
  ctx.par(&tasks, |(n, doc, evs), w| {
    let at: Vec<usize> = if evs.len() <= 80 { (0..=evs.len()).collect() } else { (0..8).chain(evs.len() / 2 - 4..evs.len() / 2 + 4).chain(evs.len() - 8..=evs.len()).collect() };
    for k in at {
      for op in OPS {
        for twice in [false, true] {
          let mut seq = vec![Op::Next; k];
          seq.push(op);
          if twice {
            seq.push(op);
          }
          // skipping outside of any element has no end
          let mut m = Model { evs, broken: false, at: 0, open: vec![] };
          let mut endless = false;
          for o in &seq {
            endless = *o == Op::Skip && m.open.is_empty();
            if endless {
              break;
            }
            m.step(*o);
          }
          if endless {
            continue;
          }
          let go = w.case(&format!("size {} {} reads then {:?} {} {}", n, k, op, twice, clip(doc)), |w| {
            w.count("sized documents", 1);
            replay(w, doc, evs, false, &seq).map_err(|m| clip(&m))
          });
          if !go {
            return;
          }
        }
      }
    }
  });
  // truncations: what was complete is delivered, then every read is an error
  let mut tasks = vec![];
  for (doc, evs, _) in &docs {
    if doc.len() < 80 {
      for k in 0..doc.len() {
        if doc.is_char_boundary(k) && parse_root(&doc[..k]).is_err() {
          tasks.push((doc, evs, k));
        }
      }
    }
  }
  ctx.par(&tasks, |(doc, evs, k), w| {
    for with_peek in [false, true] {
      let d = &doc[..*k];
      let go = w.case(&format!("truncated {} {}", with_peek, d), |w| {
        let mut c = Deserializer::new_from_reader(d.as_bytes());
        let mut open = 0usize;
        for i in 0.. {
          if with_peek {
            let p = c.peek().map(ev);
            if let (Ok(p), Some(e)) = (&p, evs.get(i)) {
              // text may be cut short
              if p != e && !matches!((p, e), (Ev::Chars(a), Ev::Chars(b)) if b.starts_with(a.as_str())) {
                return Err(format!("peeked {:?}, expected {:?}", p, e));
              }
            }
          }
          let r = c.next_event();
          w.transitions += 1;
          match (r, evs.get(i)) {
            (Err(_), _) => break,
            (Ok(XmlEvent::EndDocument), _) => return Err("the document ended".into()),
            (Ok(x), Some(e)) => {
              let x = ev(&x);
              match &x {
                Ev::Start(..) => open += 1,
                Ev::End(_) => open -= 1,
                _ => {}
              }
              if x != *e && !matches!((&x, e), (Ev::Chars(a), Ev::Chars(b)) if b.starts_with(a.as_str())) {
                return Err(format!("read {:?}, expected {:?}", x, e));
              }
              if c.depth() != open {
                return Err(format!("depth {}, {} open", c.depth(), open));
              }
            }
            (Ok(x), None) => return Err(format!("read {:?} after the end", x)),
          }
        }
        w.traces += 1;
        w.count("truncations", 1);
        if c.next_event().is_ok() || c.peek().is_ok() {
          return Err("an event after an error".into());
        }
        if c.depth() != open {
          return Err(format!("depth {}, {} open", c.depth(), open));
        }
        Ok(())
      });
      if !go {
        return;
      }
    }
  });
}

fn replay(w: &mut Work, doc: &str, evs: &[Ev], broken: bool, seq: &[Op]) -> Result<(), String> {
  let mut m = Model { evs, broken, at: 0, open: vec![] };
  let mut r = Real { d: Deserializer::new_from_reader(doc.as_bytes()), doc };
  let mut all = vec![];
  for (i, op) in seq.iter().enumerate() {
    let open = m.open.last().cloned();
    let want = m.step(*op);
    let got = r.step(*op, open.as_ref());
    w.transitions += 1;
    if got != want {
      return Err(format!("operation {} {:?}: got {:?}, expected {:?}", i, op, got, want));
    }
    if r.d.depth() != m.open.len() {
      return Err(format!("operation {} {:?}: depth {}, expected {}", i, op, r.d.depth(), m.open.len()));
    }
    all.push(got);
  }
  // the rest of the document follows
  for k in m.at..=evs.len() {
    let want = m.step(Op::Next);
    let got = r.step(Op::Next, None);
    w.transitions += 1;
    if got != want {
      return Err(format!("then event {}: got {:?}, expected {:?}", k, got, want));
    }
    if r.d.depth() != m.open.len() {
      return Err(format!("then event {}: depth {}, expected {}", k, r.d.depth(), m.open.len()));
    }
  }
  w.traces += 1;
  w.outcome(&all);
  Ok(())
}

/// The prefix the document spells the name with (each name has one spelling).
fn prefix(doc: &str, n: &Name) -> Option<String> {
  n.0.as_ref()?;
  let i = doc.find(&format!(":{}", n.1)).filter(|i| doc[..*i].ends_with(|c| c == 'n' || c == 'm'))?;
  let p = &doc[i - 1..i];
  doc.contains(&format!("<{}:{}", p, n.1)).then(|| p.to_string())
}
