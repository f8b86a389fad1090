//! Every delivery of the bytes and every point of failure of the reader.
use crate::env::*;
use std::io::{Error, ErrorKind, Read};
use vcore::docs::*;
use vcore::run::*;
use vcore::model;
use vcore::scale::*;
use vcore::xml::*;

/// Delivers the bytes in the given pieces, then fails or ends.
struct Script<'a> {
  data: &'a [u8],
  at: usize,
  /// ends of the pieces
  cuts: Vec<usize>,
  /// at most this many bytes per call
  max: usize,
  fail_at: Option<(usize, ErrorKind)>,
  /// fail once only
  once: bool,
  failed: bool,
  calls: u64,
}

impl Read for Script<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if let Some((k, kind)) = self.fail_at {
      if self.at >= k && !(self.once && self.failed) {
        self.failed = true;
        return Err(Error::new(kind, "injected"));
      }
    }
    let mut end = self.data.len();
    for &c in &self.cuts {
      if c > self.at {
        end = end.min(c);
      }
    }
    if let (Some((k, _)), false) = (self.fail_at, self.failed) {
      if k > self.at {
        end = end.min(k);
      }
    }
    let n = (end - self.at).min(self.max).min(buf.len());
    buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
    self.at += n;
    Ok(n)
  }
}

pub fn run(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| env.ops[t.id].de_r.is_some()) {
    for (i, e) in base_docs(&env.s, t.id, ctx.pick(5, 14)).iter().enumerate() {
      let doc = render(e);
      tasks.push((t.id, i, doc.clone()));
      if i == 0 {
        // multi-byte text, a declaration, and trailing content
        let v = doc.replace(">a<", ">\u{e9}\u{1F600}a<").replace("=\"a\"", "=\"\u{e9}\u{1F600}\"");
        tasks.push((t.id, 90, format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n{}\n<!-- end -->", v)));
        // results that are errors
        tasks.push((t.id, 91, doc.replace("</", "</x")));
        tasks.push((t.id, 92, format!("<zz>{}</zz>", doc)));
      }
    }
  }
  ctx.bound("documents", tasks.len());
  let two = ctx.pick(150, 1000);
  ctx.bound("two cuts", format!("documents up to {} bytes", two));
  ctx.par(&tasks, |(ty, i, doc), w| {
    let ty = *ty;
    let b = doc.as_bytes();
    let want = env.de(ty, doc);
    let end = parse_root(doc).map(|(_, e)| e);
    let run = |w: &mut Work, s: &mut Script, want: Option<&Result<vcore::val::Val, String>>, what: &str| -> Result<(), String> {
      let got = env.ops[ty].de_r.unwrap()(s);
      w.transitions += s.calls;
      w.traces += 1;
      w.outcome(&got.as_ref().ok());
      match want {
        Some(x) => match (&got, x) {
          (Ok(a), Ok(b)) if a == b => Ok(()),
          (Err(a), Err(b)) if a == b => Ok(()),
          _ => Err(format!("{}: got {}, from the complete string {}", what, show(&got), show(x))),
        },
        None if got.is_ok() => Err(format!("{}: got {}", what, show(&got))),
        None => Ok(()),
      }
    };
    let script = || Script { data: b, at: 0, cuts: vec![], max: usize::MAX, fail_at: None, once: false, failed: false, calls: 0 };
    let name = env.name(ty);
    let mut go = true;
    if *i == 0 {
      ctx.sample(format!("{} {}", name, doc));
    }
    for max in [1, 2, 3, 5, 7, 16, 64] {
      go = go && w.case(&format!("{} {} bytes at a time {}", name, max, doc), |w| {
        w.count("constant sizes", 1);
        run(w, &mut Script { max, ..script() }, Some(&want), "delivery")
      });
    }
    for c in 0..=b.len() {
      go = go && w.case(&format!("{} cut at {} {}", name, c, doc), |w| {
        w.count("one cut", 1);
        run(w, &mut Script { cuts: vec![c], ..script() }, Some(&want), "delivery")
      });
      // end of input
      if c < b.len() {
        go = go && w.case(&format!("{} ends at {} {}", name, c, doc), |w| {
          w.count("ends", 1);
          let mut s = Script { data: &b[..c], ..script() };
          match &end {
            // an end inside of what follows the root may or may not be seen
            Ok(e) if c >= *e => {
              let got = env.ops[ty].de_r.unwrap()(&mut s);
              w.transitions += s.calls;
              match got {
                Ok(v) => agree(&Ok(v), &want),
                Err(_) if c > *e => Ok(()),
                Err(m) => agree(&Err(m), &want),
              }
            }
            _ => run(w, &mut s, None, "end of input inside the root"),
          }
        });
      }
      for (j, kind) in KINDS.iter().copied().enumerate() {
        for once in [false, true] {
          for max in [usize::MAX, 1] {
            if j > 4 && (max == 1) != once {
              continue;
            }
            go = go && w.case(&format!("{} fails ({:?}, {}) at {} {}", name, kind, if once { "once" } else { "for good" }, c, doc), |w| {
              w.count("failures", 1);
              let mut s = Script { fail_at: Some((c, kind)), once, max, ..script() };
              match &end {
                // a failure after the root element may or may not be seen
                Ok(e) if c >= *e => {
                  let got = env.ops[ty].de_r.unwrap()(&mut s);
                  w.transitions += s.calls;
                  match got {
                    Ok(v) => agree(&Ok(v), &want),
                    Err(_) => Ok(()),
                  }
                }
                _ => run(w, &mut s, None, "a failing reader"),
              }
            });
          }
        }
      }
    }
    // a reader that was only interrupted may be asked again: the whole value or an error
    for c in 0..b.len() {
      go = go && w.case(&format!("{} interrupted at {} {}", name, c, doc), |w| {
        w.count("interruptions", 1);
        let mut s = Script { fail_at: Some((c, ErrorKind::Interrupted)), once: true, ..script() };
        let got = env.ops[ty].de_r.unwrap()(&mut s);
        w.transitions += s.calls;
        w.traces += 1;
        match got {
          Ok(v) => agree(&Ok(v), &want),
          Err(_) => Ok(()),
        }
      });
    }
    if b.len() <= two {
      for c in 0..b.len() {
        for d in c + 1..b.len() {
          go = go && w.case(&format!("{} cuts at {} {} {}", name, c, d, doc), |w| {
            w.count("two cuts", 1);
            run(w, &mut Script { cuts: vec![c, d], ..script() }, Some(&want), "delivery")
          });
        }
      }
    }
  });
  encodings(ctx, env);
  large(ctx, env);
}

const KINDS: [ErrorKind; 22] = [
  ErrorKind::Other,
  ErrorKind::UnexpectedEof,
  ErrorKind::WouldBlock,
  ErrorKind::BrokenPipe,
  ErrorKind::TimedOut,
  ErrorKind::NotFound,
  ErrorKind::PermissionDenied,
  ErrorKind::ConnectionRefused,
  ErrorKind::ConnectionReset,
  ErrorKind::ConnectionAborted,
  ErrorKind::NotConnected,
  ErrorKind::AddrInUse,
  ErrorKind::AddrNotAvailable,
  ErrorKind::AlreadyExists,
  ErrorKind::InvalidInput,
  ErrorKind::InvalidData,
  ErrorKind::WriteZero,
  ErrorKind::Unsupported,
  ErrorKind::OutOfMemory,
  ErrorKind::StaleNetworkFileHandle,
  ErrorKind::NetworkDown,
  ErrorKind::HostUnreachable,
];

/// The bytes of a document in every encoding the parser knows.
fn encoded(doc: &str) -> Vec<(&'static str, Vec<u8>)> {
  let body = match doc.strip_prefix("<?xml") {
    Some(r) => &r[r.find("?>").unwrap() + 2..],
    None => doc,
  };
  let decl = |e: &str, body: &str| format!("<?xml version=\"1.0\" encoding=\"{}\"?>{}", e, body);
  let be = |s: &str| s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect::<Vec<u8>>();
  let le = |s: &str| s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect::<Vec<u8>>();
  let join = |a: &[u8], b: Vec<u8>| [a, &b].concat();
  let mut out = vec![
    ("utf-8 with a mark", join(b"\xEF\xBB\xBF", body.as_bytes().to_vec())),
    ("utf-8 with a mark, declared", join(b"\xEF\xBB\xBF", decl("UTF-8", body).into_bytes())),
    ("utf-16 be", join(b"\xFE\xFF", be(body))),
    ("utf-16 le", join(b"\xFF\xFE", le(body))),
    ("utf-16 be, declared", join(b"\xFE\xFF", be(&decl("UTF-16", body)))),
    ("utf-16 le, declared", join(b"\xFF\xFE", le(&decl("UTF-16", body)))),
  ];
  if body.chars().all(|c| (c as u32) < 0x100) {
    out.push(("latin-1", decl("ISO-8859-1", body).chars().map(|c| c as u8).collect()));
  }
  if body.is_ascii() {
    out.push(("ascii", decl("US-ASCII", body).into_bytes()));
  }
  out
}

/// The same document in other encodings, in every two pieces, failing at every byte.
fn encodings(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| env.ops[t.id].de_r.is_some()) {
    for e in base_docs(&env.s, t.id, ctx.pick(2, 6)) {
      let doc = render(&e);
      for c in ["a", "\u{e9}a", "\u{e9}\u{1F600}a"] {
        let d = doc.replace(">a<", &format!(">{}<", c)).replace("=\"a\"", &format!("=\"{}\"", c));
        if c != "a" && d == doc {
          continue;
        }
        for (n, b) in encoded(&d) {
          tasks.push((t.id, d.clone(), n, b));
        }
      }
    }
  }
  ctx.bound("documents in other encodings", tasks.len());
  ctx.par(&tasks, |(ty, doc, n, b), w| {
    let want = env.de(*ty, doc);
    let end = b.len() - if n.starts_with("utf-16") { 2 } else { 1 };
    let script = || Script { data: b, at: 0, cuts: vec![], max: usize::MAX, fail_at: None, once: false, failed: false, calls: 0 };
    let name = format!("{} {} {}", env.name(*ty), n, doc);
    let mut go = true;
    for max in [usize::MAX, 1, 2, 3, 5, 7] {
      go = go && w.case(&format!("{} {} bytes at a time", name, max), |w| {
        w.count("other encodings", 1);
        let mut s = Script { max, ..script() };
        let got = env.ops[*ty].de_r.unwrap()(&mut s);
        w.transitions += s.calls;
        w.traces += 1;
        agree(&got, &want)
      });
    }
    for c in 0..=end {
      go = go && w.case(&format!("{} cut at {}", name, c), |w| {
        let mut s = Script { cuts: vec![c], ..script() };
        let got = env.ops[*ty].de_r.unwrap()(&mut s);
        w.transitions += s.calls;
        w.traces += 1;
        agree(&got, &want)
      });
      for (data, fail) in [(&b[..], Some(ErrorKind::Other)), (&b[..c], None)] {
        go = go && w.case(&format!("{} {:?} at {}", name, fail, c), |w| {
          let mut s = Script { data, fail_at: fail.map(|k| (c, k)), ..script() };
          let got = env.ops[*ty].de_r.unwrap()(&mut s);
          w.transitions += s.calls;
          w.traces += 1;
          if got.is_ok() {
            return Err(format!("got {}", show(&got)));
          }
          Ok(())
        });
      }
    }
  });
}

/// Documents larger than any buffer: deliveries and failures around the powers of two.
fn large(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| env.ops[t.id].de_r.is_some()) {
    for n in ctx.pick(vec![300, 9_000], vec![300, 9_000, 70_000]) {
      let mut l = scaled(&env.s, t.id, 1, n);
      l.truncate(ctx.pick(2, 4));
      if n < 1_000 {
        l.extend(nested(&env.s, t.id, n));
      }
      for v in l {
        tasks.push((t.id, render(&model::ser(&env.s, t.id, &v))));
      }
    }
  }
  ctx.bound("large documents", tasks.len());
  ctx.par(&tasks, |(ty, doc), w| {
    let b = doc.as_bytes();
    let want = env.de(*ty, doc);
    let script = || Script { data: b, at: 0, cuts: vec![], max: usize::MAX, fail_at: None, once: false, failed: false, calls: 0 };
    let what = format!("{} {} bytes {}", env.name(*ty), b.len(), clip(doc));
    let mut go = true;
    let mut at: Vec<usize> = vec![];
    let mut p = 256;
    while p < b.len() {
      at.extend([p - 1, p, p + 1]);
      p *= 2;
    }
    at.extend([b.len() / 3, b.len() * 3 / 4, b.len() - 1]);
    for max in [1, 7, 4096, 8191, 8192, 8193] {
      go = go && w.case(&format!("{} bytes at a time: {}", max, what), |w| {
        let mut s = Script { max, ..script() };
        let got = env.ops[*ty].de_r.unwrap()(&mut s);
        w.transitions += s.calls;
        w.traces += 1;
        w.count("large documents", 1);
        agree(&got, &want).map_err(|m| clip(&m))
      });
    }
    for c in at {
      go = go && w.case(&format!("cut at {}: {}", c, what), |w| {
        let mut s = Script { cuts: vec![c], ..script() };
        let got = env.ops[*ty].de_r.unwrap()(&mut s);
        w.transitions += s.calls;
        w.traces += 1;
        agree(&got, &want).map_err(|m| clip(&m))
      });
      for fail in [Some(ErrorKind::Other), None] {
        for max in [usize::MAX, 1000] {
          go = go && w.case(&format!("{:?} at {}, {} at a time: {}", fail, c, max, what), |w| {
            let mut s = Script { max, fail_at: fail.map(|k| (c, k)), ..script() };
            if fail.is_none() {
              s.data = &b[..c];
            }
            let got = env.ops[*ty].de_r.unwrap()(&mut s);
            w.transitions += s.calls;
            w.traces += 1;
            if got.is_ok() {
              return Err(format!("got {}", clip(&show(&got))));
            }
            Ok(())
          });
        }
      }
    }
  });
}
