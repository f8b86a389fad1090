//! Every acceptance pattern and every point of failure of the writer.
use crate::env::*;
use std::io::{Error, ErrorKind, Write};
use vcore::docs::*;
use vcore::run::*;
use vcore::scale::*;
use yaserde::ser::Config;

struct Script {
  out: Vec<u8>,
  /// at most this many bytes per call
  max: usize,
  /// the call that fails, and how
  fail: Option<(u64, Fault)>,
  once: bool,
  calls: u64,
  failed: bool,
  /// bytes accepted in the call before each cut
  cut: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
  Err(ErrorKind),
  Zero,
  /// accepts one byte, then fails
  Partial,
  Interrupted,
}

impl Write for Script {
  fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if let Some((k, f)) = self.fail {
      if self.calls == k || (self.calls > k && !self.once) {
        match f {
          Fault::Err(kind) => {
            self.failed = true;
            return Err(Error::new(kind, "injected"));
          }
          Fault::Zero if !buf.is_empty() => {
            self.failed = true;
            return Ok(0);
          }
          Fault::Zero => return Ok(0),
          Fault::Partial => {
            if self.calls == k && buf.len() > 1 {
              self.out.push(buf[0]);
              return Ok(1);
            }
            self.failed = true;
            return Err(Error::new(ErrorKind::Other, "injected"));
          }
          Fault::Interrupted => {
            if self.calls == k {
              return Err(Error::new(ErrorKind::Interrupted, "again"));
            }
          }
        }
      }
    }
    let mut n = buf.len().min(self.max);
    if let Some(c) = self.cut {
      if self.out.len() < c && self.out.len() + n > c {
        n = c - self.out.len();
      }
    }
    self.out.extend_from_slice(&buf[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

pub fn run(ctx: &Ctx, env: &Env) {
  let configs = [(false, true, None), (true, true, None), (true, false, Some("\t")), (false, false, None)];
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| env.ops[t.id].ser_w.is_some()) {
    for v in base_values(&env.s, t.id, ctx.pick(6, 24)) {
      for c in 0..configs.len() + 1 {
        tasks.push((t.id, v.clone(), c));
      }
    }
  }
  ctx.bound("values and configurations", tasks.len());
  ctx.par(&tasks, |(ty, v, c), w| {
    let ty = *ty;
    let content = *c == configs.len();
    let cfg = |k: usize| Config { perform_indent: configs[k].0, write_document_declaration: configs[k].1, indent_string: configs[k].2.map(|s: &str| s.into()) };
    let write = |s: &mut Script| -> Result<(), String> {
      if content {
        env.ops[ty].ser_cw.unwrap()(v, s)
      } else {
        env.ops[ty].ser_w.unwrap()(v, s, &cfg(*c))
      }
    };
    let script = || Script { out: vec![], max: usize::MAX, fail: None, once: false, calls: 0, failed: false, cut: None };
    let want = if content { env.ops[ty].ser_content.unwrap()(v) } else { env.ops[ty].ser_c.unwrap()(v, &cfg(*c)) };
    let name = format!("{} {:?} {}", env.name(ty), v, if content { "content".into() } else { format!("config {}", c) });
    let want = match want {
      Ok(x) => x,
      Err(m) => {
        w.case(&name, |_| Err(format!("cannot be serialized: {}", m)));
        return;
      }
    };
    let mut s = script();
    let whole = write(&mut s);
    let calls = s.calls;
    let mut go = w.case(&name, |w| {
      w.transitions += calls;
      w.traces += 1;
      w.outcome(&want);
      if whole.is_err() || s.out != want.as_bytes() {
        return Err(format!("writer got {:?}, string is {:?}", String::from_utf8_lossy(&s.out), want));
      }
      Ok(())
    });
    if ty % 7 == 0 {
      ctx.sample(format!("{}: {} write calls", name, calls));
    }
    let same = |w: &mut Work, mut s: Script, what: &str| -> Result<(), String> {
      let r = write(&mut s);
      w.transitions += s.calls;
      w.traces += 1;
      if let Err(m) = r {
        return Err(format!("{}: error {}", what, m));
      }
      if s.out != want.as_bytes() {
        return Err(format!("{}: writer got {:?}, string is {:?}", what, String::from_utf8_lossy(&s.out), want));
      }
      Ok(())
    };
    for max in 1..=(want.len().min(40)) {
      go = go && w.case(&format!("{} accepting {} bytes", name, max), |w| {
        w.count("constant sizes", 1);
        same(w, Script { max, ..script() }, "short writes")
      });
    }
    for cut in 1..want.len() {
      go = go && w.case(&format!("{} short write at {}", name, cut), |w| {
        w.count("one short write", 1);
        same(w, Script { cut: Some(cut), ..script() }, "a short write")
      });
    }
    for k in 1..=calls {
      for once in [true, false] {
        for (j, f) in FAULTS.iter().copied().enumerate() {
          if j > 5 && (!once || k % 3 != (j as u64) % 3 && !ctx.thorough) {
            continue;
          }
          go = go && w.case(&format!("{} {:?} at write {} {}", name, f, k, if once { "once" } else { "for good" }), |w| {
            w.count("failures", 1);
            let mut s = Script { fail: Some((k, f)), once, ..script() };
            // Partial: the call after the short one fails
            if f == Fault::Partial {
              s.once = false;
            }
            let r = write(&mut s);
            w.transitions += s.calls;
            w.traces += 1;
            if s.failed && r.is_ok() {
              return Err(format!("the writer failed, the result is a success; it got {:?}", String::from_utf8_lossy(&s.out)));
            }
            if !s.failed && r.is_err() {
              return Err("the writer did not fail, the result is an error".into());
            }
            if !want.as_bytes().starts_with(&s.out) {
              return Err(format!("the writer got {:?}, no prefix of {:?}", String::from_utf8_lossy(&s.out), want));
            }
            Ok(())
          });
        }
      }
      go = go && w.case(&format!("{} interrupted at write {}", name, k), |w| {
        w.count("interruptions", 1);
        same(w, Script { fail: Some((k, Fault::Interrupted)), once: true, ..script() }, "an interrupted write")
      });
    }
  });
  large(ctx, env);
}

const FAULTS: [Fault; 25] = [
  Fault::Err(ErrorKind::Other),
  Fault::Err(ErrorKind::BrokenPipe),
  Fault::Err(ErrorKind::WouldBlock),
  Fault::Err(ErrorKind::UnexpectedEof),
  Fault::Zero,
  Fault::Partial,
  Fault::Err(ErrorKind::TimedOut),
  Fault::Err(ErrorKind::NotFound),
  Fault::Err(ErrorKind::PermissionDenied),
  Fault::Err(ErrorKind::ConnectionRefused),
  Fault::Err(ErrorKind::ConnectionReset),
  Fault::Err(ErrorKind::ConnectionAborted),
  Fault::Err(ErrorKind::NotConnected),
  Fault::Err(ErrorKind::AddrInUse),
  Fault::Err(ErrorKind::AddrNotAvailable),
  Fault::Err(ErrorKind::AlreadyExists),
  Fault::Err(ErrorKind::InvalidInput),
  Fault::Err(ErrorKind::InvalidData),
  Fault::Err(ErrorKind::WriteZero),
  Fault::Err(ErrorKind::Unsupported),
  Fault::Err(ErrorKind::OutOfMemory),
  Fault::Err(ErrorKind::StorageFull),
  Fault::Err(ErrorKind::NetworkDown),
  Fault::Err(ErrorKind::HostUnreachable),
  Fault::Err(ErrorKind::StaleNetworkFileHandle),
];

/// Documents larger than any buffer: failures at every write of a few, around powers of two of many.
fn large(ctx: &Ctx, env: &Env) {
  let mut tasks = vec![];
  for t in env.s.tys.iter().filter(|t| env.ops[t.id].ser_w.is_some()) {
    for n in ctx.pick(vec![300, 9_000], vec![300, 9_000, 70_000]) {
      let mut l = scaled(&env.s, t.id, 1, n);
      l.truncate(ctx.pick(2, 4));
      if n < 1_000 {
        l.extend(nested(&env.s, t.id, n));
      }
      tasks.extend(l.into_iter().map(|v| (t.id, v)));
    }
  }
  ctx.bound("large values", tasks.len());
  ctx.par(&tasks, |(ty, v), w| {
    for indent in [false, true] {
      let cfg = || Config { perform_indent: indent, write_document_declaration: true, indent_string: None };
      let want = match env.ops[*ty].ser_c.unwrap()(v, &cfg()) {
        Ok(x) => x,
        Err(m) => {
          w.case(&format!("{} large", env.name(*ty)), |_| Err(format!("cannot be serialized: {}", m)));
          return;
        }
      };
      let script = || Script { out: vec![], max: usize::MAX, fail: None, once: false, calls: 0, failed: false, cut: None };
      let what = format!("{} {} bytes {}", env.name(*ty), want.len(), clip(&want));
      let mut whole = script();
      let r = env.ops[*ty].ser_w.unwrap()(v, &mut whole, &cfg());
      let mut go = w.case(&what, |_| if r.is_ok() && whole.out == want.as_bytes() { Ok(()) } else { Err("the writer got something else".into()) });
      let mut at: Vec<u64> = (1..40).collect();
      let mut p = 64;
      while p < whole.calls {
        at.extend([p - 1, p, p + 1]);
        p *= 2;
      }
      at.extend(whole.calls.saturating_sub(20)..=whole.calls);
      at.retain(|k| *k >= 1 && *k <= whole.calls);
      for max in [1, 7, 4096, 8191, 8192, 8193] {
        go = go && w.case(&format!("accepting {}: {}", max, what), |w| {
          let mut s = Script { max, ..script() };
          let r = env.ops[*ty].ser_w.unwrap()(v, &mut s, &cfg());
          w.transitions += s.calls;
          w.traces += 1;
          w.count("large documents", 1);
          if r.is_err() || s.out != want.as_bytes() {
            return Err(format!("{:?}, {} bytes", r, s.out.len()));
          }
          Ok(())
        });
      }
      for k in at {
        for (f, once) in [(Fault::Err(ErrorKind::Other), true), (Fault::Err(ErrorKind::Other), false), (Fault::Zero, true), (Fault::Partial, false)] {
          go = go && w.case(&format!("{:?} {} at write {}: {}", f, once, k, what), |w| {
            let mut s = Script { fail: Some((k, f)), once, ..script() };
            let r = env.ops[*ty].ser_w.unwrap()(v, &mut s, &cfg());
            w.transitions += s.calls;
            w.traces += 1;
            if s.failed == r.is_ok() {
              return Err(format!("the writer {}, the result is {:?}", if s.failed { "failed" } else { "did not fail" }, r));
            }
            if !want.as_bytes().starts_with(&s.out) {
              return Err("what was accepted is no prefix".into());
            }
            Ok(())
          });
        }
      }
    }
  });
}
