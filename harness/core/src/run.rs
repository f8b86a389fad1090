//! Run-time of the checks: parallel exhaustive driver, panic/hang/abort capture, known findings,
//! counterexample files and evidence.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub const THREADS: usize = 8;
const SLOT: usize = 8192;
const SLOTS: usize = THREADS + 1;
/// A case that runs this long does not terminate.
const HANG_S: u64 = 30;
const RSS_CAP_MB: u64 = 12_000;

pub fn root() -> PathBuf {
  PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

extern "C" {
  fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Memory shared with the parent process: what each worker is doing.
struct Slots {
  base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
  fn path(id: &str) -> PathBuf {
    root().join("out").join(format!("{}.slots", id))
  }
  fn open(id: &str) -> Slots {
    use std::os::fd::AsRawFd;
    let p = Slots::path(id);
    let f = std::fs::OpenOptions::new()
      .read(true)
      .write(true)
      .create(true)
      .truncate(true)
      .open(&p)
      .expect("slots file");
    f.set_len((SLOT * SLOTS) as u64).expect("slots size");
    let base = unsafe { mmap(std::ptr::null_mut(), SLOT * SLOTS, 3, 1, f.as_raw_fd(), 0) };
    assert!(base as isize != -1, "mmap");
    Slots { base }
  }
  /// layout: len u32 (0 = idle), then text
  fn set(&self, slot: usize, text: &str) {
    let n = text.len().min(SLOT - 8);
    unsafe {
      let p = self.base.add(slot * SLOT);
      std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(4), n);
      (p as *mut u32).write_volatile(n as u32 + 1);
    }
  }
  fn clear(&self, slot: usize) {
    unsafe { (self.base.add(slot * SLOT) as *mut u32).write_volatile(0) }
  }
  fn read(bytes: &[u8], slot: usize) -> Option<String> {
    let b = &bytes[slot * SLOT..(slot + 1) * SLOT];
    let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if n == 0 || n > SLOT - 7 {
      return None;
    }
    Some(String::from_utf8_lossy(&b[4..4 + n - 1]).into_owned())
  }
}

pub struct Ctx {
  pub id: String,
  pub thorough: bool,
  seed: u64,
  start: Instant,
  slots: Slots,
  busy: Vec<(AtomicU64, AtomicU64)>, // (case number, ms since start when it began; 0 = idle)
  pub states: AtomicU64,
  pub transitions: AtomicU64,
  pub traces: AtomicU64,
  distinct: Mutex<HashSet<u64>>,
  counters: Mutex<BTreeMap<String, u64>>,
  samples: Mutex<Vec<String>>,
  bounds: Mutex<BTreeMap<String, String>>,
  known: Vec<(String, String)>,
  known_hit: Mutex<BTreeSet<usize>>,
  viol: Mutex<Option<(String, String)>>,
  stop: AtomicBool,
  only: Option<String>,
}

thread_local! {
  static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Counters of one worker.
pub struct Work<'a> {
  pub ctx: &'a Ctx,
  slot: usize,
  n: u64,
  pub states: u64,
  pub transitions: u64,
  pub traces: u64,
  distinct: HashSet<u64>,
  counters: BTreeMap<&'static str, u64>,
}

impl<'a> Work<'a> {
  /// Runs one case. Returns false when the exploration should stop.
  pub fn case(&mut self, desc: &str, f: impl FnOnce(&mut Work) -> Result<(), String>) -> bool {
    let ctx = self.ctx;
    if ctx.stop.load(Relaxed) {
      return false;
    }
    if let Some(o) = &ctx.only {
      if o != desc {
        return true;
      }
    }
    self.states += 1;
    self.n += 1;
    ctx.slots.set(self.slot, desc);
    let b = &ctx.busy[self.slot];
    b.1.store(ctx.start.elapsed().as_millis() as u64 + 1, Relaxed);
    b.0.store(self.n, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
    b.1.store(0, Relaxed);
    ctx.slots.clear(self.slot);
    match r {
      Ok(Ok(())) => true,
      Ok(Err(m)) => ctx.fail(desc, &m),
      Err(_) => {
        let m = PANIC.with(|p| p.borrow().clone());
        ctx.fail(desc, &format!("panic: {}", m))
      }
    }
  }
  /// Records an observed outcome (for the number of distinct ones).
  pub fn outcome<T: Hash>(&mut self, t: &T) {
    if self.distinct.len() < 200_000 {
      let mut h = DefaultHasher::new();
      t.hash(&mut h);
      self.distinct.insert(h.finish());
    }
  }
  pub fn count(&mut self, k: &'static str, n: u64) {
    *self.counters.entry(k).or_default() += n;
  }
  pub fn stopped(&self) -> bool {
    self.ctx.stop.load(Relaxed)
  }
}

impl Drop for Work<'_> {
  fn drop(&mut self) {
    let c = self.ctx;
    c.states.fetch_add(self.states, Relaxed);
    c.transitions.fetch_add(self.transitions, Relaxed);
    c.traces.fetch_add(self.traces, Relaxed);
    c.distinct.lock().unwrap().extend(self.distinct.iter());
    let mut m = c.counters.lock().unwrap();
    for (k, n) in &self.counters {
      *m.entry(k.to_string()).or_default() += n;
    }
  }
}

pub fn clip(s: &str) -> String {
  if s.len() <= 4000 {
    return s.to_string();
  }
  let mut e = 4000;
  while !s.is_char_boundary(e) {
    e -= 1;
  }
  format!("{}...", &s[..e])
}

impl Ctx {
  pub fn new(id: &str) -> Ctx {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let seed = std::env::var("VERIF_SEED")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or(1);
    let mut known = vec![];
    let p = root().join("known-findings.txt");
    if let Ok(t) = std::fs::read_to_string(p) {
      for l in t.lines() {
        // finding: property=C11 case=<case> :: <what fails>
        if let Some(r) = l.strip_prefix(&format!("finding: property={} case=", id)) {
          if let Some((c, w)) = r.split_once(" :: ") {
            known.push((c.to_string(), w.to_string()));
          }
        }
      }
    }
    std::panic::set_hook(Box::new(|i| {
      let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = i.payload().downcast_ref::<String>() {
        s.clone()
      } else {
        "?".into()
      };
      let at = i
        .location()
        .map(|l| format!(" at {}:{}", l.file(), l.line()))
        .unwrap_or_default();
      let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{}{}", m, at));
      if std::thread::current().name() == Some("main") {
        eprintln!("harness: {}{}", m, at);
      }
    }));
    Ctx {
      id: id.to_string(),
      thorough,
      seed,
      start: Instant::now(),
      slots: Slots::open(id),
      busy: (0..SLOTS)
        .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
        .collect(),
      states: AtomicU64::new(0),
      transitions: AtomicU64::new(0),
      traces: AtomicU64::new(0),
      distinct: Mutex::new(HashSet::new()),
      counters: Mutex::new(BTreeMap::new()),
      samples: Mutex::new(vec![]),
      bounds: Mutex::new(BTreeMap::new()),
      known,
      known_hit: Mutex::new(BTreeSet::new()),
      viol: Mutex::new(None),
      stop: AtomicBool::new(false),
      only: std::env::args()
        .skip_while(|a| a != "--case")
        .nth(1)
        .map(|c| c.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t")),
    }
  }
  /// `q` in the quick tier, `t` in the thorough one.
  pub fn pick<T>(&self, q: T, t: T) -> T {
    if self.thorough {
      t
    } else {
      q
    }
  }
  /// Reports a failing case; true if it is a listed finding.
  pub fn fail(&self, desc: &str, msg: &str) -> bool {
    let key = desc.replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t");
    if let Some(i) = self.known.iter().position(|(c, _)| *c == key) {
      self.known_hit.lock().unwrap().insert(i);
      return true;
    }
    let mut v = self.viol.lock().unwrap();
    if v.as_ref().map_or(true, |(d, _)| d.len() > desc.len()) {
      *v = Some((desc.to_string(), msg.to_string()));
    }
    self.stop.store(true, Relaxed);
    false
  }
  pub fn sample(&self, s: String) {
    let mut v = self.samples.lock().unwrap();
    if v.len() < 12 && !v.contains(&s) {
      v.push(clip(&s));
    }
  }
  pub fn bound(&self, k: &str, v: impl ToString) {
    self
      .bounds
      .lock()
      .unwrap()
      .insert(k.to_string(), v.to_string());
  }
  /// Runs `tasks` on all cores; each task is run once.
  pub fn par<T: Sync>(&self, tasks: &[T], f: impl Fn(&T, &mut Work) + Sync) {
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
      let hs: Vec<_> = (0..THREADS)
        .map(|slot| {
          let (next, f) = (&next, &f);
          std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
              let mut w = Work {
                ctx: self,
                slot,
                n: 0,
                states: 0,
                transitions: 0,
                traces: 0,
                distinct: HashSet::new(),
                counters: BTreeMap::new(),
              };
              loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= tasks.len() || self.stop.load(Relaxed) {
                  break;
                }
                f(&tasks[i], &mut w);
              }
            })
            .expect("thread")
        })
        .collect();
      let done = &done;
      s.spawn(move || {
        let mut seen: Vec<(u64, u64)> = vec![(0, 0); SLOTS];
        while !done.load(Relaxed) {
          std::thread::sleep(std::time::Duration::from_millis(50));
          let now = self.start.elapsed().as_millis() as u64;
          let rss = rss_mb();
          let mut oldest: Option<(u64, usize)> = None;
          for i in 0..SLOTS {
            let n = self.busy[i].0.load(Relaxed);
            let t = self.busy[i].1.load(Relaxed);
            if t == 0 {
              continue;
            }
            if seen[i].0 != n {
              seen[i] = (n, now);
            }
            let age = now - seen[i].1;
            if oldest.map_or(true, |(a, _)| age > a) {
              oldest = Some((age, i));
            }
          }
          if let Some((age, i)) = oldest {
            let why = if age > HANG_S * 1000 {
              format!("does not terminate (stopped after {} s)", HANG_S)
            } else if rss > RSS_CAP_MB {
              format!("memory grows without bound ({} MB)", rss)
            } else {
              continue;
            };
            let bytes =
              unsafe { std::slice::from_raw_parts(self.slots.base as *const u8, SLOT * SLOTS) };
            let d = Slots::read(bytes, i).unwrap_or_default();
            self.fail(&d, &why);
            self.finish();
          }
        }
      });
      let mut bad = None;
      for h in hs {
        if h.join().is_err() {
          bad = Some(());
        }
      }
      done.store(true, Relaxed);
      if bad.is_some() {
        eprintln!("harness error: a worker panicked outside a case");
        std::process::exit(3);
      }
    });
  }
  /// Runs one case on the calling thread's behalf.
  pub fn one(&self, desc: &str, f: impl Fn(&mut Work) -> Result<(), String> + Sync) {
    self.par(&[()], |_, w| {
      w.case(desc, |w| f(w));
    });
  }
  fn evidence(&self, violated: bool) {
    let wall = self.start.elapsed().as_secs_f64();
    let mut o = String::new();
    let st = self.states.load(Relaxed);
    let tr = self.transitions.load(Relaxed);
    let tc = self.traces.load(Relaxed);
    o.push_str(&format!(
      "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"wall_s\": {:.3},\n \"violated\": {},\n \"coverage\": {{\n",
      js(&self.id),
      if self.thorough { "thorough" } else { "quick" },
      self.seed,
      wall,
      violated
    ));
    o.push_str(&format!(
      "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n",
      // nodes of the trees of executions: the initial state of each case, one after each event
      st + tr,
      tr,
      tc,
      self.distinct.lock().unwrap().len()
    ));
    o.push_str("  \"counters\": {");
    let c = self.counters.lock().unwrap();
    let l: Vec<String> = c.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    o.push_str(&l.join(", "));
    o.push_str("},\n  \"bounds\": {");
    let b = self.bounds.lock().unwrap();
    let l: Vec<String> = b.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect();
    o.push_str(&l.join(", "));
    o.push_str("},\n  \"known_findings_hit\": ");
    o.push_str(&self.known_hit.lock().unwrap().len().to_string());
    o.push_str(",\n  \"samples\": [");
    let s = self.samples.lock().unwrap();
    let l: Vec<String> = s.iter().map(|x| js(x)).collect();
    o.push_str(&l.join(", "));
    o.push_str("]\n }\n}\n");
    let p = root().join("evidence");
    let _ = std::fs::create_dir_all(&p);
    std::fs::write(p.join(format!("{}.json", self.id)), o).expect("evidence");
  }
  /// Writes the evidence, prints the verdict and ends the process.
  pub fn finish(&self) -> ! {
    let v = self.viol.lock().unwrap().clone();
    self.evidence(v.is_some());
    for i in self.known_hit.lock().unwrap().iter() {
      println!("KNOWN-FINDING: property={} {}", self.id, self.known[*i].1);
    }
    if let Some((d, m)) = v {
      let p = violation(&self.id, &d, &m);
      println!("VIOLATION property={} replay={}", self.id, p);
      let _ = std::io::stdout().flush();
      std::process::exit(1);
    }
    println!(
      "{} held: {} states, {} transitions, {} traces compared, {} distinct outcomes, {:.1} s",
      self.id,
      self.states.load(Relaxed),
      self.transitions.load(Relaxed),
      self.traces.load(Relaxed),
      self.distinct.lock().unwrap().len(),
      self.start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    std::process::exit(0);
  }
}

/// Writes the counterexample.
pub fn violation(id: &str, desc: &str, msg: &str) -> String {
  let dir = root().join("out");
  let _ = std::fs::create_dir_all(&dir);
  let p = dir.join(format!("{}.replay.txt", id));
  let t = format!(
    "property: {}\ncase: {}\nfailure: {}\n\nreplay: /verif/check.sh {} --case '<case>' explores that case only; the cases that name a\ntype and a document can also be run with: /verif/harness/target/debug/vp de <type> '<document>'\n",
    id, desc, msg, id
  );
  let _ = std::fs::write(&p, &t);
  println!("{}: {}\n  {}", id, clip(desc), clip(msg));
  p.display().to_string()
}

fn rss_mb() -> u64 {
  std::fs::read_to_string("/proc/self/statm")
    .ok()
    .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
    .map_or(0, |p| p * 4 / 1024)
}

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

/// Parent: runs the check in a child process, so that an abort of the code under test is a
/// verdict with a counterexample and not a dead check.
pub fn supervise(id: &str) -> ! {
  use std::os::unix::process::ExitStatusExt;
  let _ = std::fs::create_dir_all(root().join("out"));
  let exe = std::env::current_exe().expect("exe");
  let st = std::process::Command::new(exe)
    .arg("run")
    .arg(id)
    .args(std::env::args().skip(3))
    .status()
    .expect("child");
  if let Some(c) = st.code() {
    std::process::exit(c);
  }
  let sig = st.signal().unwrap_or(0);
  let bytes = std::fs::read(Slots::path(id)).unwrap_or_default();
  let mut cases = vec![];
  if bytes.len() >= SLOT * SLOTS {
    for i in 0..SLOTS {
      cases.extend(Slots::read(&bytes, i));
    }
  }
  // SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE: the code under test died; anything else is not its doing
  if ![6, 11, 7, 4, 8].contains(&sig) || cases.is_empty() {
    eprintln!("harness error: the check died of signal {}", sig);
    std::process::exit(3);
  }
  let p = violation(
    id,
    &cases.join("\n  or: "),
    &format!("the process died of signal {} (stack overflow or abort)", sig),
  );
  // evidence of a run that was cut short
  let ev = format!(
    "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": 1, \"level\": \"model_checking\", \"wall_s\": 0, \"violated\": true, \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [{}]}}}}",
    id,
    std::env::var("VERIF_TIER").unwrap_or("quick".into()),
    js(&clip(&cases[0]))
  );
  let _ = std::fs::create_dir_all(root().join("evidence"));
  let _ = std::fs::write(root().join("evidence").join(format!("{}.json", id)), ev);
  println!("VIOLATION property={} replay={}", id, p);
  std::process::exit(1);
}
