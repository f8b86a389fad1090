use corpus::ops::Ops;
use vcore::model;
use vcore::run::Work;
use vcore::schema::*;
use vcore::val::Val;
use vcore::xml::*;

pub struct Env {
  pub s: Schema,
  pub ops: Vec<Ops>,
}

pub fn show(r: &Result<Val, String>) -> String {
  match r {
    Ok(v) => format!("value {:?}", v),
    Err(m) => format!("error {:?}", m),
  }
}

impl Env {
  pub fn new() -> Env {
    let e = Env {
      s: corpus::schema(),
      ops: corpus::ops(),
    };
    assert_eq!(e.s.tys.len(), e.ops.len());
    e
  }
  pub fn all_de(&self) -> Vec<usize> {
    self.s.tys.iter().filter(|t| t.de && !t.has("probe")).map(|t| t.id).collect()
  }
  pub fn all_ser(&self) -> Vec<usize> {
    self.s.tys.iter().filter(|t| t.ser && !t.has("probe")).map(|t| t.id).collect()
  }
  pub fn group(&self, g: &str) -> Vec<usize> {
    self.s.tys.iter().filter(|t| t.has(g)).map(|t| t.id).collect()
  }
  pub fn name(&self, ty: usize) -> &'static str {
    self.s.get(ty).rust
  }
  pub fn de(&self, ty: usize, doc: &str) -> Result<Val, String> {
    self.ops[ty].de.expect("not deserializable")(doc)
  }
  pub fn ser(&self, ty: usize, v: &Val) -> Result<String, String> {
    self.ops[ty].ser.expect("not serializable")(v)
  }

  /// Runs the document on the implementation and the model; they must agree.
  /// Returns false when the exploration should stop.
  pub fn de_case(&self, w: &mut Work, ty: usize, e: &Elem, style: Style) -> bool {
    let mut doc = String::with_capacity(128);
    render_into(e, style, &mut doc);
    self.de_doc(w, ty, e, &doc)
  }
  pub fn de_doc(&self, w: &mut Work, ty: usize, e: &Elem, doc: &str) -> bool {
    let desc = format!("{} {}", self.name(ty), doc);
    w.case(&desc, |w| {
      let got = self.de(ty, doc);
      // start and end of every element
      w.transitions += 2 * e.count() as u64;
      let want = model::de(&self.s, ty, e);
      w.traces += 1;
      w.outcome(&got.as_ref().ok());
      w.count(if got.is_ok() { "values" } else { "errors" }, 1);
      agree(&got, &want)
    })
  }
}

pub fn agree(got: &Result<Val, String>, want: &Result<Val, String>) -> Result<(), String> {
  match (got, want) {
    (Ok(a), Ok(b)) if a == b => Ok(()),
    (Err(_), Err(_)) => Ok(()),
    _ => Err(format!("got {}, expected {}", show(got), show(want))),
  }
}

/// Events of a document: at least one per markup item.
pub fn events(doc: &str) -> u64 {
  doc.bytes().filter(|b| *b == b'<').count() as u64
}
