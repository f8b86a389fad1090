//! Exhaustive enumerators.
use crate::schema::*;
use crate::val::Val;
use crate::xml::*;

/// Scalar alphabets, base value first.
pub fn scalars(sc: Sc) -> &'static [&'static str] {
  match sc {
    Sc::Str => &["a", "", "<b&\"'>", "x y", "\u{e9}\u{1F600}", "true"],
    Sc::Bool => &["true", "false"],
    Sc::I8 => &["5", "-128", "127"],
    Sc::U8 => &["5", "0", "255"],
    Sc::I16 => &["5", "-32768", "32767"],
    Sc::U16 => &["5", "0", "65535"],
    Sc::I32 => &["5", "-2147483648", "2147483647"],
    Sc::U32 => &["5", "0", "4294967295"],
    Sc::I64 => &["5", "-9223372036854775808", "9223372036854775807"],
    Sc::U64 => &["5", "0", "18446744073709551615"],
    Sc::F32 => &["5", "-0.5", "340282350000000000000000000000000000000"],
    Sc::F64 => &["5", "-0.5", "0.1"],
    Sc::Char => &["a", "<", "&", "\u{1F600}", " ", "\"", ">"],
  }
}

#[derive(Clone, Copy)]
pub struct Vals {
  /// alternatives per scalar
  pub scalars: usize,
  /// items per list
  pub list: usize,
  /// nesting of types
  pub depth: usize,
  /// values per member
  pub alts: usize,
  /// include optional text "" , None/[] in variants (no round trip)
  pub all: bool,
}

/// All combinations of the alternatives with at most k positions off the first, for the
/// largest k with at most `budget` combinations (k = number of positions: the full product).
/// Returns (k, full, combinations).
pub fn combos(alts: &[Vec<Val>], budget: usize) -> (usize, bool, Vec<Vec<Val>>) {
  let n = alts.len();
  if alts.iter().any(|a| a.is_empty()) {
    return (0, true, vec![]);
  }
  let mut best = 0;
  for k in 1..=n {
    // number of combinations with at most k deviations
    let mut c = vec![0u128; k + 1];
    c[0] = 1;
    for a in alts {
      for j in (1..=k).rev() {
        c[j] += c[j - 1] * (a.len() as u128 - 1);
      }
    }
    if c.iter().sum::<u128>() <= budget as u128 {
      best = k;
    } else {
      break;
    }
  }
  let mut out = vec![];
  fn rec(alts: &[Vec<Val>], i: usize, left: usize, cur: &mut Vec<Val>, out: &mut Vec<Vec<Val>>) {
    if i == alts.len() {
      out.push(cur.clone());
      return;
    }
    for (j, a) in alts[i].iter().enumerate() {
      if j > 0 && left == 0 {
        break;
      }
      cur.push(a.clone());
      rec(alts, i + 1, if j > 0 { left - 1 } else { left }, cur, out);
      cur.pop();
    }
  }
  rec(alts, 0, best, &mut vec![], &mut out);
  (best, best == n, out)
}

fn base_alts(s: &Schema, b: Base, v: Vals) -> Vec<Val> {
  match b {
    Base::Sc(sc) => scalars(sc)
      .iter()
      .take(v.scalars)
      .map(|x| Val::s(x))
      .collect(),
    Base::Ty(ty) => {
      if v.depth == 0 {
        return vec![];
      }
      let mut l = values(
        s,
        ty,
        Vals {
          depth: v.depth - 1,
          scalars: v.scalars.min(2),
          list: v.list.min(2),
          alts: v.alts.min(6),
          ..v
        },
        v.alts,
      )
      .2;
      l.truncate(v.alts);
      l
    }
  }
}

pub fn mult_alts(m: Mult, items: Vec<Val>, v: Vals) -> Vec<Val> {
  match m {
    Mult::One => items,
    Mult::Opt => {
      let mut o: Vec<Val> = items.into_iter().map(Val::some).collect();
      o.insert(o.len().min(1), Val::None);
      o
    }
    Mult::Vec => {
      let few = &items[..items.len().min(3)];
      let mut out = vec![];
      if few.is_empty() {
        return vec![Val::List(vec![])];
      }
      // [a, b] first: the base value has two items
      for n in [2usize, 0, 1, 3, 4] {
        if n > v.list {
          continue;
        }
        let total = (few.len() as u32).pow(n as u32);
        for mut i in 0..total {
          let mut l = vec![];
          for _ in 0..n {
            l.push(few[i as usize % few.len()].clone());
            i /= few.len() as u32;
          }
          l.reverse();
          out.push(Val::List(l));
        }
      }
      if few.len() > 1 && v.list >= 2 {
        out.retain(|x| *x != Val::List(vec![few[0].clone(), few[1].clone()]));
        out.insert(0, Val::List(vec![few[0].clone(), few[1].clone()]));
      }
      out
    }
  }
}

/// All values of a type within the bounds: (deviations completed, whole product?, values)
pub fn values(s: &Schema, ty: usize, v: Vals, budget: usize) -> (usize, bool, Vec<Val>) {
  let t = s.get(ty);
  match &t.def {
    Def::Prim(sc) => (
      1,
      true,
      scalars(*sc)
        .iter()
        .take(v.scalars)
        .map(|x| Val::s(x))
        .collect(),
    ),
    Def::Hex(bits, mask) => {
      let max = if *bits == 64 {
        u64::MAX
      } else {
        (1u64 << bits) - 1
      };
      let mut l: Vec<Val> = vec![];
      for x in [0x1f, 0, 9, 0x10, 0xab, 0xff, 0x0c0d, max, max - 1, max / 2 + 1] {
        let y = x & max & mask;
        let y = Val::S(format!("{:02X}", y));
        if !l.contains(&y) {
          l.push(y);
        }
      }
      l.truncate(v.scalars.max(2) * 2);
      (1, true, l)
    }
    Def::Struct(fields) => {
      let alts: Vec<Vec<Val>> = fields
        .iter()
        .map(|f| {
          let mut a = mult_alts(f.mult, base_alts(s, f.base, v), v);
          if !v.all && f.kind == Kind::Text && f.mult == Mult::Opt {
            a.retain(|x| *x != Val::some(Val::s("")));
          }
          if !v.all && f.kind == Kind::Attr && f.mult == Mult::Vec {
            if s.list_attrs {
              // read only: items are separated by whitespace
              a.retain(|x| matches!(x, Val::List(l) if l.iter().all(|i| !matches!(i, Val::S(t) if t.is_empty() || t.contains(' ')))));
            } else {
              a = vec![Val::List(vec![])];
            }
          }
          if !v.all && f.kind == Kind::Attr && matches!(f.base, Base::Ty(_)) {
            // known finding: markup characters in attributes of derived types
            a.retain(|x| !format!("{:?}", x).contains(['<', '&', '>']));
          }
          if let Some(d) = &f.default {
            if !a.contains(d) {
              a.push(d.clone());
            }
            if !v.all && f.kind == Kind::Text {
              a.retain(|x| *x != Val::s(""));
            }
          }
          if v.all {
            // a value on which the predicate holds, and one on which it does not
            if f.skip_if == Some("zero") && !a.contains(&Val::s("0")) {
              a.push(Val::s("0"));
            }
            if f.skip_if == Some("zero_o") {
              a.push(Val::some(Val::s("0")));
            }
          }
          a
        })
        .collect();
      let (k, full, l) = combos(&alts, budget);
      (k, full, l.into_iter().map(Val::Struct).collect())
    }
    Def::Enum(vars, _) => {
      let mut out = vec![];
      for (i, var) in vars.iter().enumerate() {
        match var.payload {
          None => out.push(Val::Var(i, None)),
          Some((m, b)) => {
            let a = mult_alts(m, base_alts(s, b, v), v);
            for x in a {
              if !v.all && (x == Val::None || x == Val::List(vec![])) {
                continue;
              }
              out.push(Val::var(i, x));
            }
          }
        }
      }
      // one value of each variant first
      let mut first = vec![];
      let mut seen = vec![false; vars.len()];
      let mut rest = vec![];
      for x in out {
        match &x {
          Val::Var(i, _) if !seen[*i] => {
            seen[*i] = true;
            first.push(x)
          }
          _ => rest.push(x),
        }
      }
      first.extend(rest);
      let full = first.len() <= budget;
      first.truncate(budget.max(1));
      (1, full, first)
    }
  }
}

// ---------------------------------------------------------------------------------------------

/// Alphabet for document enumeration.
pub struct Alphabet {
  pub roots: Vec<(Option<String>, String)>,
  pub root_attrs: Vec<Vec<Attr>>,
  pub names: Vec<(Option<String>, String)>,
  /// content of a node without children
  pub leaf: Vec<Vec<Node>>,
  /// attributes of a node
  pub attrs: Vec<Vec<Attr>>,
}

impl Alphabet {
  /// Number of documents with exactly n nodes below the root.
  pub fn count(&self, n: usize) -> u128 {
    // shapes by number of leaves: Narayana numbers
    let mut total = 0u128;
    let inner = (self.names.len() * self.attrs.len()) as u128;
    let leaf = inner * self.leaf.len() as u128;
    if n == 0 {
      total = self.leaf.len() as u128;
    }
    for l in 1..=n {
      total += narayana(n, l) * leaf.pow(l as u32) * inner.pow((n - l) as u32);
    }
    total * (self.roots.len() * self.root_attrs.len()) as u128
  }
  /// Largest n whose cumulative count fits the budget, and that count.
  pub fn bound(&self, budget: u128) -> (usize, u128) {
    let mut total = self.count(0);
    let mut n = 0;
    while n < 8 {
      let c = self.count(n + 1);
      if total + c > budget {
        break;
      }
      total += c;
      n += 1;
    }
    (n, total)
  }
}

fn binom(n: usize, k: usize) -> u128 {
  let mut r = 1u128;
  for i in 0..k {
    r = r * (n - i) as u128 / (i + 1) as u128;
  }
  r
}
/// Ordered forests with n nodes and l leaves.
fn narayana(n: usize, l: usize) -> u128 {
  if n == 0 {
    return 1;
  }
  binom(n, l) * binom(n, l - 1) / n as u128
}

/// Every document with at most `n` nodes below the root whose index is `me` modulo `of`.
pub fn docs(a: &Alphabet, n: usize, me: usize, of: usize, f: &mut dyn FnMut(&Elem) -> bool) {
  let mut idx = 0usize;
  for root in &a.roots {
    for ra in &a.root_attrs {
      // texts directly in an otherwise empty root
      for l in &a.leaf {
        idx += 1;
        if (idx - 1) % of != me {
          continue;
        }
        let mut e = Elem::new(&root.1);
        e.ns = root.0.clone();
        e.attrs = ra.clone();
        e.kids = l.clone();
        if !f(&e) {
          return;
        }
      }
      for m in 1..=n {
        let mut seq: Vec<usize> = vec![];
        if !shapes(a, m, &mut seq, &mut idx, me, of, root, ra, f) {
          return;
        }
      }
    }
  }
}

#[allow(clippy::too_many_arguments)]
fn shapes(
  a: &Alphabet,
  m: usize,
  depths: &mut Vec<usize>,
  idx: &mut usize,
  me: usize,
  of: usize,
  root: &(Option<String>, String),
  ra: &[Attr],
  f: &mut dyn FnMut(&Elem) -> bool,
) -> bool {
  if depths.len() == m {
    // labels: odometer
    let inner = a.names.len() * a.attrs.len();
    let radix: Vec<usize> = (0..m)
      .map(|i| {
        let leaf = i + 1 == m || depths[i + 1] <= depths[i];
        if leaf {
          inner * a.leaf.len()
        } else {
          inner
        }
      })
      .collect();
    let mut d = vec![0usize; m];
    loop {
      *idx += 1;
      if (*idx - 1) % of == me {
        let mut e = Elem::new(&root.1);
        e.ns = root.0.clone();
        e.attrs = ra.to_vec();
        build(a, depths, &d, &mut e);
        if !f(&e) {
          return false;
        }
      }
      let mut i = 0;
      loop {
        if i == m {
          return true;
        }
        d[i] += 1;
        if d[i] < radix[i] {
          break;
        }
        d[i] = 0;
        i += 1;
      }
    }
  }
  let max = depths.last().map_or(0, |d| d + 1);
  for x in 0..=max {
    depths.push(x);
    if !shapes(a, m, depths, idx, me, of, root, ra, f) {
      return false;
    }
    depths.pop();
  }
  true
}

fn build(a: &Alphabet, depths: &[usize], lab: &[usize], root: &mut Elem) {
  let inner = a.names.len() * a.attrs.len();
  let mk = |l: usize, leaf: bool| {
    let (nm, at) = (l % inner % a.names.len(), l % inner / a.names.len());
    let n = &a.names[nm];
    let mut e = Elem::new(&n.1);
    e.ns = n.0.clone();
    e.attrs = a.attrs[at].clone();
    if leaf {
      e.kids = a.leaf[l / inner].clone();
    }
    e
  };
  let mut stack: Vec<Elem> = vec![];
  for i in 0..depths.len() {
    while stack.len() > depths[i] {
      let e = stack.pop().unwrap();
      match stack.last_mut() {
        Some(p) => p.kids.push(Node::E(e)),
        None => root.kids.push(Node::E(e)),
      }
    }
    let leaf = i + 1 == depths.len() || depths[i + 1] <= depths[i];
    stack.push(mk(lab[i], leaf));
  }
  while let Some(e) = stack.pop() {
    match stack.last_mut() {
      Some(p) => p.kids.push(Node::E(e)),
      None => root.kids.push(Node::E(e)),
    }
  }
}

/// All permutations of 0..n.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
  if n == 0 {
    return vec![vec![]];
  }
  let mut out = vec![];
  for p in perms(n - 1) {
    for i in 0..=p.len() {
      let mut q = p.clone();
      q.insert(i, n - 1);
      out.push(q);
    }
  }
  out
}

/// All strings of exactly n symbols.
pub fn strings(alpha: &[&str], n: usize, f: &mut dyn FnMut(&str)) {
  let mut d = vec![0usize; n];
  loop {
    let s: String = d.iter().map(|i| alpha[*i]).collect();
    f(&s);
    let mut i = n;
    loop {
      if i == 0 {
        return;
      }
      i -= 1;
      d[i] += 1;
      if d[i] < alpha.len() {
        break;
      }
      d[i] = 0;
    }
  }
}
