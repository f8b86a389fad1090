//! Which texts are numerals of which type, and which value they stand for: written down
//! independently of any parser of numbers (floats: only which texts are numerals).
use vcore::schema::*;
use vcore::val::Val;

fn digits(s: &str) -> bool {
  !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn int(s: &str, lo: i128, hi: i128) -> Option<Val> {
  let (neg, d) = match s.as_bytes().first()? {
    b'-' if lo < 0 => (true, &s[1..]),
    b'+' => (false, &s[1..]),
    _ => (false, s),
  };
  if !digits(d) {
    return None;
  }
  let mut v: i128 = 0;
  for b in d.bytes() {
    v = v * 10 + (b - b'0') as i128;
    if v > 1 << 70 {
      return None;
    }
  }
  if neg {
    v = -v;
  }
  (lo..=hi).contains(&v).then(|| Val::S(v.to_string()))
}

pub fn is_float(s: &str) -> bool {
  let s = s.strip_prefix(['+', '-']).unwrap_or(s);
  let l = s.to_ascii_lowercase();
  if l == "inf" || l == "infinity" || l == "nan" {
    return true;
  }
  let (m, e) = match l.split_once('e') {
    Some((m, e)) => (m, Some(e)),
    None => (l.as_str(), None),
  };
  if let Some(e) = e {
    if !digits(e.strip_prefix(['+', '-']).unwrap_or(e)) {
      return false;
    }
  }
  match m.split_once('.') {
    Some((a, b)) => (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && !(a.is_empty() && b.is_empty()),
    None => digits(m),
  }
}

/// The value of a scalar member a text stands for.
pub fn scalar(sc: Sc, s: &str) -> Option<Val> {
  match sc {
    Sc::Str => Some(Val::s(s)),
    Sc::Bool => match s {
      "true" | "1" => Some(Val::s("true")),
      "false" | "0" => Some(Val::s("false")),
      _ => None,
    },
    Sc::I8 => int(s, -0x80, 0x7f),
    Sc::U8 => int(s, 0, 0xff),
    Sc::I16 => int(s, -0x8000, 0x7fff),
    Sc::U16 => int(s, 0, 0xffff),
    Sc::I32 => int(s, -0x8000_0000, 0x7fff_ffff),
    Sc::U32 => int(s, 0, 0xffff_ffff),
    Sc::I64 => int(s, -(1 << 63), (1 << 63) - 1),
    Sc::U64 => int(s, 0, (1 << 64) - 1),
    Sc::F32 => is_float(s).then(|| Val::S(s.parse::<f32>().expect("float").to_string())),
    Sc::Char => (s.chars().count() == 1).then(|| Val::s(s)),
    Sc::F64 => is_float(s).then(|| Val::S(s.parse::<f64>().expect("float").to_string())),
  }
}

/// The value of a primitive type a text stands for.
pub fn prim(def: &Def, s: &str) -> Option<Val> {
  match def {
    Def::Prim(Sc::Bool) => matches!(s, "true" | "false").then(|| Val::s(s)),
    Def::Prim(sc) => scalar(*sc, s),
    Def::Hex(bits, mask) => {
      let d = s.strip_prefix('+').unwrap_or(s);
      if d.is_empty() {
        return None;
      }
      let mut v: u128 = 0;
      for b in d.bytes() {
        v = v * 16
          + match b {
            b'0'..=b'9' => b - b'0',
            b'a'..=b'f' => b - b'a' + 10,
            b'A'..=b'F' => b - b'A' + 10,
            _ => return None,
          } as u128;
        if v >> bits != 0 {
          return None;
        }
      }
      if v & !(*mask as u128) != 0 {
        return None;
      }
      Some(Val::S(hex(v as u64)))
    }
    _ => unreachable!(),
  }
}

/// Uppercase hexadecimal of at least two digits.
pub fn hex(mut v: u64) -> String {
  let mut l = vec![];
  while v > 0 || l.len() < 2 {
    l.push(b"0123456789ABCDEF"[(v & 15) as usize]);
    v >>= 4;
  }
  l.reverse();
  String::from_utf8(l).unwrap()
}

/// Canonical texts of values of a scalar: all of 8 and 16 bits, the boundaries of the others,
/// every pattern of the upper 16 bits of a float.
pub fn values(sc: Sc, thorough: bool) -> Vec<String> {
  let ints = |lo: i128, hi: i128| {
    let mut l: Vec<i128> = vec![];
    if hi - lo < 1 << 17 {
      l.extend(lo..=hi);
    } else {
      for k in 0..64 {
        for base in [1i128 << k, 10i128.checked_pow(k).unwrap_or(0)] {
          for d in [-1, 0, 1] {
            l.push(base + d);
            l.push(-base + d);
          }
        }
        // two bits set
        for j in 0..k {
          l.push((1 << k) + (1 << j));
          l.push(-(1 << k) - (1 << j));
        }
      }
      l.push(lo);
      l.push(hi);
      l.retain(|x| (lo..=hi).contains(x));
      l.sort_unstable();
      l.dedup();
    }
    l.into_iter().map(|x| x.to_string()).collect()
  };
  match sc {
    Sc::Str => vec!["a".into(), "x y".into(), "<&>".into()],
    Sc::Char => ["a", "<", "&", "\u{10FFFD}"].map(String::from).to_vec(),
    Sc::Bool => vec!["true".into(), "false".into()],
    Sc::I8 => ints(-0x80, 0x7f),
    Sc::U8 => ints(0, 0xff),
    Sc::I16 => ints(-0x8000, 0x7fff),
    Sc::U16 => ints(0, 0xffff),
    Sc::I32 => ints(-0x8000_0000, 0x7fff_ffff),
    Sc::U32 => ints(0, 0xffff_ffff),
    Sc::I64 => ints(-(1 << 63), (1 << 63) - 1),
    Sc::U64 => ints(0, (1 << 64) - 1),
    Sc::F32 => {
      let lo: &[u32] = if thorough { &[0, 1, 0x8000, 0xffff] } else { &[0, 0xffff] };
      (0..=0xffffu32).flat_map(|h| lo.iter().map(move |l| f32::from_bits(h << 16 | l).to_string())).collect()
    }
    Sc::F64 => {
      let lo: &[u64] = if thorough { &[0, 1, 1 << 47, 0xffff_ffff_ffff] } else { &[0xffff_ffff_ffff] };
      let step = if thorough { 1 } else { 4 };
      (0..=0xffffu64).step_by(step).flat_map(|h| lo.iter().map(move |l| f64::from_bits(h << 48 | l).to_string())).collect()
    }
  }
}

/// Numerals exactly half way between neighbouring values of a float type, a little above and a
/// little below: any detour over another type, or a second rounding, shows there.
pub fn near_midpoints(single: bool, thorough: bool) -> Vec<String> {
  let mut out = vec![];
  let mut around = |mid: String| {
    // mid: an exact decimal expansion with a point
    let (sign, m) = match mid.strip_prefix('-') {
      Some(m) => ("-", m),
      None => ("", mid.as_str()),
    };
    out.push(format!("{}{}", sign, m));
    for zeros in [1, 10, 30] {
      out.push(format!("{}{}{}1", sign, m, "0".repeat(zeros)));
    }
    // below: subtract a unit one digit after the last
    let mut d: Vec<u8> = m.bytes().collect();
    let mut i = d.len();
    while i > 0 {
      i -= 1;
      match d[i] {
        b'.' => {}
        b'0' => d[i] = b'9',
        _ => {
          d[i] -= 1;
          break;
        }
      }
    }
    for nines in [1, 10, 30] {
      out.push(format!("{}{}{}", sign, String::from_utf8(d.clone()).unwrap(), "9".repeat(nines)));
    }
  };
  if single {
    let step = if thorough { 1 } else { 8 };
    for e in (100..160u32).step_by(step) {
      for m in [0u32, 1, 2, 0x2aaaaa, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff] {
        for s in [0u32, 1] {
          let a = f32::from_bits(s << 31 | e << 23 | m);
          let b = f32::from_bits((s << 31 | e << 23 | m) + 1);
          around(format!("{:.60}", (a as f64 + b as f64) / 2.0));
        }
      }
    }
  } else {
    // between 2^53 and 2^60 neighbours are 2, 4, .. apart
    for e in (53..60u32).step_by(if thorough { 1 } else { 2 }) {
      let gap = 1i64 << (e - 52);
      for m in [0i64, 1, 2, 3, (1 << 52) - 2, (1 << 52) - 1] {
        let a = (1i64 << e) + m * gap;
        for s in ["", "-"] {
          around(format!("{}{}.0", s, a + gap / 2));
        }
      }
    }
  }
  out
}

/// Every way to spell a text of two pieces in an element: each piece plain, as references or as a
/// CDATA section, with nothing, a comment, an instruction or an empty section around them.
pub fn spelled(a: &str, b: &str) -> Vec<String> {
  let forms = |x: &str| -> Vec<String> {
    let refs: String = x.chars().map(|c| format!("&#x{:x};", c as u32)).collect();
    let mixed: String = x.chars().enumerate().map(|(i, c)| if i == 0 { format!("&#{};", c as u32) } else { c.to_string() }).collect();
    vec![x.to_string(), refs, mixed, format!("<![CDATA[{}]]>", x)]
  };
  let gaps = ["", "<!-- 9 -->", "<?p 9?>", "<![CDATA[]]>", "<!----><?p?>"];
  let mut out = vec![];
  for x in forms(a) {
    for y in forms(b) {
      for g in gaps {
        out.push(format!("{}{}{}", x, g, y));
        for h in &gaps[1..] {
          out.push(format!("{}{}{}{}", h, x, g, y));
          out.push(format!("{}{}{}{}", x, g, y, h));
        }
      }
    }
  }
  out
}
