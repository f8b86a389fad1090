//! Element trees, their rendering, and a strict independent XML 1.0 + Namespaces parser.
use std::fmt::Write;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Attr {
  pub ns: Option<String>,
  pub name: String,
  pub value: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Elem {
  pub ns: Option<String>,
  pub name: String,
  pub attrs: Vec<Attr>,
  pub kids: Vec<Node>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Node {
  E(Elem),
  /// character data
  T(String),
  /// a CDATA section
  C(String),
  Com(String),
  Pi(String),
}

impl Elem {
  pub fn new(name: &str) -> Elem {
    Elem {
      ns: None,
      name: name.to_string(),
      attrs: vec![],
      kids: vec![],
    }
  }
  pub fn leaf(name: &str, text: &str) -> Elem {
    let mut e = Elem::new(name);
    if !text.is_empty() {
      e.kids.push(Node::T(text.to_string()));
    }
    e
  }
  pub fn attr(mut self, name: &str, value: &str) -> Elem {
    self.attrs.push(Attr {
      ns: None,
      name: name.to_string(),
      value: value.to_string(),
    });
    self
  }
  pub fn kid(mut self, e: Elem) -> Elem {
    self.kids.push(Node::E(e));
    self
  }
  pub fn elems(&self) -> impl Iterator<Item = &Elem> {
    self.kids.iter().filter_map(|n| match n {
      Node::E(e) => Some(e),
      _ => None,
    })
  }
  pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Elem)) {
    f(self);
    for e in self.elems() {
      e.walk(f);
    }
  }
  pub fn count(&self) -> usize {
    1 + self.elems().map(|e| e.count()).sum::<usize>()
  }
  /// Canonical form for comparison: attributes sorted, adjacent character data joined, comments
  /// and processing instructions dropped. CDATA sections stay distinct when `cdata`.
  pub fn canon(&self, cdata: bool) -> Elem {
    let mut attrs = self.attrs.clone();
    attrs.sort();
    let mut kids: Vec<Node> = vec![];
    for k in &self.kids {
      match k {
        Node::E(e) => kids.push(Node::E(e.canon(cdata))),
        Node::T(t) => push_text(&mut kids, t, false),
        Node::C(t) => push_text(&mut kids, t, cdata),
        _ => {}
      }
    }
    Elem {
      ns: self.ns.clone(),
      name: self.name.clone(),
      attrs,
      kids,
    }
  }
}

fn push_text(kids: &mut Vec<Node>, t: &str, cdata: bool) {
  if t.is_empty() && !cdata {
    return;
  }
  match (kids.last_mut(), cdata) {
    (Some(Node::T(l)), false) => l.push_str(t),
    (Some(Node::C(l)), true) => l.push_str(t),
    (_, false) => kids.push(Node::T(t.to_string())),
    (_, true) => kids.push(Node::C(t.to_string())),
  }
}

pub fn esc_text(out: &mut String, s: &str) {
  for c in s.chars() {
    match c {
      '<' => out.push_str("&lt;"),
      '>' => out.push_str("&gt;"),
      '&' => out.push_str("&amp;"),
      '\r' => out.push_str("&#13;"),
      c => out.push(c),
    }
  }
}

pub fn esc_attr(out: &mut String, s: &str) {
  for c in s.chars() {
    match c {
      '<' => out.push_str("&lt;"),
      '&' => out.push_str("&amp;"),
      '"' => out.push_str("&quot;"),
      '\r' => out.push_str("&#13;"),
      '\n' => out.push_str("&#10;"),
      '\t' => out.push_str("&#9;"),
      c => out.push(c),
    }
  }
}

/// How namespaces are spelled.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
  /// prefixes p0, p1, ... declared on the root element
  Root,
  /// every element declares what it needs as the default namespace
  Default,
  /// every element declares its namespace with the same prefix `p`
  Local,
  /// as Root, with the prefix names permuted (the first namespace is called p1 ...)
  Swapped,
  /// as Root, with each namespace bound to the prefix the corpus usually gives another one
  /// (urn:n is called m, urn:m is called k, urn:k is called n)
  Crossed,
  /// as Default, with single quotes, spaces inside of tags and unused declarations
  Odd,
}
pub const STYLES: [Style; 6] = [Style::Root, Style::Default, Style::Local, Style::Swapped, Style::Crossed, Style::Odd];

pub fn render(e: &Elem) -> String {
  let mut s = String::with_capacity(64);
  render_into(e, Style::Root, &mut s);
  s
}

pub fn render_into(e: &Elem, style: Style, out: &mut String) {
  let mut uris: Vec<String> = vec![];
  if matches!(style, Style::Root | Style::Swapped | Style::Crossed) {
    collect(e, &mut uris);
  }
  rend(e, style, &uris, true, "", out);
}

fn collect(e: &Elem, uris: &mut Vec<String>) {
  let mut add = |n: &Option<String>| {
    if let Some(u) = n {
      if !uris.contains(u) {
        uris.push(u.clone());
      }
    }
  };
  add(&e.ns);
  for a in &e.attrs {
    add(&a.ns);
  }
  for k in e.elems() {
    collect(k, uris);
  }
}

fn pfx(style: Style, uris: &[String], u: &str) -> String {
  let i = uris.iter().position(|x| x == u).unwrap();
  match style {
    Style::Swapped => format!("p{}", (i + 1) % uris.len()),
    Style::Crossed => match u {
      "urn:n" => "m".into(),
      "urn:m" => "k".into(),
      "urn:k" => "n".into(),
      _ => format!("p{}", i),
    },
    _ => format!("p{}", i),
  }
}

fn rend(e: &Elem, style: Style, uris: &[String], root: bool, dflt: &str, out: &mut String) {
  let mut decl = String::new();
  let mut dflt = dflt.to_string();
  let qn = match (&e.ns, style) {
    (None, Style::Default | Style::Odd) => {
      if !dflt.is_empty() {
        decl.push_str(" xmlns=\"\"");
        dflt.clear();
      }
      e.name.clone()
    }
    (None, _) => e.name.clone(),
    (Some(u), Style::Default | Style::Odd) => {
      if dflt != *u {
        let _ = write!(decl, " xmlns=\"{}\"", u);
        dflt = u.clone();
      }
      e.name.clone()
    }
    (Some(u), Style::Local) => {
      let _ = write!(decl, " xmlns:p=\"{}\"", u);
      format!("p:{}", e.name)
    }
    (Some(u), _) => format!("{}:{}", pfx(style, uris, u), e.name),
  };
  if root {
    for u in uris {
      let _ = write!(decl, " xmlns:{}=\"{}\"", pfx(style, uris, u), u);
    }
  }
  out.push('<');
  out.push_str(&qn);
  let mut attrs = String::new();
  for (i, a) in e.attrs.iter().enumerate() {
    attrs.push(' ');
    if let Some(u) = &a.ns {
      match style {
        Style::Root | Style::Swapped | Style::Crossed => {
          let _ = write!(attrs, "{}:", pfx(style, uris, u));
        }
        _ => {
          let _ = write!(decl, " xmlns:a{}=\"{}\"", i, u);
          let _ = write!(attrs, "a{}:", i);
        }
      }
    }
    attrs.push_str(&a.name);
    attrs.push_str("=\"");
    esc_attr(&mut attrs, &a.value);
    attrs.push('"');
  }
  if style == Style::Odd {
    // unused declarations of the usual prefixes
    decl.push_str(" xmlns:n=\"urn:m\" xmlns:m=\"urn:unused\"");
    if !attrs.contains('\'') && !decl.contains('\'') {
      attrs = attrs.replace('"', "'");
    }
    out.push_str(&attrs);
    out.push_str(&decl);
    out.push_str("\n ");
  } else {
    out.push_str(&decl);
    out.push_str(&attrs);
  }
  if e.kids.is_empty() {
    out.push_str("/>");
    return;
  }
  out.push('>');
  for k in &e.kids {
    match k {
      Node::E(c) => rend(c, style, uris, false, &dflt, out),
      Node::T(t) => esc_text(out, t),
      Node::C(t) => {
        let _ = write!(out, "<![CDATA[{}]]>", t.replace("]]>", "]]]]><![CDATA[>"));
      }
      Node::Com(t) => {
        let _ = write!(out, "<!--{}-->", t);
      }
      Node::Pi(t) => {
        let _ = write!(out, "<?{}?>", t);
      }
    }
  }
  let _ = write!(out, "</{}{}>", qn, if style == Style::Odd { " " } else { "" });
}

// ---------------------------------------------------------------------------------------------

pub struct Doc {
  pub decl: bool,
  pub root: Elem,
}

struct P<'a> {
  s: &'a [u8],
  t: &'a str,
  i: usize,
  /// no end-of-line and attribute-value normalization (xml-rs does none)
  raw: bool,
}

type R<T> = Result<T, String>;

/// Parses a complete document; any deviation from well-formedness is an error.
pub fn parse(t: &str) -> R<Doc> {
  let (d, mut p) = parse_to_root_end(t, false)?;
  p.misc(&mut vec![])?;
  if p.i != p.s.len() {
    return Err(format!("content after the root element at {}", p.i));
  }
  chars_ok(t)?;
  Ok(d)
}

/// Parses a document up to the end of its root element, as xml-rs does: line ends and white space
/// in attributes are not normalized.
pub fn parse_root(t: &str) -> R<(Doc, usize)> {
  let (d, p) = parse_to_root_end(t, true)?;
  chars_ok(&t[..p.i])?;
  let i = p.i;
  Ok((d, i))
}

fn chars_ok(t: &str) -> R<()> {
  for c in t.chars() {
    if !is_char(c) {
      return Err(format!("character {:?} is not allowed in XML", c));
    }
  }
  Ok(())
}

fn parse_to_root_end(t: &str, raw: bool) -> R<(Doc, P<'_>)> {
  let mut p = P {
    s: t.as_bytes(),
    t,
    i: 0,
    raw,
  };
  let mut decl = false;
  if p.at("<?xml ") {
    decl = true;
    match t.find("?>") {
      Some(e) => {
        let d = &t[..e];
        if !(d.contains("version=\"1.0\"") || d.contains("version='1.0'")) {
          return Err("bad declaration".into());
        }
        if let Some(x) = d.find("encoding=") {
          if !d[x + 10..].to_lowercase().starts_with("utf-8") {
            return Err("bad encoding".into());
          }
        }
        p.i = e + 2;
      }
      None => return Err("unterminated declaration".into()),
    }
  }
  p.misc(&mut vec![])?;
  if p.at("<!DOCTYPE") {
    p.i += 9;
    if !p.ws() {
      return Err("doctype".into());
    }
    p.qname().map_err(|_| "doctype".to_string())?;
    p.ws();
    // external identifiers and internal subsets are not judged
    p.expect(">").map_err(|_| "doctype".to_string())?;
    p.misc(&mut vec![])?;
  }
  if !p.at("<") {
    return Err(format!("no root element at {}", p.i));
  }
  let root = p.elem(&[("xml".to_string(), "http://www.w3.org/XML/1998/namespace".to_string())])?;
  Ok((Doc { decl, root }, p))
}

/// Parses element content (no enclosing element).
pub fn parse_content(t: &str) -> R<Vec<Node>> {
  let d = parse(&format!("<x>{}</x>", t))?;
  Ok(d.root.kids)
}

pub fn is_char(c: char) -> bool {
  matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

fn name_start(c: char) -> bool {
  matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
    | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
    | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
    | '\u{10000}'..='\u{EFFFF}')
}
fn name_char(c: char) -> bool {
  name_start(c) || c.is_ascii_digit() || matches!(c, '-' | '.' | '\u{b7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

impl<'a> P<'a> {
  fn at(&self, x: &str) -> bool {
    self.s[self.i..].starts_with(x.as_bytes())
  }
  fn ws(&mut self) -> bool {
    let b = self.i;
    while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
      self.i += 1;
    }
    self.i > b
  }
  fn expect(&mut self, x: &str) -> R<()> {
    if self.at(x) {
      self.i += x.len();
      Ok(())
    } else {
      Err(format!("expected {:?} at {}", x, self.i))
    }
  }
  fn upto(&mut self, x: &str) -> R<&'a str> {
    match self.t[self.i..].find(x) {
      Some(n) => {
        let r = &self.t[self.i..self.i + n];
        self.i += n + x.len();
        Ok(r)
      }
      None => Err(format!("missing {:?} after {}", x, self.i)),
    }
  }
  fn ncname(&mut self) -> R<&'a str> {
    let rest = &self.t[self.i..];
    let mut end = 0;
    for (k, c) in rest.char_indices() {
      if (k == 0 && !name_start(c)) || !name_char(c) {
        break;
      }
      end = k + c.len_utf8();
    }
    if end == 0 {
      return Err(format!("name expected at {}", self.i));
    }
    self.i += end;
    Ok(&rest[..end])
  }
  fn qname(&mut self) -> R<(Option<&'a str>, &'a str)> {
    let a = self.ncname()?;
    if self.at(":") {
      self.i += 1;
      Ok((Some(a), self.ncname().map_err(|m| format!("local part: {}", m))?))
    } else {
      Ok((None, a))
    }
  }
  fn comment_or_pi(&mut self) -> R<Option<Node>> {
    if self.at("<!--") {
      self.i += 4;
      let c = self.upto("--")?;
      self.expect(">")?;
      return Ok(Some(Node::Com(c.to_string())));
    }
    if self.at("<?") {
      self.i += 2;
      let c = self.upto("?>")?;
      let end = c.find([' ', '\t', '\n', '\r']).unwrap_or(c.len());
      let t = &c[..end];
      if !t.starts_with(name_start) || !t.chars().all(|c| name_char(c) || c == ':') {
        return Err("processing instruction without a name".into());
      }
      if c.to_lowercase() == "xml" || c.to_lowercase().starts_with("xml ") {
        return Err("misplaced declaration".into());
      }
      return Ok(Some(Node::Pi(c.to_string())));
    }
    Ok(None)
  }
  fn misc(&mut self, out: &mut Vec<Node>) -> R<()> {
    loop {
      self.ws();
      match self.comment_or_pi()? {
        Some(n) => out.push(n),
        None => return Ok(()),
      }
    }
  }
  fn reference(&mut self) -> R<char> {
    let n = self.upto(";")?;
    Ok(match n {
      "lt" => '<',
      "gt" => '>',
      "amp" => '&',
      "apos" => '\'',
      "quot" => '"',
      _ => {
        let v = if let Some(h) = n.strip_prefix("#x") {
          u32::from_str_radix(h, 16).ok()
        } else if let Some(d) = n.strip_prefix('#') {
          d.parse().ok()
        } else {
          None
        };
        match v.and_then(char::from_u32) {
          Some(c) if is_char(c) => c,
          _ => return Err(format!("bad reference &{};", n)),
        }
      }
    })
  }
  fn value(&mut self) -> R<String> {
    let q = if self.at("\"") {
      '"'
    } else if self.at("'") {
      '\''
    } else {
      return Err(format!("attribute value expected at {}", self.i));
    };
    self.i += 1;
    let mut v = String::new();
    loop {
      let c = match self.t[self.i..].chars().next() {
        Some(c) => c,
        None => return Err("unterminated attribute value".into()),
      };
      self.i += c.len_utf8();
      match c {
        c if c == q => return Ok(v),
        '<' => return Err("< in attribute value".into()),
        '&' => v.push(self.reference()?),
        '\r' if !self.raw => {
          // end-of-line and attribute-value normalization
          if self.at("\n") {
            self.i += 1;
          }
          v.push(' ')
        }
        '\n' | '\t' if !self.raw => v.push(' '),
        c => v.push(c),
      }
    }
  }
  fn elem(&mut self, scope: &[(String, String)]) -> R<Elem> {
    self.expect("<")?;
    let qn = self.qname()?;
    let mut scope = scope.to_vec();
    let mut raw: Vec<(Option<&str>, &str, String)> = vec![];
    let empty;
    loop {
      let w = self.ws();
      if self.at("/>") {
        self.i += 2;
        empty = true;
        break;
      }
      if self.at(">") {
        self.i += 1;
        empty = false;
        break;
      }
      if !w {
        return Err(format!("whitespace expected at {}", self.i));
      }
      let (p, l) = self.qname()?;
      self.ws();
      self.expect("=")?;
      self.ws();
      let v = self.value()?;
      if raw.iter().any(|(q, m, _)| *q == p && *m == l) {
        return Err(format!("attribute {} twice", l));
      }
      raw.push((p, l, v));
    }
    for (p, l, v) in &raw {
      match (p, *l) {
        (None, "xmlns") => scope.push((String::new(), v.clone())),
        (Some("xmlns"), l) => {
          if v.is_empty() || l == "xmlns" {
            return Err("bad namespace declaration".into());
          }
          scope.push((l.to_string(), v.clone()))
        }
        _ => {}
      }
    }
    let look = |p: &str| {
      scope
        .iter()
        .rev()
        .find(|(q, _)| q == p)
        .map(|(_, u)| u.clone())
    };
    let resolve = |p: Option<&str>, elem: bool| -> R<Option<String>> {
      match p {
        None if elem => Ok(look("").filter(|u| !u.is_empty())),
        None => Ok(None),
        Some(p) => look(p).map(Some).ok_or(format!("unbound prefix {}", p)),
      }
    };
    let mut e = Elem {
      ns: resolve(qn.0, true)?,
      name: qn.1.to_string(),
      attrs: vec![],
      kids: vec![],
    };
    for (p, l, v) in &raw {
      if *p == Some("xmlns") || (p.is_none() && *l == "xmlns") {
        continue;
      }
      let a = Attr {
        ns: resolve(*p, false)?,
        name: l.to_string(),
        value: v.clone(),
      };
      if e.attrs.iter().any(|b| b.ns == a.ns && b.name == a.name) {
        return Err(format!("attribute {} twice", l));
      }
      e.attrs.push(a);
    }
    if empty {
      return Ok(e);
    }
    let mut text = String::new();
    loop {
      if self.i >= self.s.len() {
        return Err(format!("<{}> not closed", qn.1));
      }
      if self.at("<") {
        if !text.is_empty() {
          e.kids.push(Node::T(std::mem::take(&mut text)));
        }
        if self.at("</") {
          self.i += 2;
          let q = self.qname()?;
          if q != qn {
            return Err(format!("</{}> closes <{}>", q.1, qn.1));
          }
          self.ws();
          self.expect(">")?;
          return Ok(e);
        }
        if self.at("<![CDATA[") {
          self.i += 9;
          let c = self.upto("]]>")?;
          e.kids.push(Node::C(c.replace("\r\n", "\n").replace('\r', "\n")));
        } else if let Some(n) = self.comment_or_pi()? {
          e.kids.push(n);
        } else {
          let c = self.elem(&scope)?;
          e.kids.push(Node::E(c));
        }
        continue;
      }
      if self.at("]]>") {
        return Err("]]> in character data".into());
      }
      let c = self.t[self.i..].chars().next().unwrap();
      self.i += c.len_utf8();
      match c {
        '&' => text.push(self.reference()?),
        '\r' if !self.raw => {
          if self.at("\n") {
            self.i += 1;
          }
          text.push('\n')
        }
        c => text.push(c),
      }
    }
  }
}
