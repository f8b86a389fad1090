//! Every configuration, every kind of value: the same document up to layout.
use crate::env::*;
use vcore::docs::*;
use vcore::enumerate::*;
use vcore::model;
use vcore::run::*;
use vcore::scale::*;
use vcore::schema::*;
use vcore::xml::*;
use yaserde::ser::Config;

fn blank(n: &Node) -> bool {
  matches!(n, Node::T(t) if t.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')))
}

/// Whether `b` is `a` with whitespace added between elements only.
pub fn layout(a: &Elem, b: &Elem) -> Result<(), String> {
  if a.ns != b.ns || a.name != b.name || a.attrs != b.attrs {
    return Err(format!("<{}> became <{}>", render(a), render(b)));
  }
  fn kids(e: &Elem) -> Vec<&Node> {
    e.kids.iter().filter(|n| !blank(n)).collect()
  }
  // an element without child elements is exactly as it was
  if a.elems().next().is_none() && a.kids != b.kids {
    return Err(format!("content of <{}> changed from {:?} to {:?}", a.name, a.kids, b.kids));
  }
  let (x, y) = (kids(a), kids(b));
  if x.len() != y.len() {
    return Err(format!("content of <{}> changed from {:?} to {:?}", a.name, a.kids, b.kids));
  }
  for (m, n) in x.iter().zip(&y) {
    match (m, n) {
      (Node::E(m), Node::E(n)) => layout(m, n)?,
      // beside elements, text may be surrounded by layout
      (Node::T(m), Node::T(n)) if m.trim() == n.trim() => {}
      (Node::C(m), Node::C(n)) if m == n => {}
      _ => return Err(format!("content of <{}> changed from {:?} to {:?}", a.name, m, n)),
    }
  }
  Ok(())
}

pub fn run(ctx: &Ctx, env: &Env) {
  let indents: [Option<String>; 6] = [None, Some("".into()), Some(" ".into()), Some("\t".into()), Some("    ".into()), Some(" \t ".into())];
  let mut configs = vec![];
  for perform_indent in [false, true] {
    for write_document_declaration in [true, false] {
      for i in &indents {
        configs.push(Config { perform_indent, write_document_declaration, indent_string: i.clone() });
      }
    }
  }
  ctx.bound("configurations", configs.len());
  let budget = ctx.pick(400, 8_000);
  let mut tasks = vec![];
  for ty in env.all_ser() {
    for m in 0..2 {
      tasks.push((ty, m));
    }
  }
  let vals = Vals { scalars: 3, list: ctx.pick(2, 3), depth: 3, alts: 8, all: true };
  ctx.par(&tasks, |&(ty, m), w| {
    let (_, _, l) = values(&env.s, ty, vals, budget);
    let t = env.s.get(ty);
    for v in l.iter().skip(m).step_by(2) {
      if t.flatten && rootless(&env.s, ty, v) {
        continue;
      }
      let name = format!("{} {:?}", t.rust, v);
      let mut base = None;
      for (k, c) in configs.iter().enumerate() {
        let go = w.case(&format!("{} config {} indent {:?} declaration {}", name, c.perform_indent, c.indent_string, c.write_document_declaration), |w| {
          let plain = env.ser(ty, v)?;
          let doc = env.ops[ty].ser_c.unwrap()(v, c)?;
          if base.is_none() {
            let b = parse(&plain).map_err(|m| format!("not well-formed: {}: {}", m, plain))?.root;
            if b.canon(true) != model::ser(&env.s, ty, v).canon(true) {
              return Err(format!("written {}", plain));
            }
            base = Some((b, if t.de { Some(env.de(ty, &plain)) } else { None }));
          }
          let (b, val) = base.as_ref().unwrap();
          let got = parse(&doc).map_err(|m| format!("not well-formed: {}: {}", m, doc))?;
          w.transitions += 2 * b.count() as u64;
          w.traces += 1;
          w.outcome(&doc);
          if k == 7 && ty % 17 == 0 {
            ctx.sample(doc.clone());
          }
          if got.decl != c.write_document_declaration {
            return Err(format!("declaration: {}", doc));
          }
          if !c.perform_indent && b != &got.root {
            return Err(format!("without indentation {} became {}", plain, doc));
          }
          layout(b, &got.root).map_err(|m| format!("{}: {}", doc, m))?;
          // an element that is alone on its line where indentation is asked for
          if c.perform_indent && !texts(&env.s, ty, 3) && b.elems().next().is_some() && b.kids.iter().all(|k| matches!(k, Node::E(_))) {
            let indent = c.indent_string.clone().unwrap_or("  ".into());
            let first = got.root.kids.first();
            if !matches!(first, Some(Node::T(t)) if *t == format!("\n{}", indent)) {
              return Err(format!("no indentation by {:?}: {}", indent, doc));
            }
          }
          if let Some(val) = val {
            agree(&env.de(ty, &doc), val).map_err(|m| format!("{}: {}", doc, m))?;
          }
          Ok(())
        });
        if !go {
          return;
        }
      }
      // content only
      let go = w.case(&format!("{} content", name), |w| {
        let plain = env.ser(ty, v)?;
        let content = env.ops[ty].ser_content.unwrap()(v)?;
        w.traces += 1;
        w.count("contents", 1);
        let body = plain.split_once("?>").map_or(plain.as_str(), |x| x.1);
        if t.flatten {
          return Ok(());
        }
        let body = body.trim_start();
        let from = tag_end(body).ok_or(format!("no start tag: {}", body))?;
        let want = parse(&plain)?.root;
        // the content between the tags of the document
        let (start, end) = if body[..from].ends_with("/>") {
          (format!("{}>", &body[..from - 2]), format!("</{}>", &body[1..].split([' ', '/', '>']).next().unwrap_or("")))
        } else {
          (body[..from].to_string(), body[body.rfind("</").ok_or(format!("no end tag: {}", body))?..].to_string())
        };
        let inner = &body[from..body.len() - end.len().min(body.len() - from)];
        let got = parse(&format!("{}{}{}", start, content, end)).map_err(|m| format!("content {:?}: {}", content, m))?.root;
        w.transitions += 2 * want.count() as u64;
        if got.canon(true) != want.canon(true) || (env.s.get(ty).nss.is_empty() && !inner.contains("xmlns") && inner != content && !content.is_empty()) {
          return Err(format!("content {:?}, document {:?}", content, plain));
        }
        Ok(())
      });
      if !go {
        return;
      }
    }
  });
  scaled_values(ctx, env);
}

/// Values of any size, indented.
fn scaled_values(ctx: &Ctx, env: &Env) {
  let (all, max) = ctx.pick((17, 260), (120, 8192));
  let mut tasks = vec![];
  for n in sizes(all, max) {
    for ty in env.all_ser() {
      if !env.s.get(ty).flatten && !env.s.get(ty).has("pair") {
        tasks.push((ty, n));
      }
    }
  }
  ctx.bound("sizes of texts, lists and nesting", format!("all up to {}, around powers of two up to {}", all, max));
  ctx.par(&tasks, |&(ty, n), w| {
    let t = env.s.get(ty);
    let mut l = scaled(&env.s, ty, 1, n);
    if n <= 1024 {
      l.extend(nested(&env.s, ty, n));
    }
    for (k, v) in l.iter().enumerate() {
      for indent in [None, Some("\t")] {
        let go = w.case(&format!("{} size {} part {} indent {:?}", t.rust, n, k, indent), |w| {
          let plain = env.ser(ty, v)?;
          let c = Config { perform_indent: true, write_document_declaration: indent.is_none(), indent_string: indent.map(|s| s.into()) };
          let doc = env.ops[ty].ser_c.unwrap()(v, &c)?;
          w.transitions += 2 * events(&plain);
          w.traces += 1;
          w.count("sized values", 1);
          let p = |d: &str| parse(d).map_err(|m| format!("not well-formed: {}: {}", m, clip(d)));
          let (a, b) = (p(&plain)?, p(&doc)?);
          if b.decl != c.write_document_declaration {
            return Err(format!("declaration: {}", clip(&doc)));
          }
          layout(&a.root, &b.root).map_err(|m| format!("{}: {}", clip(&doc), clip(&m)))?;
          if t.de {
            agree(&env.de(ty, &doc), &env.de(ty, &plain)).map_err(|m| format!("{}: {}", clip(&doc), clip(&m)))?;
          }
          Ok(())
        });
        if !go {
          return;
        }
      }
    }
  });
}

/// An empty text member is content to xml-rs, and suppresses indentation.
fn texts(s: &Schema, ty: usize, depth: usize) -> bool {
  s.get(ty).fields().iter().any(|f| {
    f.kind == Kind::Text || matches!(f.base, Base::Ty(b) if f.kind == Kind::Flatten && depth > 0 && texts(s, b, depth - 1))
  })
}

/// End of the first tag.
fn tag_end(s: &str) -> Option<usize> {
  let mut quote = None;
  for (i, c) in s.char_indices() {
    match (quote, c) {
      (None, '"' | '\'') => quote = Some(c),
      (Some(q), c) if c == q => quote = None,
      (None, '>') => return Some(i + 1),
      _ => {}
    }
  }
  None
}
