//! Model checks of yaserde: `vp check <ID>` explores the bounded space of one property.
mod checks;
mod env;
mod grammar;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  match a.get(1).map(|s| s.as_str()) {
    Some("check") => vcore::run::supervise(&a[2]),
    Some("run") => checks::run(&a[2]),
    Some("de") => {
      let e = env::Env::new();
      let t = e.s.by_name(&a[2]);
      println!("impl:  {:?}", e.ops[t.id].de.expect("not deserializable")(&a[3]));
      match vcore::xml::parse(&a[3]) {
        Ok(d) => println!("model: {:?}", vcore::model::de(&e.s, t.id, &d.root)),
        Err(m) => println!("model: not well-formed: {}", m),
      }
    }
    Some("big") => {
      let e = env::Env::new();
      let t = e.s.by_name(&a[2]);
      let doc = checks::c07::big(&a[2], &a[3], a[4].parse().expect("size"));
      println!("{}", if e.de(t.id, &doc).is_ok() { "value" } else { "error" });
    }
    Some("ser") => {
      let e = env::Env::new();
      let t = e.s.by_name(&a[2]);
      for (i, v) in vcore::docs::base_values(&e.s, t.id, 12).iter().enumerate() {
        println!("{} {:?}", i, v);
        if let Some(f) = e.ops[t.id].ser {
          println!("  impl:  {:?}", f(v));
        }
        println!("  model: {}", vcore::xml::render(&vcore::model::ser(&e.s, t.id, v)));
      }
    }
    _ => {
      eprintln!("usage: vp check|run <ID> [--case <case>] | vp de <Type> <doc> | vp ser <Type>");
      std::process::exit(2);
    }
  }
}
