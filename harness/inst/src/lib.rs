//! Instantiates the parser and the emitter for the readers and writers of the corpus once, so
//! that the corpus (built without optimisation) shares the optimised code.
use std::io::{Cursor, Read, Write};
use xml::reader::EventReader;
use xml::writer::{EventWriter, XmlEvent};

fn r<R: Read>(x: R) -> Option<xml::reader::XmlEvent> {
  let mut e = EventReader::new_with_config(x, xml::ParserConfig::new());
  let _ = e.skip();
  e.next().ok()
}
fn w<W: Write>(x: W) -> W {
  let mut e = EventWriter::new_with_config(x, xml::EmitterConfig::new());
  let _ = e.write(XmlEvent::start_element("a").attr("b", "c").ns("d", "e"));
  let _ = e.write(XmlEvent::characters("a"));
  let _ = e.write(XmlEvent::cdata("a"));
  let _ = e.write(XmlEvent::end_element());
  e.into_inner()
}
pub fn all(s: &[u8], d: &mut dyn Read, o: &mut dyn Write, b: &mut Vec<u8>) -> Vec<u8> {
  r(s);
  r(d);
  w(o);
  w(b);
  w(Cursor::new(Vec::new())).into_inner()
}
