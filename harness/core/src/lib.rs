//! Everything that does not depend on yaserde: values, schemas, an XML parser and renderer,
//! the reference model, enumerators and the run-time (parallel driver, watchdog, evidence).
pub mod docs;
pub mod enumerate;
pub mod model;
pub mod run;
pub mod scale;
pub mod schema;
pub mod val;
pub mod xml;
