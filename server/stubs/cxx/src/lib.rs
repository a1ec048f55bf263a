//! What the C++ side of the bridge does: one program of the real engine per pipeline, at most one message per call.
pub use cxx_macro_stub::bridge;
use std::rc::Rc;
pub struct Engine { pub create: Box<dyn Fn(&str, &str) -> String>, pub delete: Box<dyn Fn(&str) -> String>, pub receive: Box<dyn Fn(&str, u64, &[f64]) -> Vec<(u64, Vec<f64>)>> }
fn engine() -> Rc<Engine> { simcore::with(|w| w.slots.get("engine").and_then(|e| e.downcast_ref::<Rc<Engine>>()).cloned()).expect("no engine") }
pub fn create(id: &str, program: &str) -> String { (engine().create)(id, program) }
pub fn delete(id: &str) -> String { (engine().delete)(id) }
pub fn receive(id: &str, t: u64, v: &[f64]) -> Vec<(u64, Vec<f64>)> { (engine().receive)(id, t, v) }
