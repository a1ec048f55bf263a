//! The real engine (engine.so of the client simulations: FactoryOp and all operators behind its text bindings).
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

static CALL: AtomicUsize = AtomicUsize::new(0);
static RESULT: AtomicUsize = AtomicUsize::new(0);

pub fn load(path: &str) {
    unsafe {
        let p = CString::new(path).unwrap();
        let h = libc::dlopen(p.as_ptr(), libc::RTLD_LAZY | libc::RTLD_LOCAL);
        if h.is_null() { eprintln!("cannot load {}: {:?}", path, CStr::from_ptr(libc::dlerror())); std::process::exit(2) }
        let s = |n: &str| { let n = CString::new(n).unwrap(); let p: *mut c_void = libc::dlsym(h, n.as_ptr()); if p.is_null() { eprintln!("no {:?}", n); std::process::exit(2) } p as usize };
        CALL.store(s("rb_call"), Ordering::SeqCst);
        RESULT.store(s("rb_result"), Ordering::SeqCst);
    }
}
pub fn call(op: &str, a: &str, b: &str, t: u64, v: f64) -> Result<String, String> {
    let c = |s: &str| CString::new(s.replace('\0', " ")).unwrap();
    let (op, a, b) = (c(op), c(a), c(b));
    unsafe {
        let f: extern "C" fn(*const c_char, *const c_char, *const c_char, u64, f64) -> c_int = std::mem::transmute(CALL.load(Ordering::SeqCst));
        let g: extern "C" fn() -> *const c_char = std::mem::transmute(RESULT.load(Ordering::SeqCst));
        let rc = f(op.as_ptr(), a.as_ptr(), b.as_ptr(), t, v);
        let r = CStr::from_ptr(g()).to_string_lossy().to_string();
        if rc == 0 { Ok(r) } else { Err(r) }
    }
}
pub fn create(id: &str, program: &str) -> String {
    match call("createProgram", id, program, 0, 0.0) { Ok(r) => r, Err(e) => if e.is_empty() { "failed".into() } else { e } }
}
pub fn delete(id: &str) -> String {
    match call("deleteProgram", id, "", 0, 0.0) { Ok(r) if r == "1" => String::new(), Ok(r) => format!("not deleted: {}", r), Err(e) => e }
}
/// What the program emits for one message: the first message of its output.
pub fn receive(id: &str, t: u64, v: f64) -> Option<(u64, f64)> {
    call("addToMessageBuffer", id, "i1", t, v).ok()?;
    let r = call("processMessageBuffer", id, "", 0, 0.0).ok()?;
    let j: serde_json::Value = serde_json::from_str(&r).ok()?;
    let m = j.as_object()?.values().next()?.as_object()?.values().next()?.as_array()?.first()?.clone();
    Some((m.get("time")?.as_u64()?, m.get("value")?.as_f64()?))
}

/// The engine as the module sees it, with a record of which programs exist.
#[derive(Default)]
pub struct Book { pub live: BTreeSet<String>, pub creates: u64, pub refused: u64, pub fed: u64, pub sources: BTreeMap<String, String> }
pub fn install() -> Rc<RefCell<Book>> {
    let book = Rc::new(RefCell::new(Book::default()));
    let (a, b, c) = (book.clone(), book.clone(), book.clone());
    let e = cxx::Engine {
        create: Box::new(move |id, p| {
            let r = create(&format!("m-{}", id), p);
            simcore::mark(&format!("create {} {}", id, r));
            let mut k = a.borrow_mut();
            k.creates += 1;
            if r.is_empty() { k.live.insert(id.to_string()); k.sources.insert(id.to_string(), p.to_string()); } else { k.refused += 1 }
            r
        }),
        delete: Box::new(move |id| { simcore::mark(&format!("delete {}", id)); let r = delete(&format!("m-{}", id)); if r.is_empty() { b.borrow_mut().live.remove(id); } r }),
        receive: Box::new(move |id, t, v| {
            c.borrow_mut().fed += 1;
            simcore::mark(&format!("receive {} {} {:?}", id, t, v));
            receive(&format!("m-{}", id), t, v[0]).into_iter().map(|(t, v)| (t, vec![v])).collect()
        }),
    };
    simcore::with(|w| w.slots.insert("engine".into(), Box::new(Rc::new(e))));
    book
}
