//! Cases that never return, eat the memory or abort the process.
//!
//! The case being run is kept in a global, so that a watchdog thread can report it
//! when nothing moves any more, and written to $TRACE (when set) before it runs, so
//! that the runner knows it when the process dies.
use crate::world::{Aspect, Fail, Op};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Counting;
static USED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        USED.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}

#[derive(Clone, Default)]
pub struct Case {
    pub prop: String,
    pub idty: String,
    pub ops: Vec<Op>,
    /// What follows the operations (a walk, or a whole case of another kind).
    pub tail: String,
}
static CASE: Mutex<Option<Case>> = Mutex::new(None);
/// Moves with every operation.
static TICK: AtomicU64 = AtomicU64::new(0);
pub static EVALS: AtomicU64 = AtomicU64::new(0);
pub static DISTINCT: AtomicU64 = AtomicU64::new(0);

pub fn set(prop: &str, idty: &str, ops: &[Op], tail: &str) {
    let c = Case { prop: prop.into(), idty: idty.into(), ops: ops.to_vec(), tail: tail.into() };
    if let Some(p) = trace() {
        let _ = std::fs::write(p, text(&c));
    }
    *CASE.lock().unwrap() = Some(c);
    TICK.fetch_add(1, SeqCst);
}
/// Cases that take long as they are: one that does not end is then no finding.
static PATIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn patient(on: bool) {
    PATIENT.store(on, SeqCst);
    TICK.fetch_add(1, SeqCst);
}
pub fn push(op: Op) {
    if let Some(c) = CASE.lock().unwrap().as_mut() {
        c.ops.push(op);
        if let Some(p) = trace() {
            let _ = std::fs::write(p, text(c));
        }
    }
    TICK.fetch_add(1, SeqCst);
}
fn trace() -> Option<String> {
    static T: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    T.get_or_init(|| std::env::var("TRACE").ok()).clone()
}
fn text(c: &Case) -> String {
    if c.tail.starts_with("extra") {
        return format!("property {}\n{}", c.prop, c.tail);
    }
    crate::script_text(&c.prop, &c.idty, &c.ops, &c.tail)
}
fn concerned(c: &Case) -> bool {
    if !c.tail.is_empty() {
        return c.prop != "C17";
    }
    match c.ops.last() {
        Some(&op) => crate::concerns(&c.prop, &Fail { aspect: Aspect::Panic, op: Some(op), live: c.prop != "C07", refused: false, msg: String::new() }),
        None => false,
    }
}
/// The current case, as a failing one, if it concerns the property.
pub fn report(why: &str) -> Option<crate::Found> {
    let c = CASE.lock().map(|c| c.clone()).unwrap_or_default().unwrap_or_default();
    if concerned(&c) {
        Some(crate::Found { script: text(&c), msg: why.to_string() })
    } else {
        None
    }
}
/// Reports a case that does not end.
pub fn watch(out: String) {
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(40));
            let t = TICK.load(SeqCst);
            if t != last.0 {
                last = (t, Instant::now());
            }
            let why = if USED.load(SeqCst) > 4 << 30 {
                "it takes memory without bound"
            } else if last.1.elapsed() > Duration::from_secs(if PATIENT.load(SeqCst) { 60 } else { 12 }) {
                "it does not terminate"
            } else {
                continue;
            };
            let c = CASE.lock().map(|c| c.clone()).unwrap_or_default().unwrap_or_default();
            let found = concerned(&c) && !PATIENT.load(SeqCst);
            let f = if found {
                format!("{{\"script\":{},\"msg\":{}}}", crate::json_str(&text(&c)), crate::json_str(why))
            } else {
                "null".to_string()
            };
            let j = format!(
                "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"truncated\":true,\"wall_s\":0.0,\"samples\":[{}],\"found\":{}}}",
                EVALS.load(SeqCst),
                DISTINCT.load(SeqCst),
                crate::json_str(&text(&c)),
                f
            );
            let _ = std::fs::write(&out, j);
            std::process::exit(if found { 1 } else { 0 });
        }
    });
}
