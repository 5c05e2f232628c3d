//! Observation of calls into the code under test: results, errors, panics, and memory.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            let c = CUR.fetch_add(n - l.size(), Relaxed) + n - l.size();
            PEAK.fetch_max(c, Relaxed);
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// Peak memory allocated while running f, in bytes, beyond what was allocated before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - c)
}

/// {"k":"ok","v":value} | {"k":"err","e":message} | {"k":"panic","e":message}
pub fn run<E: std::fmt::Display>(f: impl FnOnce() -> Result<Value, E>) -> Value {
    match attempt(f) {
        Ok(v) => json!({"k":"ok","v":v}),
        Err(e) => e,
    }
}

/// As run, with the value itself on success.
pub fn attempt<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, Value> {
    let outer = SINCE.load(Relaxed) == 0;
    if outer {
        SINCE.store(START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1, Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if outer {
        SINCE.store(0, Relaxed);
    }
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(json!({"k":"err","e":clip(&e.to_string())})),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(json!({"k":"panic","e":clip(&format!("panic: {m}"))}))
        }
    }
}
pub fn ok(v: Value) -> Value {
    json!({"k":"ok","v":v})
}
fn clip(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii() && !c.is_control()).take(200).collect()
}

/// When the running call started (ms, 0: none), and where the last panic was.
static START: OnceLock<Instant> = OnceLock::new();
static SINCE: AtomicU64 = AtomicU64::new(0);
static PLACE: Mutex<String> = Mutex::new(String::new());
pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{i}")
        }
        if let (Ok(mut p), Some(l)) = (PLACE.lock(), i.location()) {
            *p = l.to_string();
        }
    }));
}
fn leave_note(cur: &str, what: &str) {
    if !std::path::Path::new(cur).exists() {
        std::fs::write(cur, json!({"op": "crash", "kind": what}).to_string()).unwrap();
    }
}
/// Notes in the file cur when a call does not return within the given time, and ends the process.
pub fn watch(cur: &str, secs: u64) {
    let start = *START.get_or_init(Instant::now);
    let cur = cur.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let s = SINCE.load(Relaxed);
        if s > 0 && start.elapsed().as_millis() as u64 > s + secs * 1000 {
            leave_note(&cur, "a call does not return");
            println!("a call does not return");
            std::process::exit(3);
        }
    });
}
/// Runs everything; a panic of the code under test that no observation expects is noted in the file cur.
pub fn guarded(cur: &str, f: impl FnOnce()) {
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        let p = PLACE.lock().unwrap().clone();
        if ["/ssbh_lib/src/", "/ssbh_data/src/", "/ssbh_write/src/"].iter().any(|x| p.contains(x)) {
            leave_note(cur, &format!("panic at {p}"));
        }
        println!("panic at {p}");
        std::process::exit(101);
    }
}

/// Writes trace events, one JSON object per line.
pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(p: &str) -> Self {
        Out { w: std::io::BufWriter::new(std::fs::File::create(p).expect("trace file")), n: 0 }
    }
    pub fn emit(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn done(mut self) {
        self.w.flush().unwrap();
    }
}
