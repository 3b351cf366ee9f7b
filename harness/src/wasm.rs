//! The monitor compiled for WebAssembly (32-bit), driven by tools/wasm.mjs through text: the
//! host writes the arguments into `input`, calls one of the functions below, and reads `output`.
use crate::{plan, query, Args, Plan, Total};
use std::sync::Mutex;

struct Session {
    plan: Plan,
    total: Total,
    next: usize,
}
static IO: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static RUN: Mutex<Option<Session>> = Mutex::new(None);

/// Room for `len` bytes of arguments, separated by line feeds.
#[no_mangle]
pub extern "C" fn input(len: usize) -> *mut u8 {
    let mut b = IO.lock().unwrap();
    b.clear();
    b.resize(len, 0);
    b.as_mut_ptr()
}
#[no_mangle]
pub extern "C" fn output() -> *const u8 {
    IO.lock().unwrap().as_ptr()
}
fn args() -> Args {
    let t = String::from_utf8(IO.lock().unwrap().clone()).unwrap();
    Args(t.split('\n').map(|s| s.to_string()).collect())
}
fn answer(t: String) -> usize {
    let n = t.len();
    *IO.lock().unwrap() = t.into_bytes();
    n
}
/// Answer a query; returns the length of the text.
#[no_mangle]
pub extern "C" fn ask() -> usize {
    crate::core::install_hook();
    answer(query(&args()).0)
}
/// Plan a run; returns the number of chunks.
#[no_mangle]
pub extern "C" fn start() -> usize {
    crate::core::install_hook();
    let plan = plan(&args());
    let n = plan.chunks.len();
    let total = Total::new(plan.units.len());
    *RUN.lock().unwrap() = Some(Session { plan, total, next: 0 });
    n
}
/// What the next chunk is; returns the length of the text.
#[no_mangle]
pub extern "C" fn doing() -> usize {
    let r = RUN.lock().unwrap();
    let s = r.as_ref().unwrap();
    let (u, lo, hi) = s.plan.chunks[s.next];
    answer(format!("{} {lo} {hi}", s.plan.units[u].name))
}
/// Run the next chunk.
#[no_mangle]
pub extern "C" fn step() {
    let mut r = RUN.lock().unwrap();
    let s = r.as_mut().unwrap();
    let (u, lo, hi) = s.plan.chunks[s.next];
    s.next += 1;
    for i in lo..hi {
        s.total.case(&s.plan, u, i);
    }
}
/// The report so far; returns the length of the text.
#[no_mangle]
pub extern "C" fn report() -> usize {
    let r = RUN.lock().unwrap();
    let s = r.as_ref().unwrap();
    answer(s.total.report(&s.plan, 0.0))
}
/// Size of a word, as the library sees it.
#[no_mangle]
pub extern "C" fn word() -> usize {
    std::mem::size_of::<usize>()
}
