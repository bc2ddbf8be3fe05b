//! What a case sees: where it records what it observed, and how it calls the code under test.

use crate::rng::hash_str;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", msg, loc);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// call the code under test; a panic in it is a violation of every property (there is no result)
pub fn target<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("PANIC in the library: {}", last_panic()))
}

/// moves a value to another thread, whatever it is made of: only one thread at a time uses it
pub struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
    pub fn new(x: T) -> Self {
        Sent(x)
    }
    pub fn get(self) -> T {
        self.0
    }
}

/// Probe::new(&x).is_sync(): may x be used by several threads at once?
pub struct Probe<'a, T>(&'a T);
impl<'a, T> Probe<'a, T> {
    pub fn new(x: &'a T) -> Self {
        Probe(x)
    }
}
impl<T: Sync> Probe<'_, T> {
    pub fn is_sync(&self) -> bool {
        true
    }
}
pub trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<'_, T> {}

/// call it on a fresh thread with the given stack
pub fn on_stack<T>(bytes: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let f = Sent::new(f);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(s, move || Sent::new((f.get())()))
            .expect("spawn")
            .join()
            .map(|r| r.get())
            .map_err(|_| format!("PANIC in the library: {}", last_panic()))
    })
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getattr_np(thread: usize, attr: *mut u64) -> i32;
    fn pthread_attr_getstack(attr: *const u64, addr: *mut *mut u8, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut u64) -> i32;
}

const PAINT: u64 = 0x5ac3_9d17_e62b_804f;

/// paints the unused part of the stack of this thread; gives where it begins and ends
#[inline(never)]
fn paint() -> (*mut u64, *mut u64) {
    let mut attr = [0u64; 16];
    let (mut lo, mut size) = (std::ptr::null_mut::<u8>(), 0usize);
    unsafe {
        if pthread_getattr_np(pthread_self(), attr.as_mut_ptr()) != 0 {
            panic!("no stack attributes");
        }
        pthread_attr_getstack(attr.as_ptr(), &mut lo, &mut size);
        pthread_attr_destroy(attr.as_mut_ptr());
    }
    // not the guard pages, not the frames in use
    let from = ((lo as usize + 32 * 1024) & !7) as *mut u64;
    let to = ((&attr as *const _ as usize - 4096) & !7) as *mut u64;
    let mut p = from;
    while p < to {
        unsafe {
            p.write_volatile(PAINT);
            p = p.add(1);
        }
    }
    (from, to)
}

/// bytes of the painted part that have been written since
#[inline(never)]
fn painted_over(from: *mut u64, to: *mut u64) -> usize {
    let mut p = from;
    while p < to && unsafe { p.read_volatile() } == PAINT {
        p = unsafe { p.add(1) };
    }
    to as usize - p as usize
}

/// like `on_stack`; says also how many bytes of stack f used
pub fn on_measured_stack<T>(bytes: usize, f: impl FnOnce() -> T) -> Result<(T, usize), String> {
    on_stack(bytes, || {
        let (from, to) = paint();
        let r = f();
        (r, painted_over(from, to))
    })
}

#[derive(Default)]
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub sampled_at: u64,
    /// say what is about to be run (a case run alone)
    pub trace: bool,
}

impl Ctx {
    pub fn count(&mut self, name: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.counters.get_mut(name) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.counters.entry(name.to_string()).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    /// what the library is about to be given: known even if the call never returns
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.trace {
            let s: String = f().chars().take(6000).collect();
            eprintln!("input: {}\n", s);
        }
    }
    /// one evaluation of the oracle
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// a non-trivial case, identified by its content
    pub fn nontrivial(&mut self, what: &str) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(hash_str(what));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && (self.samples.is_empty() || self.idx > self.sampled_at + 40) {
            self.sampled_at = self.idx;
            let s: String = f().chars().take(700).collect();
            self.samples.push(s);
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}
