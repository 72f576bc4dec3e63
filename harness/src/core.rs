//! Units, contexts, violations, panics: what all engines share.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Debug, Clone)]
pub struct Viol {
    pub what: String,
}
pub type R<T> = Result<T, Viol>;
pub fn viol<T>(what: impl Into<String>) -> R<T> {
    Err(Viol { what: what.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::core::Viol { what: format!($($a)*) }); } };
}

#[derive(Default)]
pub struct Ctx {
    /// distinct states visited (measured)
    pub states: u64,
    /// transitions (operation executions, schedule steps, fault points) judged
    pub transitions: u64,
    /// complete histories re-executed on the implementation from the initial state
    pub traces: u64,
    /// individual evaluations (queries, comparisons against the reference)
    pub evals: u64,
    /// cases that are non-trivial by the rule of the property
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub thorough: bool,
    pub shard: (usize, usize),
}
impl Ctx {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_default() += n;
    }
    pub fn note_max(&mut self, k: &str, n: u64) {
        let e = self.notes.entry(format!("max_{k}")).or_default();
        *e = (*e).max(n);
    }
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) -> R<()> + Send>,
}
pub fn unit(name: impl Into<String>, f: impl Fn(&mut Ctx) -> R<()> + Send + 'static) -> Unit {
    Unit { name: name.into(), run: Box::new(f) }
}

/// A property's check.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub bounds: String,
    pub assumptions: Vec<&'static str>,
    pub units: Vec<Unit>,
    pub quarantine: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CASE: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("panic at {loc}: {msg}"));
            }
        });
    }));
}
pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}
/// Run library code; a panic becomes an error text.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            // a payload must not be leaked, or the leak accounting is off
            drop(p);
            Err(take_panic())
        }
    }
}
/// Run a whole case; a panic in it is a violation.
pub fn guarded<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> R<T>) -> R<T> {
    if cfg!(not(feature = "sched")) {
        crate::tick();
    }
    match catch(f) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(v)) => Err(Viol { what: format!("{}: {}", what(), v.what) }),
        Err(p) => Err(Viol { what: format!("{}: {}", what(), p) }),
    }
}

/// short printable form of bytes, runs compressed
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        let c = if b[i].is_ascii_graphic() && b[i] != b'"' && b[i] != b'\\' {
            (b[i] as char).to_string()
        } else {
            format!("\\x{:02x}", b[i])
        };
        if j - i > 4 {
            let _ = write!(s, "({c}*{})", j - i);
        } else {
            for _ in i..j {
                s.push_str(&c);
            }
        }
        i = j;
    }
    s.push('"');
    s
}
pub fn show_map(m: &Map) -> String {
    let v: Vec<String> = m.iter().take(40).map(|(k, v)| format!("{}=>{}", show(k), show(v))).collect();
    format!("{{{}{}}}", v.join(", "), if m.len() > 40 { ", ..." } else { "" })
}
/// 64 bit hash (FNV-1a with a final mix); used for state deduplication with 128 bits in total
#[derive(Clone, Copy)]
pub struct H128(pub u64, pub u64);
impl H128 {
    pub fn new() -> Self {
        H128(0xcbf29ce484222325, 0x9e3779b97f4a7c15)
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
            self.1 = (self.1.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
    pub fn get(&self) -> (u64, u64) {
        (self.0, self.1)
    }
}
impl std::fmt::Write for H128 {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}
