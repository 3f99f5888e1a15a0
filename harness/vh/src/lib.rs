//! Shared harness code: small prime fields and curves small enough for TLC to compute with, JSON
//! in and out, a seeded random generator, and panic capture.
extern crate alloc;
pub mod json;
pub mod rng;
#[macro_use]
pub mod tiny;
#[cfg(feature = "poseidon")]
pub mod poseidon;
pub use json::J;
pub use rng::Rng;

use std::io::Write;

/// Runs `f`; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }),
    }
}

/// Silences the default panic message (panics of the code under test are recorded as data).
pub fn quiet_panics() {
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// A newline-delimited JSON trace file.
pub struct Trace {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Trace {
    pub fn create(path: &str) -> Self {
        Trace { w: std::io::BufWriter::new(std::fs::File::create(path).expect("create trace")), n: 0 }
    }
    pub fn emit(&mut self, j: J) {
        self.n += 1;
        writeln!(self.w, "{j}").expect("write trace");
    }
}

/// Reads a newline-delimited JSON file.
pub fn read_nd(path: &str) -> Vec<J> {
    let s = std::fs::read_to_string(path).expect("read scenarios");
    s.lines().filter(|l| !l.trim().is_empty()).map(|l| J::parse(l).expect("json")).collect()
}

/// `--key value` arguments.
pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == &format!("--{name}")).and_then(|i| a.get(i + 1).cloned())
}
pub fn arg_or(name: &str, d: &str) -> String {
    arg(name).unwrap_or_else(|| d.into())
}
pub fn arg_u64(name: &str, d: u64) -> u64 {
    arg(name).map(|s| s.parse().expect("number")).unwrap_or(d)
}
