//! Per-run context: trace, counters, violations, and the boundary to the code under test.

use crate::simio::{BudgetExceeded, Sim};
use crate::tape::Digest;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable class: used to decide whether a shrunk run still shows "the same" violation and to
    /// match known findings.
    pub class: String,
    pub detail: String,
}

pub type R = Result<(), Violation>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.to_string(),
        detail: detail.into(),
    })
}

#[derive(Default)]
pub struct Ctx {
    pub verbose: bool,
    pub log: Vec<String>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub io_ops: u64,
    pub digest: Digest,
    pub nontrivial: bool,
    /// For the process-based checks: scratch directory of this worker.
    pub scratch: Option<std::path::PathBuf>,
    pub run_index: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.log.len() < 3000 {
            let s = f();
            self.log.push(s);
        }
    }
    pub fn probe(&mut self, p: &str) {
        if let Some(v) = self.probes.get_mut(p) {
            *v += 1;
        } else {
            self.probes.insert(p.to_string(), 1);
        }
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.to_string()).or_insert(0) += n;
            self.nontrivial = true;
        }
    }
    /// Fold the statistics and event trace of a finished simulated device into this run.
    pub fn absorb(&mut self, sim: &Sim) {
        let mut d = sim.0.borrow_mut();
        self.io_ops += d.ops;
        self.digest.add(d.digest.0);
        let fired = std::mem::take(&mut d.fired);
        for (k, v) in fired {
            self.fault(k, v);
        }
        if self.verbose {
            if let Some(l) = d.log.take() {
                for x in l {
                    if self.log.len() < 3000 {
                        self.log.push(format!("    io {x}"));
                    }
                }
            }
        }
        d.ops = 0;
    }
    pub fn watch(&self, sim: &Sim) {
        if self.verbose {
            sim.with(|d| d.log = Some(vec![]));
        }
    }
}

thread_local! {
    static IN_LIB: RefCell<u32> = const { RefCell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<BudgetExceeded>().is_some() {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some("step budget exceeded".into()));
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{msg} at {loc}");
        let in_lib = IN_LIB.with(|i| *i.borrow()) > 0;
        if !in_lib {
            eprintln!("HARNESS PANIC: {text}");
            if std::env::var_os("RUST_BACKTRACE").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked(pub String);

impl Panicked {
    pub fn is_budget(&self) -> bool {
        self.0.starts_with("step budget")
    }
    /// Location-free short form, for violation classes.
    pub fn class(&self) -> String {
        if self.is_budget() {
            "endless-loop".into()
        } else {
            "panic".into()
        }
    }
}

/// Run code under test; a panic inside it is an observation, not a harness failure.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    IN_LIB.with(|i| *i.borrow_mut() += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|i| *i.borrow_mut() -= 1);
    r.map_err(|_| {
        Panicked(
            LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into()),
        )
    })
}
