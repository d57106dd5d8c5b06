//! What a monitor sees and records while one case runs.
use crate::dd::Dd;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A violation (the deciding oracle's message). `key` identifies the input for known findings.
#[derive(Debug, Clone)]
pub struct Viol {
    pub msg: String,
    pub key: Option<String>,
}
impl From<String> for Viol {
    fn from(msg: String) -> Viol {
        Viol { msg, key: None }
    }
}
pub type R<T = ()> = Result<T, Viol>;

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub distinct: HashSet<u64>,
    /// named sets of things observed, reported by size
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub cases: u64,
    pub observations: u64,
    pub trivial: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(f64::NEG_INFINITY);
            if v > *e {
                *e = v;
            }
        }
        self.distinct.extend(o.distinct);
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.cases += o.cases;
        self.observations += o.observations;
        self.trivial += o.trivial;
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub stats: Stats,
    /// collect a written-out description of the case
    pub verbose: bool,
    pub desc: Vec<String>,
    pub thorough: bool,
    pub case: u64,
    pub seed: u64,
    sig: u64,
    nontrivial: bool,
    pub key: Option<String>,
}

thread_local! {
    /// guarded library calls made and panics caught by this thread
    pub static CALLS: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone()).replace('\n', " ")
}

/// Runs library code; a panic is an observation, not a crash of the monitor.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    CALLS.with(|c| c.set((c.get().0 + 1, c.get().1)));
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        CALLS.with(|c| c.set((c.get().0, c.get().1 + 1)));
        Viol::from(format!("{what} panicked: {}", last_panic()))
    })
}
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

impl Ctx {
    pub fn new(seed: u64, prop: &str, case: u64, thorough: bool) -> Ctx {
        Ctx {
            rng: Rng::for_case(seed, prop, case),
            stats: Stats::default(),
            verbose: false,
            desc: vec![],
            thorough,
            case,
            seed,
            sig: 0xcbf29ce484222325,
            nontrivial: false,
            key: None,
        }
    }
    pub fn restart(&mut self, prop: &str, case: u64) {
        self.rng = Rng::for_case(self.seed, prop, case);
        self.case = case;
        self.sig = 0xcbf29ce484222325;
        self.nontrivial = false;
        self.desc.clear();
        self.key = None;
        self.stats.cases += 1;
    }
    pub fn finish(&mut self) {
        if self.nontrivial {
            self.stats.distinct.insert(self.sig);
        } else {
            self.stats.trivial += 1;
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.desc.push(s);
        }
    }
    pub fn hash(&mut self, x: u64) {
        self.sig = (self.sig ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    pub fn hashf(&mut self, xs: &[f64]) {
        for x in xs {
            self.hash(x.to_bits());
        }
    }
    pub fn mark_nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.counters.get_mut(k) {
            *v += n;
        } else {
            self.stats.counters.insert(k.to_string(), n);
        }
    }
    pub fn seen(&mut self, k: &str, h: u64) {
        if let Some(s) = self.stats.sets.get_mut(k) {
            s.insert(h);
        } else {
            self.stats.sets.entry(k.to_string()).or_default().insert(h);
        }
    }
    pub fn maximum(&mut self, k: &str, v: f64) {
        if let Some(e) = self.stats.maxima.get_mut(k) {
            if v > *e {
                *e = v;
            }
        } else {
            self.stats.maxima.insert(k.to_string(), v);
        }
    }
    pub fn obs(&mut self) {
        self.stats.observations += 1;
    }
    /// The numeric oracle: |got - want| <= tol, NaN never accepted.
    pub fn close(&mut self, what: &str, got: f64, want: Dd, tol: f64) -> R {
        self.stats.observations += 1;
        let err = (Dd::new(got) - want).f().abs();
        if err <= tol {
            if tol > 0.0 {
                self.maximum("max_error_over_tolerance", err / tol);
            }
            return Ok(());
        }
        Err(format!("{what}: got {got:e}, expected {:e} (error {err:e}, tolerance {tol:e})", want.f()).into())
    }
    /// As `close`, for an oracle with its own maximum (looser, calibrated tolerance).
    pub fn close_as(&mut self, name: &str, what: &str, got: f64, want: Dd, tol: f64) -> R {
        self.stats.observations += 1;
        let err = (Dd::new(got) - want).f().abs();
        if err <= tol {
            if tol > 0.0 {
                let k = format!("max_error_over_tolerance_{name}");
                self.maximum(&k, err / tol);
            }
            return Ok(());
        }
        Err(format!("{what}: got {got:e}, expected {:e} (error {err:e}, tolerance {tol:e})", want.f()).into())
    }
    pub fn check(&mut self, cond: bool, msg: impl FnOnce() -> String) -> R {
        self.stats.observations += 1;
        if cond {
            Ok(())
        } else {
            Err(msg().into())
        }
    }
}
