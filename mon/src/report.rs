//! What a run observed, written out for the runner.
use crate::machine::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;
use std::hash::BuildHasherDefault;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub machine: String,
    pub count: u64,
}

pub struct Report {
    pub prop: String,
    pub evals: u64,
    pub nontrivial: HashSet<u64, BuildHasherDefault<MixH>>,
    pub viols: BTreeMap<String, Viol>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub rule: String,
    pub exhaustive: Vec<String>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn new(prop: &str) -> Report {
        Report {
            prop: prop.to_string(),
            evals: 0,
            nontrivial: HashSet::default(),
            viols: BTreeMap::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            rule: String::new(),
            exhaustive: Vec::new(),
        }
    }
    #[inline]
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            self.nontrivial.insert(k);
        }
        if self.evals & 0xff == 0 {
            tick();
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let c = self.counters.entry(what.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 12 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, sig: &str, detail: impl FnOnce() -> String, m: &Machine) {
        if let Some(v) = self.viols.get_mut(sig) {
            v.count += 1;
        } else if self.viols.len() < 100 {
            self.viols.insert(sig.to_string(), Viol { sig: sig.to_string(), detail: detail(), machine: m.describe(), count: 1 });
        } else {
            self.count("violations not listed", 1);
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.viols {
            match self.viols.get_mut(&k) {
                Some(x) => x.count += v.count,
                None => {
                    self.viols.insert(k, v);
                }
            }
        }
        for (k, n) in o.counters {
            if k.starts_with("max ") {
                self.max(&k, n)
            } else {
                self.count(&k, n)
            }
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
        for e in o.exhaustive {
            if !self.exhaustive.contains(&e) {
                self.exhaustive.push(e)
            }
        }
        if self.rule.is_empty() {
            self.rule = o.rule;
        }
    }
    pub fn to_json(&self) -> String {
        let mut o = String::from("{");
        write!(o, "\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},", esc(&self.prop), self.evals, self.nontrivial.len()).unwrap();
        write!(o, "\"rule\":{},", esc(&self.rule)).unwrap();
        write!(o, "\"exhaustive\":[{}],", self.exhaustive.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, "\"counters\":{{{}}},", self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")).unwrap();
        write!(o, "\"samples\":[{}],", self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")).unwrap();
        let v: Vec<String> = self
            .viols
            .values()
            .map(|v| format!("{{\"sig\":{},\"detail\":{},\"machine\":{},\"count\":{}}}", esc(&v.sig), esc(&v.detail), esc(&v.machine), v.count))
            .collect();
        write!(o, "\"violations\":[{}]}}", v.join(",")).unwrap();
        o
    }
}


pub struct Slot {
    pub progress: AtomicUsize,
    pub current: Mutex<String>,
    clk: libc::clockid_t,
    alive: AtomicBool,
    tid: i64,
    /// Nothing this thread does may wait.
    busy: AtomicBool,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
thread_local! {
    static MY: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

/// Registers the calling thread with the watchdog.
pub fn enroll() {
    if cfg!(miri) {
        return;
    }
    let mut clk: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
    let s = Arc::new(Slot { progress: AtomicUsize::new(0), current: Mutex::new(String::new()), clk, alive: AtomicBool::new(true), tid: unsafe { libc::syscall(libc::SYS_gettid) } as i64, busy: AtomicBool::new(false) });
    SLOTS.lock().unwrap().push(s.clone());
    MY.with(|m| *m.borrow_mut() = Some(s));
}
pub fn retire() {
    MY.with(|m| {
        if let Some(s) = m.borrow_mut().take() {
            s.alive.store(false, Ordering::SeqCst)
        }
    });
}
/// Runs something that never waits: a thread that sleeps in it does not wake.
pub fn waits_for_nothing<T>(f: impl FnOnce() -> T) -> T {
    struct Done;
    let set = |b| {
        MY.with(|m| {
            if let Some(s) = &*m.borrow() {
                s.busy.store(b, Ordering::SeqCst);
            }
        })
    };
    impl Drop for Done {
        fn drop(&mut self) {
            MY.with(|m| {
                if let Some(s) = &*m.borrow() {
                    s.busy.store(false, Ordering::SeqCst);
                }
            })
        }
    }
    let _done = Done;
    set(true);
    f()
}
fn sleeps(tid: i64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    s.rsplit_once(") ").is_some_and(|x| x.1.starts_with('S'))
}
/// One bounded step of the workload has finished.
#[inline]
pub fn tick() {
    MY.with(|m| {
        if let Some(s) = &*m.borrow() {
            s.progress.fetch_add(1, Ordering::Relaxed);
        }
    });
}
pub fn current(what: impl FnOnce() -> String) {
    MY.with(|m| {
        if let Some(s) = &*m.borrow() {
            *s.current.lock().unwrap() = what();
        }
    });
}

/// Ends the process with a hang report when one of the monitored threads
/// burns `limit` seconds of its own CPU time without finishing a step.
pub fn watchdog(prop: String, out: String, limit: f64) {
    std::thread::spawn(move || {
        let cpu = |clk| {
            let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            unsafe { libc::clock_gettime(clk, &mut t) };
            t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
        };
        let mut last: Vec<(u64, f64)> = Vec::new();
        // how often in a row each was found asleep, with the CPU time used
        let mut asleep: Vec<(u32, f64)> = Vec::new();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let slots: Vec<Arc<Slot>> = SLOTS.lock().unwrap().clone();
            for (i, s) in slots.iter().enumerate() {
                if i >= last.len() {
                    last.push((u64::MAX, 0.0));
                    asleep.push((0, 0.0));
                }
                if !s.alive.load(Ordering::SeqCst) {
                    continue;
                }
                let p = s.progress.load(Ordering::Relaxed) as u64;
                let c = cpu(s.clk);
                if p == last[i].0 && s.busy.load(Ordering::SeqCst) && c == asleep[i].1 && sleeps(s.tid) {
                    asleep[i].0 += 1;
                } else {
                    asleep[i] = (0, c);
                }
                let blocked = asleep[i].0 >= 60;
                if p != last[i].0 {
                    last[i] = (p, c);
                } else if blocked || c - last[i].1 > limit {
                    let mut r = Report::new(&prop);
                    r.evals = p;
                    let cur = s.current.lock().map(|s| s.clone()).unwrap_or_default();
                    let (what, mach) = cur.split_once('\n').unwrap_or((&cur, ""));
                    let v = Viol {
                        sig: format!("hang:{}", what),
                        detail: if blocked { format!("asleep for 30 s without being woken: {}", what) } else { format!("no step finished within {} s of CPU time: {}", limit, what) },
                        machine: mach.to_string(),
                        count: 1,
                    };
                    r.viols.insert("hang".into(), v);
                    std::fs::write(&out, r.to_json()).ok();
                    std::process::exit(0);
                }
            }
        }
    });
}

/// Runs `n` independent jobs on all cores; the reports are merged in job
/// order, so the outcome does not depend on scheduling.
/// A panic that reaches here came from a place where a monitor expected none.
/// If the library raised it, or never stopped asking the reader, the property
/// cannot be observed to hold; otherwise the monitor itself is broken.
pub fn guarded(r: &mut Report, f: impl FnOnce(&mut Report)) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r))) {
        let msg = crate::model::PANIC_MSG.with(|p| p.borrow().clone());
        if e.is::<crate::machine::BudgetExceeded>() || ["[/repo/src/", "[src/lib.rs", "[src/extended.rs", "[src/display.rs"].iter().any(|p| msg.contains(p)) {
            let m = crate::machine::Machine::new(crate::machine::Dflt::Zero);
            let at = msg.rsplit('[').next().unwrap_or("").trim_end_matches(']').rsplit_once(':').map_or(String::new(), |x| x.0.to_string());
            r.viol(&format!("panic:{}", if e.is::<crate::machine::BudgetExceeded>() { "does not terminate".to_string() } else { at }), || msg.clone(), &m);
        } else {
            eprintln!("the monitor panicked: {}", msg);
            std::process::exit(3);
        }
    }
}

pub fn shards(prop: &str, n: usize, f: impl Fn(usize, &mut Report) + Sync) -> Report {
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Report)>> = Mutex::new(Vec::new());
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..cores.min(n) {
            s.spawn(|| {
                enroll();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let mut r = Report::new(prop);
                    guarded(&mut r, |r| f(i, r));
                    done.lock().unwrap().push((i, r));
                }
                retire();
            });
        }
    });
    let mut v = done.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let mut out = Report::new(prop);
    for (_, r) in v {
        out.merge(r);
    }
    out
}
