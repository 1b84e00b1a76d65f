//! C24: faults outside the decoder pass through it unharmed. Text destinations
//! that fail, readers that panic at a chosen read, and readers whose answers
//! change between reads.
use crate::gen::*;
use crate::iters;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::CpuId;
use std::cell::RefCell;
use std::fmt;

// ------------------------------------------------------- failing destinations

struct Watch {
    rng: Rng,
    few: usize,
    n: u64,
    bytes: u64,
    found: Vec<(&'static str, String)>,
}
thread_local! {
    static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
}

/// Accepts `left` pieces, fails on the next one, and from then on either fails
/// always or accepts everything again.
struct Full {
    left: usize,
    heals: bool,
    calls: usize,
    failed: usize,
    got: String,
}
impl fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.left == 0 && !(self.heals && self.failed > 0) {
            self.failed += 1;
            return Err(fmt::Error);
        }
        if self.failed == 0 {
            self.left -= 1;
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// A destination with room for so many bytes, which takes what fits.
struct Small {
    room: usize,
    failed: usize,
    got: String,
}
impl fmt::Write for Small {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.room {
            let mut k = self.room;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            self.got.push_str(&s[..k]);
            self.room = 0;
            self.failed += 1;
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

fn ends(t: &str) -> String {
    let n = t.len();
    let mut a = n.saturating_sub(80);
    while !t.is_char_boundary(a) {
        a += 1;
    }
    format!("{} bytes ending {:?}", n, &t[a..])
}

/// Called with everything the monitors render.
pub fn text(a: fmt::Arguments) {
    let mut w = WATCH.with(|w| w.borrow_mut().take());
    if let Some(w) = w.as_mut() {
        judge(a, w);
    }
    if w.is_some() {
        WATCH.with(|x| *x.borrow_mut() = w);
    }
}

fn judge(a: fmt::Arguments, w: &mut Watch) {
    use fmt::Write;
    let mut all = Full { left: usize::MAX, heals: false, calls: 0, failed: 0, got: String::new() };
    let end = guard(|| all.write_fmt(a));
    match end {
        // panics are C01's
        Err(_) => return,
        Ok(Err(_)) => {
            w.found.push(("error", format!("a rendering into a destination that accepts everything reports an error after {}", ends(&all.got))));
            return;
        }
        Ok(Ok(())) => {}
    }
    let n = all.calls;
    if n == 0 {
        return;
    }
    let mut ks: Vec<usize> = if n <= w.few { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
    while ks.len() < n.min(w.few) {
        ks.push(w.rng.below(n as u32) as usize);
    }
    for k in ks {
        for heals in [false, true] {
            w.n += 1;
            let mut d = Full { left: k, heals, calls: 0, failed: 0, got: String::new() };
            let how = |d: &Full| format!("a destination that fails at piece {} of {}{} has {} of {}", k, n, if heals { " and then works again" } else { "" }, ends(&d.got), ends(&all.got));
            match guard(|| d.write_fmt(a)) {
                Err(e) => w.found.push(("panic", format!("{}; the rendering panics: {}", how(&d), e))),
                Ok(r) => {
                    if r.is_ok() && d.failed > 0 {
                        w.found.push(("unreported", format!("{}; the rendering reports success", how(&d))));
                    } else if !all.got.starts_with(&d.got) {
                        w.found.push(("mangled", format!("{}, which is not its beginning", how(&d))));
                    } else if d.failed > 1 {
                        w.found.push(("persists", format!("{}; the rendering tries {} more times", how(&d), d.failed - 1)));
                    } else if d.failed == 0 && (r.is_err() || d.got != all.got) {
                        w.found.push(("unsteady", format!("{} the second time", how(&d))));
                    }
                }
            }
        }
    }
    for room in [0, w.rng.below(all.got.len() as u32 + 1) as usize, all.got.len().saturating_sub(1), all.got.len()] {
        w.n += 1;
        w.bytes += room as u64;
        let mut d = Small { room, failed: 0, got: String::new() };
        let r = guard(|| d.write_fmt(a));
        let fits = room >= all.got.len();
        let ok = match &r {
            Err(_) => false,
            Ok(r) => r.is_ok() == fits && all.got.starts_with(&d.got) && (!fits || d.got == all.got),
        };
        if !ok {
            w.found.push(("room", format!("with room for {} bytes the rendering of {} ends with {:?} and leaves {}", room, ends(&all.got), r, ends(&d.got))));
        }
    }
}

fn watch(seed: u64, few: usize) {
    WATCH.with(|w| *w.borrow_mut() = Some(Watch { rng: Rng::new(seed, 24), few, n: 0, bytes: 0, found: Vec::new() }));
}

fn unwatch(sec: &str, m: &Machine, rep: &mut Report) {
    let Some(w) = WATCH.with(|w| w.borrow_mut().take()) else { return };
    rep.count("renderings cut short by their destination", w.n);
    for (kind, what) in w.found {
        rep.viol(&format!("text:{}:{}", sec, kind), || format!("{}: {}", sec, what), m);
    }
}

fn texts(d: &DumpModel<Rd>, rd: &Rd, seed: u64, few: usize, rep: &mut Report) {
    rd.set_budget(1 << 40);
    let m = rd.machine();
    let Ok(cpu) = guard(|| CpuId::with_cpuid_reader(rd.clone())) else { return };
    let mut out = Vec::new();
    for i in 0..d.d.len() {
        watch(seed + i as u64, few);
        d.section(i, &cpu, true, &mut out);
        unwatch(d.d[i].sec, m, rep);
    }
    watch(seed, few / 2);
    text(format_args!("{:?}", cpu));
    text(format_args!("{:#?}", cpu));
    unwatch("CpuId", m, rep);
    watch(seed, few);
    let _ = guard(|| {
        if let Some(v) = cpu.get_vendor_info() {
            text(format_args!("{} {0:>30} {0:*^9.3}", v));
        }
        if let Some(v) = cpu.get_soc_vendor_info().and_then(|s| s.get_vendor_brand()) {
            text(format_args!("{} {0:>30} {0:*^9.3}", v));
        }
    });
    unwatch("Display", m, rep);
    rep.eval(if out.iter().any(|r| r.name == "{:?}") { Some(m.fingerprint()) } else { None });
}

/// Every case of every enumerated type, and every descriptor.
fn enumerated(rep: &mut Report) {
    watch(24, 64);
    // what they say is C15's
    crate::debug::names(&mut Report::new("C15"));
    unwatch("enumerated", &Machine::new(Dflt::Zero), rep);
    for b in 1..=255u32 {
        let mut m = Machine::new(Dflt::Zero);
        m.set_vendor(b"GenuineIntel");
        m.at_least(2);
        m.put(2, 0, Regs { a: 1 | b << 8 & 0x7f00, b: 0, c: b, d: 0 });
        let Ok(cpu) = guard(|| CpuId::with_cpuid_reader(Rd::new(m.clone()))) else { continue };
        watch(b as u64, 64);
        let _ = guard(|| cpu.get_cache_info().into_iter().flatten().for_each(|i| text(format_args!("{0:?} {0} {0:#?} {0:>20}", i))));
        unwatch("cache_info", &m, rep);
        rep.eval(Some(m.fingerprint()));
    }
}

// ------------------------------------------------------------ failing readers

const FAILED: &str = "PANIC: the reader failed";
const EMPTY: &str = "PANIC: reader budget exceeded";

fn failed(r: &Row, with: &str) -> bool {
    matches!(&r.v, V::S(s) if s.starts_with(with))
}

/// The rows before a fault, those after it, and afterwards.
fn reads(d: &DumpModel<Rd>, rd: &Rd, rng: &mut Rng, few: u64, rep: &mut Report) {
    let m = rd.machine();
    let big = || {
        rd.fail_at(None);
        rd.set_budget(10_000_000)
    };
    big();
    let r0 = rd.reads();
    let Ok(cpu) = guard(|| CpuId::with_cpuid_reader(rd.clone())) else { return };
    let made = rd.reads() - r0;
    let base = d.dump(&cpu, true);
    for k in 0..made {
        rd.fail_at(Some(k));
        match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
            Err(e) if format!("PANIC: {}", e).starts_with(FAILED) => rep.count("constructions over a reader that fails", 1),
            Err(e) => rep.viol("construction:another panic", || format!("the reader fails at read {}; the construction panics with {}", k, e), m),
            Ok(_) => rep.viol("construction:swallowed", || format!("the reader fails at read {} of the construction, which returns a decoder", k), m),
        }
        big();
        match guard(|| d.dump(&CpuId::with_cpuid_reader(rd.clone()), false)) {
            Err(e) => rep.viol("construction:after", || e, m),
            Ok(v) => {
                if let Some(x) = v.iter().find(|r| !base.contains(r)) {
                    rep.viol("construction:after", || format!("after a construction that failed, a new decoder says {:?}", x), m);
                }
            }
        }
    }
    let mut from = 0;
    for i in 0..d.d.len() {
        let sec = d.d[i].sec;
        let len = base[from..].iter().take_while(|r| r.sec == sec).count();
        let want = &base[from..from + len];
        from += len;
        big();
        let r0 = rd.reads();
        let mut out = Vec::new();
        d.section(i, &cpu, true, &mut out);
        let total = rd.reads() - r0;
        let mut ks: Vec<u64> = if total <= few { (0..total).collect() } else { vec![0, 1, 2, total - 1] };
        while (ks.len() as u64) < total.min(few) {
            ks.push((rng.u64() % total) as u64);
        }
        for k in ks {
            for once in [true, false] {
                big();
                if once {
                    rd.fail_at(Some(k));
                } else {
                    rd.set_budget(k);
                }
                let with = if once { FAILED } else { EMPTY };
                let how = || format!("the reader fails at read {} of {}{}", k, total, if once { "" } else { " and all later ones" });
                let mut out = Vec::new();
                d.section(i, &cpu, true, &mut out);
                let hits = out.iter().filter(|r| failed(r, with)).count();
                rep.count("sections read through a failing reader", 1);
                rep.count("failures seen by the caller", hits as u64);
                rep.eval(Some(mix(m.fingerprint() ^ mix(k << 8 | i as u64)) ^ once as u64));
                if hits == 0 {
                    rep.viol(&format!("reader:{}:swallowed", sec), || format!("{}: {}, and nobody hears of it", sec, how()), m);
                } else if once && hits > 1 {
                    rep.viol(&format!("reader:{}:lasting", sec), || format!("{}: {} once; {} calls fail", sec, how(), hits), m);
                }
                // everything else is what it would have been
                for r in &out {
                    if failed(r, with) || r.name == "len" {
                        continue;
                    }
                    if !want.contains(r) {
                        let w = want.iter().find(|w| w.idx == r.idx && w.name == r.name);
                        rep.viol(&format!("reader:{}.{}:invented", sec, r.name), || format!("{}; {:?} instead of {:?}", how(), r, w), m);
                        break;
                    }
                }
                big();
                let mut out = Vec::new();
                d.section(i, &cpu, true, &mut out);
                if let Some(x) = diff(want, &out) {
                    rep.viol(&format!("reader:{}:after", sec), || format!("{}; afterwards: {}", how(), x), m);
                }
            }
        }
    }
    big();
    let whole = |rep: &mut Report, after: &str| {
        if let Some(x) = diff(&base, &d.dump(&cpu, true)) {
            rep.viol("reader:after", || format!("{}: {}", after, x), m);
        }
    };
    whole(rep, "after the failures of its reader the decoder says");
    // the whole decoder's rendering
    let r0 = rd.reads();
    let t = guard(|| format!("{:?}", cpu));
    let total = rd.reads() - r0;
    for _ in 0..few.min(total) {
        let k = rng.u64() % total;
        rd.fail_at(Some(k));
        let r = guard(|| format!("{:?}", cpu));
        rep.count("sections read through a failing reader", 1);
        if !r.as_ref().is_err_and(|e| e.starts_with("the reader failed")) {
            rep.viol("reader:CpuId:swallowed", || format!("the reader fails at read {} of {} and the rendering of the decoder ends with {:?}", k, total, r.map(|t| ends(&t))), m);
        }
        big();
        if guard(|| format!("{:?}", cpu)) != t {
            rep.viol("reader:CpuId:after", || "the decoder renders differently after its reader failed".into(), m);
        }
    }
}

/// An iterator whose step was interrupted: later steps yield entries that
/// were not yielded yet, in order.
fn interrupted(rd: &Rd, rng: &mut Rng, few: u64, rep: &mut Report) {
    let m = rd.machine();
    rd.fail_at(None);
    rd.set_budget(10_000_000);
    let Ok(cpu) = guard(|| CpuId::with_cpuid_reader(rd.clone())) else { return };
    macro_rules! it {
        ($name:literal, $get:expr) => {{
            let get = $get;
            let show = |x| format!("{:?}", x);
            let r0 = rd.reads();
            let want: Vec<String> = match guard(|| get(&cpu).into_iter().flatten().map(show).collect()) {
                Ok(v) => v,
                Err(_) => Vec::new(),
            };
            let total = rd.reads() - r0;
            for n in 0..total.min(few) {
                let k = if total <= few { n } else { rng.u64() % total };
                rd.fail_at(Some(k));
                let Ok(i) = guard(|| get(&cpu)) else {
                    rd.fail_at(None);
                    continue;
                };
                let Some(mut i) = i else { break };
                let (mut got, mut hits, mut steps) = (Vec::new(), 0, 0);
                let ended = loop {
                    steps += 1;
                    match guard(|| i.next()) {
                        Err(_) => hits += 1,
                        Ok(None) => break true,
                        Ok(Some(x)) => got.push(show(x)),
                    }
                    if steps > want.len() + 64 {
                        break false;
                    }
                };
                rd.fail_at(None);
                rep.count("iterators continued after a failure of the reader", 1);
                rep.count("entries obtained from them", got.len() as u64);
                rep.eval(Some(mix(m.fingerprint() ^ mix(k)) ^ $name.len() as u64));
                let mut left = want.iter();
                let sub = got.iter().all(|g| left.any(|w| w == g));
                if hits != 1 {
                    rep.viol(concat!("iterator:", $name, ":swallowed"), || format!("the reader fails once, at read {} of {}; {} steps fail", k, total, hits), m);
                } else if !ended {
                    rep.viol(concat!("iterator:", $name, ":endless"), || format!("{} steps after the reader failed at read {} of {}", steps, k, total), m);
                } else if !sub {
                    rep.viol(concat!("iterator:", $name, ":invented"), || format!("after the reader failed at read {} of {} the iterator yields {:?} in all; without, {:?}", k, total, got, want), m);
                }
            }
        }};
    }
    it!("cache_info", |c: &Cpu| c.get_cache_info());
    it!("cache_parameters", |c: &Cpu| c.get_cache_parameters());
    it!("extended_topology_info", |c: &Cpu| c.get_extended_topology_info());
    it!("extended_topology_info_v2", |c: &Cpu| c.get_extended_topology_info_v2());
    it!("extended_state_info.iter", |c: &Cpu| c.get_extended_state_info().map(|x| x.iter()));
    it!("sgx_info.iter", |c: &Cpu| c.get_sgx_info().map(|x| x.iter()));
    it!("deterministic_address_translation_info", |c: &Cpu| c.get_deterministic_address_translation_info());
    it!("soc_vendor_info.vendor_attributes", |c: &Cpu| c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()));
    it!("extended_cpu_topology", |c: &Cpu| c.get_extended_cpu_topology());
}

// ----------------------------------------------------------- changing readers

/// Two unlike cores answer in turns.
fn torn(d: &DumpModel<Rd>, rd: &Rd, other: &Machine, rng: &mut Rng, rounds: usize, rep: &mut Report) {
    let m = rd.machine();
    // every enumeration comes to cells that neither lists, or to its limit
    let finite = [m, other].iter().all(|m| m.dflt == Dflt::Zero && m.get(0x17, 0).a < 1000 && m.get(0x18, 0).a < 1000);
    for k in 0..rounds {
        let turns = match k % 4 {
            0 => Turns::Bits(rng.u64()),
            1 => Turns::Bits(if k % 8 < 4 { 0x5555_5555_5555_5555 } else { !0x5555_5555_5555_5555 }),
            2 => Turns::From(1 + rng.below(12) as u64),
            _ => Turns::Bits(rng.u64() & rng.u64() & rng.u64()),
        };
        rd.fail_at(None);
        rd.set_budget(20_000);
        rd.share(Some((other.clone(), turns)));
        let both = || {
            let mut b = m.clone();
            // the other's answers, for the record
            for (k, r) in &other.map {
                b.map.entry(*k).or_insert(*r);
            }
            b
        };
        current(|| format!("answers of two machines, {:?}\n{}\nand\n{}", turns, m.describe(), other.describe()));
        let mut out = Vec::new();
        match guard(|| CpuId::with_cpuid_reader(rd.clone())) {
            Err(e) => rep.viol("changing:construction:panic", || format!("{:?}: {}", turns, e), &both()),
            Ok(cpu) => {
                for i in 0..d.d.len() {
                    rd.set_budget(20_000);
                    // only now do the turns begin, so that they matter here
                    if let Turns::From(_) = turns {
                        rd.share(Some((other.clone(), turns)));
                    }
                    d.section(i, &cpu, true, &mut out);
                }
                rd.set_budget(100_000);
                out.push(Row { sec: "CpuId", idx: 0, name: "{:?}", v: gv(|| V::S(format!("{:?}", cpu))) });
            }
        }
        rep.eval(Some(mix(m.fingerprint() ^ mix(other.fingerprint())) ^ k as u64));
        rep.count("decoders over a reader whose answers change", 1);
        rep.count("values obtained from them", out.len() as u64);
        for r in &out {
            let V::S(s) = &r.v else { continue };
            if let Some(p) = s.strip_prefix("PANIC: ") {
                let endless = p.contains("budget exceeded");
                if endless && !finite {
                    rep.count("endless enumerations left alone (outside the property)", 1);
                    continue;
                }
                rep.viol(&format!("changing:{}.{}:{}", r.sec, r.name, if endless { "endless" } else { "panic" }), || format!("{:?}: {:?} of {:?} and {:?}", turns, r, m.vend(), other.describe()), &both());
            } else if s == "CAP" && finite {
                rep.viol(&format!("changing:{}:endless", r.sec), || format!("{:?}: more than {} entries", turns, ITEM_CAP), &both());
            }
        }
        rd.set_budget(100_000);
        crate::strings::memory(rd, rep);
        rd.share(None);
    }
}

/// Much like `m`: some answers changed a little, some gone.
fn relative(m: &Machine, rng: &mut Rng) -> Machine {
    let mut o = m.clone();
    let mut keys: Vec<u64> = o.map.keys().copied().collect();
    keys.sort();
    for k in keys {
        let r = o.map.get_mut(&k).unwrap();
        match rng.below(6) {
            0 => *r = Regs::default(),
            1 => *r = rng.regs(),
            2 => r.set(rng.below(4) as usize, rng.reg()),
            3 => {
                let i = rng.below(4) as usize;
                r.set(i, r.get(i) ^ 1 << rng.below(32));
            }
            _ => (),
        }
    }
    o
}

pub struct Judge(DumpModel<Rd>);
impl Judge {
    pub fn new() -> Judge {
        Judge(dumpers::<Rd>())
    }
    pub fn check(&self, m: &Machine, other: &Machine, seed: u64, deep: bool, rep: &mut Report) {
        let mut rng = Rng::new(seed ^ m.fingerprint(), 24_000);
        let rd = Rd::new(m.clone());
        current(|| format!("failing readers and destinations\n{}", m.describe()));
        if iters::all_finite(m, 64) {
            texts(&self.0, &rd, rng.u64(), if deep { 24 } else { 8 }, rep);
            reads(&self.0, &rd, &mut rng, if deep { 16 } else { 5 }, rep);
            interrupted(&rd, &mut rng, if deep { 24 } else { 8 }, rep);
        }
        let k = if deep { 8 } else { 4 };
        torn(&self.0, &rd, other, &mut rng, k, rep);
        torn(&self.0, &rd, &relative(m, &mut rng), &mut rng, k, rep);
    }
}

/// Recordings cut short on their way out or in.
#[cfg(feature = "full")]
fn recordings(rng: &mut Rng, n: usize, rep: &mut Report) {
    struct Room(usize);
    impl std::io::Write for Room {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            let k = b.len().min(self.0);
            self.0 -= k;
            if k == 0 && !b.is_empty() {
                return Err(std::io::ErrorKind::StorageFull.into());
            }
            Ok(k)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    for _ in 0..n {
        let x = rng.regs();
        let o = to_res(x);
        let mut m = Machine::new(Dflt::Zero);
        m.put(0, 0, x);
        let (Ok(j), Ok(b)) = (serde_json::to_vec(&o), bincode::serialize(&o)) else { continue };
        for k in 0..j.len().max(b.len()) {
            let mut bad = |what: &str, ok: Result<bool, String>| {
                rep.count("recordings cut short", 1);
                if ok != Ok(true) {
                    rep.viol(&format!("recording:{}", what), || format!("{} of {:x?} with {} bytes: {:?}", what, x, k, ok.map(|_| "reported as success")), &m);
                }
            };
            if k < j.len() {
                bad("writing JSON", guard(|| serde_json::to_writer(Room(k), &o).is_err()));
                bad("reading JSON", guard(|| serde_json::from_slice::<raw_cpuid::CpuIdResult>(&j[..k]).is_err()));
            }
            if k < b.len() {
                bad("writing bincode", guard(|| bincode::serialize_into(Room(k), &o).is_err()));
                bad("reading bincode", guard(|| bincode::deserialize::<raw_cpuid::CpuIdResult>(&b[..k]).is_err()));
            }
        }
        rep.eval(Some(m.fingerprint()));
    }
}

/// The library's own raw dump and report over a reader that fails: what was
/// printed until then is the beginning of what is printed otherwise.
#[cfg(feature = "full")]
fn prints(cap: &crate::stdout::Capture, m: &Machine, half: usize, rng: &mut Rng, few: u64, rep: &mut Report) {
    let rd = Rd::new(m.clone());
    current(|| format!("printing over a failing reader\n{}", m.describe()));
    for report in [false, true] {
        let what = if report { "the report" } else { "the raw dump" };
        let go = || {
            let mut res = Ok(());
            let out = cap.run(|| {
                res = guard(|| if report { raw_cpuid::display::markdown(CpuId::with_cpuid_reader(rd.clone())) } else { raw_cpuid::display::raw(rd.clone()) })
            });
            (res, out)
        };
        let free = || {
            rd.fail_at(None);
            rd.set_budget(20_000_000);
        };
        free();
        rd.start_log();
        let (res, base) = go();
        let log = rd.take_log();
        if res.is_err() {
            // panics are C01's and C13's
            continue;
        }
        let total = log.len() as u64;
        // one read of every leaf (or every other), or just any
        let mut ks: Vec<u64> = vec![total - 1];
        if report {
            let mut leaves: Vec<u32> = log.iter().map(|x| x.0).collect();
            leaves.sort();
            leaves.dedup();
            for (i, l) in leaves.iter().enumerate() {
                if i % 2 == half {
                    let at: Vec<usize> = (0..log.len()).filter(|&i| log[i].0 == *l).collect();
                    ks.push(rng.pick(&at) as u64);
                }
            }
        } else {
            ks.extend((0..few).map(|_| rng.u64() % total));
        }
        for (n, k) in ks.into_iter().enumerate() {
            let once = n % 2 == 0;
            free();
            if once {
                rd.fail_at(Some(k));
            } else {
                rd.set_budget(k);
            }
            let (res, out) = go();
            let with = if once { FAILED } else { EMPTY };
            rep.eval(Some(mix(m.fingerprint() ^ mix(k)) ^ report as u64));
            rep.count("printing over a failing reader", 1);
            rep.count("bytes printed before the failure", out.len() as u64);
            match res {
                Ok(()) => rep.viol("print:swallowed", || format!("the reader fails at read {} of {}; {} ends as if nothing happened, with {}", k, total, what, ends(&out)), m),
                Err(e) if !format!("PANIC: {}", e).starts_with(with) => rep.viol("print:another panic", || format!("the reader fails at read {} of {}; {} fails with {}", k, total, what, e), m),
                Err(_) if !base.starts_with(&out) => rep.viol("print:mangled", || format!("the reader fails at read {} of {}; {} printed {}, which is not the beginning of {}", k, total, what, ends(&out), ends(&base)), m),
                Err(_) => (),
            }
        }
        free();
        if go().1 != base {
            rep.viol("print:after", || format!("{} is another after its reader failed", what), m);
        }
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 1024 } else { 160 };
    let mut rep = shards("C24", n, |i, rep| {
        let j = Judge::new();
        let mut g = Gen::new(seed, 24_000 + i as u64);
        for k in 0..if thorough { 24 } else { 6 } {
            let m = g.machine();
            let other = g.machine();
            j.check(&m, &other, seed, k % 3 == 0, rep);
        }
        if i == 0 {
            enumerated(rep);
        }
    });
    #[cfg(feature = "full")]
    {
        let mut r = Report::new("C24");
        let mut g = Gen::new(seed, 24_999);
        let mut rng = Rng::new(seed, 24_998);
        recordings(&mut rng, if thorough { 500 } else { 50 }, &mut r);
        let cap = crate::stdout::Capture::new();
        let (mut k, mut tries) = (0, 0);
        while k < if thorough { 40 } else { 6 } && tries < 400 {
            tries += 1;
            let mut m = g.machine();
            m.dflt = Dflt::Zero;
            // the first few advertise every leaf, as either vendor
            if k < 4 {
                m.set_vendor(if k < 2 { b"GenuineIntel" } else { b"AuthenticAMD" });
                m.at_least(0x1f);
                m.at_least(0x8000_0026);
                m.set_bit(1, 0, 2, 31, true);
            }
            // the raw dump prints every leaf there is said to be
            let few = |from: u32| m.get(from, 0).a.saturating_sub(from) < 2_000;
            if iters::all_finite(&m, 64) && few(0) && few(0x4000_0000) && few(0x8000_0000) {
                prints(&cap, &m, k % 2, &mut rng, if thorough { 20 } else { 6 }, &mut r);
                crate::binary::cut_short(&m, &mut rng, if thorough { 16 } else { 6 }, &mut r);
                k += 1;
            }
        }
        rep.merge(r);
    }
    rep.rule = "An evaluation is a CPU all of whose renderings were cut short by failing destinations, a section read while one read (or every read from one on) of the reader panics, an iterator continued after such a failure, a decoder over a reader that answers in turns for two unlike CPUs, or a run of the program whose output does not fit; distinct by register contents, read and turns.".into();
    rep
}
