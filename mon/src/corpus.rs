//! CPUs that the coverage-guided workload (../guide) found interesting: each
//! made the library take a branch, or satisfy a comparison, that the CPUs
//! before it had not. Judged here by the monitors of one property.
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;

pub struct Item {
    pub sec: String,
    pub m: Machine,
}

pub struct Corpus {
    pub items: Vec<Item>,
    /// (leaf, sub-leaf) pairs that the native entry points distinguish.
    pub inputs: Vec<(u32, u32)>,
    /// Numbers that they, or the sources, mention.
    pub answers: Vec<u32>,
}

pub fn load_corpus() -> Corpus {
    let mut c = Corpus { items: Vec::new(), inputs: Vec::new(), answers: Vec::new() };
    let f = crate::arg("--corpus", "");
    if f.is_empty() {
        return c;
    }
    let Ok(t) = std::fs::read_to_string(&f) else { return c };
    for part in t.split("@ ").skip(1) {
        let (head, rest) = part.split_once('\n').unwrap_or((part, ""));
        if let Some(p) = head.strip_prefix("native ") {
            let mut it = p.split_whitespace().filter_map(|x| u32::from_str_radix(x, 16).ok());
            if let (Some(a), Some(b)) = (it.next(), it.next()) {
                c.inputs.push((a, b));
            }
            continue;
        }
        if let Some(p) = head.strip_prefix("answer ") {
            c.answers.extend(u32::from_str_radix(p.trim(), 16).ok());
            continue;
        }
        c.items.push(Item { sec: head.to_string(), m: load(rest) });
    }
    c
}

const IDS: [u32; 5] = [0, 1, 7, 0x8000_0000, 0x8000_0001];

pub fn flip(m: &mut Machine, rng: &mut Rng) {
    let mut keys: Vec<u64> = m.map.keys().copied().collect();
    keys.sort();
    if keys.is_empty() {
        return;
    }
    let k = rng.pick(&keys);
    let (l, s) = ((k >> 32) as u32, k as u32);
    let b = rng.below(32);
    let r = rng.below(4) as usize;
    m.upd(l, s, |x| x.set(r, x.get(r) ^ 1 << b));
}

/// Ends every enumeration early.
pub fn settle(m: &mut Machine) {
    settle_but(m, None)
}
pub fn settle_but(m: &mut Machine, keep: Option<u32>) {
    if crate::iters::all_finite(m, 120) {
        return;
    }
    for l in [0x17u32, 0x18] {
        let a = m.get(l, 0).a;
        if a > 400 && keep != Some(l) {
            m.upd(l, 0, |r| r.a = a % 400);
        }
    }
    for s in [3u32, 60] {
        if crate::iters::all_finite(m, 120) {
            return;
        }
        let s = if s == 3 { 60 } else { 3 };
        for (l, f, r, mask) in [(4u32, 0, RA, 31u32), (0x8000_001D, 0, RA, 31), (0xB, 0, RC, 0xff00), (0x1F, 0, RC, 0xff00), (0x8000_0026, 0, RC, 0xff00), (0x12, 2, RA, 15)] {
            m.upd(l, f + s, |x| x.set(r, x.get(r) & !mask));
        }
    }
}

impl Corpus {
    /// The item itself, on another vendor, and with one bit changed.
    fn variants(&self, i: usize, rng: &mut Rng) -> Vec<Machine> {
        let m = &self.items[i].m;
        let mut a = m.clone();
        let v = rng.pick(&[INTEL, AMD, HYGON, b"CentaurHauls"]);
        a.set_vendor(v);
        let mut b = m.clone();
        flip(&mut b, rng);
        vec![m.clone(), a, b]
    }

    /// One CPU with the cells of many items (one per section), so that a
    /// costly monitor sees them together.
    pub fn combined(&self, rng: &mut Rng) -> Machine {
        let mut by: std::collections::BTreeMap<&str, Vec<usize>> = Default::default();
        for (i, x) in self.items.iter().enumerate() {
            by.entry(&x.sec).or_default().push(i);
        }
        if self.items.is_empty() {
            return Machine::new(Dflt::Zero);
        }
        let lead = rng.below(self.items.len() as u32) as usize;
        let mut m = self.items[lead].m.clone();
        for (_, v) in by {
            let x = &self.items[v[rng.below(v.len() as u32) as usize]];
            for (k, r) in &x.m.map {
                let (l, s) = ((k >> 32) as u32, *k as u32);
                if !IDS.contains(&l) {
                    m.put(l, s, *r);
                } else if l == 7 && rng.chance(1, 4) {
                    m.put(l, s, *r);
                }
            }
        }
        if rng.chance(3, 4) {
            m.at_least(0x1f);
            m.at_least(0x8000_0026);
        }
        if rng.chance(1, 2) {
            let v = rng.pick(&[INTEL, AMD, HYGON, b"CentaurHauls"]);
            m.set_vendor(v);
        }
        m
    }

}

/// Adds the judged corpus to a report.
pub fn judge(prop: &str, seed: u64, rep: &mut Report) {
    let c = load_corpus();
    if c.items.is_empty() && c.answers.is_empty() {
        return;
    }
    let chunk = 16;
    let n = (c.items.len() + chunk - 1) / chunk;
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    if prop == "C16" {
        return rep.merge(crate::native::guided(seed, &c));
    }
    #[cfg(feature = "full")]
    if prop == "C13" || prop == "C14" {
        return single(prop, seed, &c, rep);
    }
    let r = shards(prop, n, |k, rep| {
        let mut rng = Rng::new(seed, 41_000 + k as u64);
        let ps = paths::<Rd>();
        let qs = queries::<Rd>();
        let d = dumpers::<Rd>();
        let o = crate::iters::Oracle::new();
        let forms = crate::entry::Judge::new();
        let faults = crate::faults::Judge::new();
        #[cfg(feature = "full")]
        let replay = crate::serde_mon::Replayer::new();
        for i in k * chunk..((k + 1) * chunk).min(c.items.len()) {
            let whole = matches!(prop, "C01" | "C11" | "C12" | "C15" | "C21" | "C24");
            let mut ms = c.variants(i, &mut rng);
            if whole {
                if i % 4 != 0 {
                    ms.truncate(1);
                }
                if i % 2 == 0 {
                    ms.push(c.combined(&mut rng));
                }
            }
            for mut m in ms {
                if whole && prop != "C01" {
                    settle(&mut m);
                }
                current(|| format!("guided CPU for {}\n{}", c.items[i].sec, m.describe()));
                rep.count("CPUs from the coverage-guided corpus judged", 1);
                match prop {
                    "C02" | "C04" | "C05" | "C06" | "C07" | "C08" | "C18" | "C19" => crate::fields::check_machine(prop, &Rd::new(m), &ps, rep),
                    "C01" => crate::exercise::check_machine(&d, &Rd::new(m), true, rep),
                    "C03" => crate::presence::check_machine(&Rd::new(m), &qs, rep),
                    "C09" => crate::iters::check_machine(&o, &Rd::new(m), rep),
                    "C10" => {
                        if m.has_not_amd(2) {
                            crate::iters::check_desc(&Rd::new(m), rep)
                        }
                    }
                    "C11" => crate::reader::check_machine(&Rd::new(m), seed ^ i as u64, rep),
                    #[cfg(feature = "full")]
                    "C12" => replay.check(&m, rep),
                    "C21" => forms.check_machine(&m, rep),
                    "C24" => faults.check(&m, &c.combined(&mut rng), seed, false, rep),
                    "C20" => crate::equal::check_machine(&m, &ps, &mut rng, rep),
                    "C15" => crate::debug::check_machine(&d, &m, rep),
                    _ => {}
                }
                tick();
            }
        }
    });
    rep.merge(r);
    rep.count("CPUs in the coverage-guided corpus", c.items.len() as u64);
}

/// The monitors that capture standard output run one at a time.
#[cfg(feature = "full")]
fn single(prop: &str, seed: u64, c: &Corpus, rep: &mut Report) {
    let mut rng = Rng::new(seed, 42_000);
    let cap = crate::stdout::Capture::new();
    let mut g = Gen::new(seed, 42_001);
    let own = if prop == "C13" { "raw" } else { "report" };
    let mut ms: Vec<Machine> = c.items.iter().filter(|x| x.sec == own).map(|x| x.m.clone()).collect();
    for _ in 0..if prop == "C13" { 400 } else { 160 } {
        ms.push(c.combined(&mut rng));
    }
    for mut m in ms {
        settle(&mut m);
        if prop == "C13" {
            crate::rawdump::bounded(&mut m);
            crate::rawdump::check(&cap, &m, rep);
        } else {
            crate::textrep::plain_texts(&mut g, &mut m);
            crate::textrep::check(&cap, &m, rep);
        }
        rep.count("CPUs from the coverage-guided corpus judged", 1);
        tick();
    }
    rep.count("CPUs in the coverage-guided corpus", c.items.len() as u64);
}
