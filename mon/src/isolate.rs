//! C11: a decoder in a process that has decoded other CPUs, against the same
//! decoder in a process that has not.
//!
//! The process that runs this never decodes anything itself. For each CPU it
//! forks a child that decodes this CPU only ("alone"), and further children
//! that decode many CPUs one after another. CPUs come in families that differ
//! in one register, in all registers but one, or in their vendor, so that
//! state keyed by any part of a CPU is met by another CPU with the same part.
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use raw_cpuid::CpuId;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

/// Runs `f` in a child process; what it wrote, or how it ended.
fn in_child(f: impl FnOnce(&mut dyn Write)) -> Result<Vec<u8>, String> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Err("no pipe".into());
        }
        match libc::fork() {
            -1 => Err("no fork".into()),
            0 => {
                libc::close(p[0]);
                let mut w = std::io::BufWriter::new(std::fs::File::from_raw_fd(p[1]));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut w)));
                let _ = w.flush();
                libc::_exit(if r.is_ok() { 0 } else { 9 });
            }
            pid => {
                libc::close(p[1]);
                let mut out = Vec::new();
                let _ = std::fs::File::from_raw_fd(p[0]).read_to_end(&mut out);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                if st == 0 {
                    Ok(out)
                } else {
                    Err(format!("a child ended with status {:#x}", st))
                }
            }
        }
    }
}

fn hash_rows(rows: &[Row]) -> u64 {
    rows.iter().fold(rows.len() as u64, |h, r| format!("{:?}", r).bytes().fold(mix(h), |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3)))
}

fn section(d: &DumpModel<Rd>, rd: &Rd, c: &Cpu, i: usize, text: bool) -> Vec<Row> {
    let mut out = Vec::new();
    rd.set_budget(60_000);
    d.section(i, c, text, &mut out);
    out
}

fn decoder(rd: &Rd) -> Option<Cpu> {
    rd.set_budget(60_000);
    guard(|| CpuId::with_cpuid_reader(rd.clone())).ok()
}

/// Digest of every section of one CPU.
fn digests(d: &DumpModel<Rd>, m: &Machine, text: bool) -> Vec<u64> {
    let rd = Rd::new(m.clone());
    match decoder(&rd) {
        Some(c) => (0..d.d.len()).map(|i| hash_rows(&section(d, &rd, &c, i, text))).collect(),
        None => vec![1; d.d.len()],
    }
}

fn rows_text(d: &DumpModel<Rd>, m: &Machine, i: usize, text: bool) -> String {
    let rd = Rd::new(m.clone());
    match decoder(&rd) {
        Some(c) => section(d, &rd, &c, i, text).iter().map(|r| format!("{:?}", r).replace('\n', " ") + "\n").collect(),
        None => "no decoder\n".into(),
    }
}

/// A CPU and relatives of it.
fn family(g: &mut Gen, m: Machine) -> Vec<Machine> {
    let mut keys: Vec<u64> = m.map.keys().copied().collect();
    keys.sort();
    let mut v = vec![];
    if keys.is_empty() {
        return vec![m];
    }
    let word = |m: &mut Machine, g: &mut Gen, key: u64| {
        let (l, s) = ((key >> 32) as u32, key as u32);
        let reg = g.rng.below(4) as usize;
        if (l == 0 || l == 0x8000_0000) && reg == 0 {
            return;
        }
        let x = if g.rng.chance(1, 2) { m.get(l, s).get(reg) ^ 1 << g.rng.below(32) } else { g.rng.u32() };
        m.upd(l, s, |r| r.set(reg, x))
    };
    for k in 0..7 {
        let mut x = m.clone();
        match k {
            0 | 1 => {
                // one register
                let key = g.rng.pick(&keys);
                word(&mut x, g, key)
            }
            2 => {
                // the cells of one leaf, elsewhere the same
                let l = g.rng.pick(&keys) >> 32;
                for &key in keys.iter().filter(|k| *k >> 32 == l && l != 0 && l != 0x8000_0000) {
                    let r = g.rng.regs();
                    x.put(l as u32, key as u32, r);
                }
            }
            3 => {
                // all but what identifies the CPU
                for &key in &keys {
                    let (l, s) = ((key >> 32) as u32, key as u32);
                    if !matches!(l, 0 | 1 | 7 | 0x8000_0000..=0x8000_0004 | 0x4000_0000) {
                        let r = g.rng.regs();
                        x.put(l, s, r);
                    }
                }
            }
            4 => {
                // only what identifies it
                for key in [1u64 << 32, 0x8000_0001 << 32] {
                    if keys.contains(&key) {
                        word(&mut x, g, key);
                        word(&mut x, g, key);
                    }
                }
            }
            5 => {
                let v = g.vendor();
                x.set_vendor(&v)
            }
            _ => {
                // hypervisor leaves
                let r = g.rng.regs();
                x.put(0x4000_0010, 0, r);
                x.set_bit(1, 0, RC, 31, true);
                let r = g.rng.u32();
                x.upd(0x4000_0000, 0, |c| c.a = if c.a < 0x4000_0010 { 0x4000_0010 + r % 4 } else { c.a });
            }
        }
        v.push(x);
    }
    v.insert(0, m);
    v
}

pub fn run(seed: u64, shard: usize, thorough: bool) -> Report {
    let mut rep = Report::new("C11");
    let mut g = Gen::new(seed, 47_000 + shard as u64);
    let c = crate::corpus::load_corpus();
    let mut fams: Vec<Vec<Machine>> = Vec::new();
    let n = if thorough { 300 } else { 70 };
    for k in 0..n {
        let m = if k < 3 { recorded()[k].clone() } else { g.machine() };
        fams.push(family(&mut g, m));
    }
    if !c.items.is_empty() {
        for _ in 0..if thorough { 300 } else { 70 } {
            let m = if g.rng.chance(1, 2) {
                c.combined(&mut g.rng)
            } else {
                let k = g.rng.below(c.items.len() as u32) as usize;
                c.items[k].m.clone()
            };
            fams.push(family(&mut g, m));
        }
    }
    for f in &mut fams {
        for m in f.iter_mut() {
            crate::corpus::settle(m);
        }
    }
    let d = dumpers::<Rd>();
    let ms: Vec<(usize, &Machine)> = fams.iter().enumerate().flat_map(|(i, f)| f.iter().map(move |m| (i, m))).collect();
    // each alone
    let mut alone: Vec<Vec<u64>> = Vec::new();
    for (k, (_, m)) in ms.iter().enumerate() {
        let r = in_child(|w| {
            for h in digests(&d, m, k % 2 == 0) {
                let _ = w.write_all(&h.to_le_bytes());
            }
        });
        match r {
            Ok(b) if b.len() == 8 * d.d.len() => alone.push(b.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()),
            Ok(_) => alone.push(Vec::new()),
            Err(e) => {
                rep.viol("isolate:child", || e, m);
                alone.push(Vec::new())
            }
        }
        rep.count("CPUs decoded in a process of their own", 1);
    }
    // sections in the other order, each by a decoder of its own, alone
    let mut plans: Vec<Vec<usize>> = Vec::new();
    let all: Vec<usize> = (0..ms.len()).collect();
    plans.push(all.clone());
    plans.push(all.iter().rev().copied().collect());
    for _ in 0..if thorough { 8 } else { 3 } {
        // families in another order, and their members
        let mut p = all.clone();
        let key: Vec<u64> = fams.iter().map(|_| g.rng.u64()).collect();
        let own: Vec<u64> = p.iter().map(|_| g.rng.u64()).collect();
        p.sort_by_key(|&k| (key[ms[k].0], own[k]));
        plans.push(p);
    }
    let mut shuffled = all.clone();
    let own: Vec<u64> = all.iter().map(|_| g.rng.u64()).collect();
    shuffled.sort_by_key(|&k| own[k]);
    plans.push(shuffled);
    for (pi, plan) in plans.iter().enumerate() {
        let r = in_child(|w| {
            let mut told = 0;
            for &k in plan {
                if alone[k].is_empty() {
                    continue;
                }
                let (m, text) = (ms[k].1, k % 2 == 0);
                let rd = Rd::new(m.clone());
                let Some(mut c) = decoder(&rd) else { continue };
                let mut order: Vec<usize> = (0..d.d.len()).collect();
                if pi % 2 == 1 {
                    order.reverse();
                }
                for i in order {
                    if pi % 3 == 2 {
                        let Some(x) = decoder(&rd) else { break };
                        c = x;
                    }
                    let rows = section(&d, &rd, &c, i, text);
                    if hash_rows(&rows) != alone[k][i] && told < 40 {
                        told += 1;
                        let _ = writeln!(w, "@ {} {}", k, i);
                        for r in &rows {
                            let _ = writeln!(w, "{}", format!("{:?}", r).replace('\n', " "));
                        }
                    }
                }
            }
            let _ = writeln!(w, "@ end");
        });
        match r {
            Err(e) => rep.viol("isolate:child", || e, ms[plan[0]].1),
            Ok(b) => {
                let t = String::from_utf8_lossy(&b).into_owned();
                if !t.ends_with("@ end\n") {
                    rep.viol("isolate:child", || format!("a process that decoded {} CPUs did not finish", plan.len()), ms[plan[0]].1);
                }
                for part in t.split("@ ").filter(|x| !x.is_empty() && *x != "end\n") {
                    let (head, rows) = part.split_once('\n').unwrap_or((part, ""));
                    let Some((k, i)) = head.split_once(' ').and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))) else { continue };
                    let m = ms[k].1;
                    let again = in_child(|w| {
                        let _ = w.write_all(rows_text(&d, m, i, k % 2 == 0).as_bytes());
                    })
                    .unwrap_or_default();
                    let again = String::from_utf8_lossy(&again).into_owned();
                    let x = again.lines().zip(rows.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("alone {}; after other CPUs {}", a, b));
                    let x = x.unwrap_or_else(|| format!("{} values alone, {} after other CPUs", again.lines().count(), rows.lines().count()));
                    rep.viol(&format!("isolate:{}", d.d[i].sec), || x, m);
                }
            }
        }
        for &k in plan {
            rep.eval(Some(ms[k].1.fingerprint() ^ mix(77)));
        }
        rep.count("CPUs decoded in a process that decoded others before", plan.len() as u64);
        rep.count("processes that decoded many CPUs", 1);
    }
    rep.count("sections compared with a process that decoded one CPU only", (plans.len() * ms.len() * d.d.len()) as u64);
    rep
}
