//! C13: the raw dump.
use crate::gen::Gen;
use crate::machine::*;
use crate::model::guard;
use crate::report::*;
use crate::stdout::Capture;

/// All the numbers of a line (hexadecimal with 0x, or decimal).
fn numbers(line: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let start = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            let t = &line[start..i];
            let n = match t.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16),
                None => t.parse(),
            };
            if let Ok(n) = n {
                v.push(n)
            }
        } else {
            i += 1;
        }
    }
    v
}

/// The value printed after a register's name, if the line names registers.
fn named(line: &str, reg: &str) -> Option<u64> {
    let p = line.find(reg)?;
    numbers(&line[p + reg.len()..]).first().copied()
}

fn expected(m: &Machine) -> Vec<u32> {
    let mut v = Vec::new();
    for start in [0u32, 0x4000_0000, 0x8000_0000] {
        let max = m.get(start, 0).a;
        if max >= start {
            v.extend(start..=max);
        }
    }
    v
}

pub fn check(cap: &Capture, m: &Machine, r: &mut Report) {
    current(|| format!("raw dump\n{}", m.describe()));
    let rd = Rd::new(m.clone());
    // three ranges to walk, however it is done
    rd.set_budget(4096 + 8 * expected(m).len() as u64);
    let mut res = Ok(());
    let out = cap.run(|| res = guard(|| raw_cpuid::display::raw(rd.clone())));
    r.eval(Some(m.fingerprint()));
    if let Err(e) = res {
        return r.viol("panic", || e, m);
    }
    compare(&out, m, "", r);
}

pub fn compare(out: &str, m: &Machine, pre: &str, r: &mut Report) {
    let want = expected(m);
    let lines: Vec<&str> = out.lines().filter(|l| !l.trim().is_empty()).collect();
    r.count("lines compared", lines.len() as u64);
    r.max("max lines in one dump", lines.len() as u64);
    let got: Vec<(u64, u64)> = lines
        .iter()
        .map(|l| {
            let n = numbers(l);
            (n.first().copied().unwrap_or(u64::MAX), n.get(1).copied().unwrap_or(u64::MAX))
        })
        .collect();
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == *w as u64 && g.1 == 0);
    if !same {
        let at = got.iter().zip(&want).position(|(g, w)| g.0 != *w as u64 || g.1 != 0).unwrap_or(got.len().min(want.len()));
        r.viol(
            &format!("{}leaves", pre),
            || {
                format!(
                    "{} lines for {} leaves (maxima {:#x} {:#x} {:#x}); the first difference is at line {}: {:?}, expected leaf {:x?}",
                    got.len(), want.len(), m.get(0, 0).a, m.get(0x4000_0000, 0).a, m.get(0x8000_0000, 0).a, at, lines.get(at), want.get(at)
                )
            },
            m,
        );
        return;
    }
    for (l, leaf) in lines.iter().zip(&want) {
        let x = m.get(*leaf, 0);
        let n = numbers(l);
        let regs = [x.a as u64, x.b as u64, x.c as u64, x.d as u64];
        let mut ok = n.len() == 6 && n[2..6] == regs;
        // register names, where printed, stand with their values
        for (name, v) in ["eax", "ebx", "ecx", "edx"].iter().zip(regs) {
            if let Some(got) = named(l, name) {
                ok &= got == v;
            }
        }
        if !ok {
            r.viol(&format!("{}registers", pre), || format!("leaf {:#x}: {} for {:x?}", leaf, l, x), m);
        }
    }
}

fn tune(g: &mut Gen, m: &mut Machine) {
    // maxima that exercise the range ends without printing millions of lines
    let r = &mut g.rng;
    let small = |r: &mut Rng, start: u32| match r.below(8) {
        0 => start,
        1 => start + 1,
        2 => start.wrapping_sub(1 + r.below(3)).min(start), // below the start (or, for 0, the start)
        3 => start + r.below(300),
        4 if start > 0 => r.below(start),
        5 if r.chance(1, 6) => start + r.below(9000),
        _ => start + r.below(40),
    };
    for start in [0u32, 0x4000_0000, 0x8000_0000] {
        let x = small(r, start);
        m.upd(start, 0, |c| c.a = x);
    }
}

/// Keeps a dump short, mostly.
pub fn bounded(m: &mut Machine) {
    let limit = if m.fingerprint() % 16 == 0 { 9000 } else { 600 };
    for start in [0u32, 0x4000_0000, 0x8000_0000] {
        let a = m.get(start, 0).a;
        if a >= start && a - start > limit {
            m.upd(start, 0, |r| r.a = start + (a - start) % (limit + 1));
        }
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 12_000 } else { 700 };
    let mut r = Report::new("C13");
    let cap = Capture::new();
    let mut g = Gen::new(seed, 13_000);
    // every combination of small maxima
    for a in 0..4u32 {
        for b in [0, 1, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x4000_0002] {
            for c in [0, 1, 0x4000_0005, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0002] {
                let mut m = Machine::new(Dflt::Noise(seed ^ 99));
                m.upd(0, 0, |r| r.a = a);
                m.upd(0x4000_0000, 0, |r| r.a = b);
                m.upd(0x8000_0000, 0, |r| r.a = c);
                check(&cap, &m, &mut r);
                r.count("combinations of small maxima", 1);
            }
        }
    }
    // long ranges: counters narrower than the range show here
    for (k, start) in [0u32, 0x4000_0000, 0x8000_0000].into_iter().enumerate() {
        let mut m = g.synthetic();
        for s in [0u32, 0x4000_0000, 0x8000_0000] {
            m.upd(s, 0, |c| c.a = s + if s == start { 0x1_0003 + 977 * k as u32 } else { 3 });
        }
        check(&cap, &m, &mut r);
    }
    for m in crate::gen::recorded() {
        check(&cap, &m, &mut r);
    }
    for k in 0..n {
        let mut m = if k % 3 == 0 { g.mutated() } else { g.synthetic() };
        tune(&mut g, &mut m);
        if k < 6 {
            r.sample(|| format!("maxima {:#x}, {:#x}, {:#x}; {} leaves expected", m.get(0, 0).a, m.get(0x4000_0000, 0).a, m.get(0x8000_0000, 0).a, expected(&m).len()));
        }
        check(&cap, &m, &mut r);
        tick();
    }
    drop(cap);
    crate::binary::raw(thorough, &mut r);
    for (k, mut m) in crate::gen::recorded().into_iter().enumerate() {
        bounded(&mut m);
        crate::binary::raw_on(&m, k, &mut r);
    }
    for k in 0..if thorough { 3000 } else { 400 } {
        let mut m = if k % 3 == 0 { g.mutated() } else { g.synthetic() };
        tune(&mut g, &mut m);
        crate::binary::raw_on(&m, k, &mut r);
    }
    r.rule = "A case is one dump of a synthetic or recorded-and-mutated CPU with maximum leaves at, around and below each range start; its lines are compared one by one (leaf, sub-leaf, four registers) with what the reader answers. Distinct CPUs are counted.".into();
    r
}
