//! C14: the human-readable report.
use crate::gen::Gen;
use crate::machine::*;
use crate::model::guard;
use crate::report::*;
use crate::reportref::{reference, Tok};
use crate::stdout::Capture;
use raw_cpuid::CpuId;

fn strip_ansi(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            if it.peek() == Some(&'[') {
                it.next();
                for c in it.by_ref() {
                    if ('\x40'..='\x7e').contains(&c) {
                        break;
                    }
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Text lines and table rows, without borders, colours and alignment.
pub fn tokens(out: &str) -> Vec<Tok> {
    let mut v = Vec::new();
    for line in strip_ansi(out).lines() {
        let t = line.trim();
        if t.is_empty() || t.chars().all(|c| ('\u{2500}'..='\u{257f}').contains(&c) || c.is_whitespace()) && !t.contains('\u{2502}') {
            continue;
        }
        if t.contains('\u{2502}') {
            let cells: Vec<String> = t.trim_matches('\u{2502}').split('\u{2502}').map(squeeze).collect();
            v.push(Tok::Row(cells));
        } else {
            v.push(Tok::Text(squeeze(t)));
        }
    }
    v
}

/// Titles of address-translation structures number the entries, not the
/// sub-leaves; the number is not judged.
fn norm(t: &Tok) -> Tok {
    match t {
        Tok::Text(s) if s.contains("(0x18/") => Tok::Text(s.split("(0x18/").next().unwrap().to_string()),
        Tok::Text(s) if s.starts_with("cpuid") || s.starts_with("CpuId") => Tok::Text("CpuId".into()),
        t => t.clone(),
    }
}

pub fn compare(got: &[Tok], want: &[Tok], r: &mut Report, m: &Machine) {
    let mut section = String::new();
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i).map(norm), want.get(i).map(norm));
        if let Some(Tok::Text(t)) = &w {
            section = t.split(['=', '/']).next().unwrap_or("").trim().to_string();
        }
        if g != w {
            let label = match &w {
                Some(Tok::Row(r)) => r[..r.len() - 1].join("/"),
                Some(Tok::Text(_)) => String::new(),
                None => "end".into(),
            };
            return r.viol(&format!("{}:{}", section, label), || format!("in section {:?} the report shows {:?} where the accessors say {:?}", section, got.get(i), want.get(i)), m);
        }
    }
}

pub fn check(cap: &Capture, m: &Machine, r: &mut Report) {
    current(|| format!("report\n{}", m.describe()));
    let rd = Rd::new(m.clone());
    rd.set_budget(200_000);
    let mut res = Ok(());
    let out = cap.run(|| {
        res = guard(|| {
            let c = CpuId::with_cpuid_reader(rd.clone());
            raw_cpuid::display::markdown(c)
        })
    });
    r.eval(Some(m.fingerprint()));
    r.max("max reads for one report", rd.reads());
    let want = guard(|| reference(&CpuId::with_cpuid_reader(Rd::new(m.clone()))));
    match (res, want) {
        (Err(e), Ok(_)) => r.viol("panic:report", || e, m),
        (_, Err(e)) => r.viol("panic:accessors", || e, m),
        (Ok(()), Ok(want)) => {
            let got = tokens(&out);
            r.count("rows and titles compared", got.len() as u64);
            r.count("titles compared", got.iter().filter(|t| matches!(t, Tok::Text(_))).count() as u64);
            r.max("max rows and titles in one report", got.len() as u64);
            compare(&got, &want, r, m);
        }
    }
}

/// Texts the report passes through its markdown formatter are kept free of
/// markup, so that what is printed is the text itself.
pub fn plain_texts(g: &mut Gen, m: &mut Machine) {
    const OK: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 ()@.";
    let mut put = |m: &mut Machine, leaf: u32, sub: u32| {
        let mut x = m.get(leaf, sub);
        for k in 0..4 {
            let mut b = x.get(k).to_le_bytes();
            for c in b.iter_mut() {
                if !OK.contains(c) {
                    *c = g.rng.pick(OK);
                }
            }
            x.set(k, u32::from_le_bytes(b));
        }
        m.put(leaf, sub, x);
    };
    for l in 2..=4 {
        put(m, 0x8000_0000 + l, 0);
    }
    for s in 1..=3 {
        put(m, 0x17, s);
    }
    let v = m.vendor_bytes();
    if !v.iter().all(|c| OK.contains(c)) {
        m.set_vendor([INTEL, AMD, HYGON, b"CentaurHauls"][g.rng.below(4) as usize]);
    }
}

/// Rows of the report that changed between two machines, by label.
pub fn run(seed: u64, thorough: bool) -> Report {
    let n = if thorough { 6000 } else { 150 };
    let mut r = Report::new("C14");
    let cap = Capture::new();
    let mut g = Gen::new(seed, 14_000);
    for mut m in crate::gen::recorded() {
        plain_texts(&mut g, &mut m);
        check(&cap, &m, &mut r);
    }
    // all structures present, register bits walked: bit k of every register
    for v in [INTEL, AMD] {
        for k in 0..32u32 {
            let mut m = Machine::new(Dflt::Zero);
            for l in crate::gen::BASIC_LEAVES.iter().copied().chain(crate::gen::ext_leaves()) {
                let x = g.rng.u32();
                m.put(l, 0, Regs::new(1 << k, x, 1 << (31 - k), !(1 << k)));
            }
            g.trees(&mut m);
            for s in 0..2 {
                let x = g.rng.u32();
                m.put(7, s, Regs::new(x, 1 << k, !x, 1 << (31 - k)));
            }
            m.set_vendor(v);
            m.upd(0, 0, |r| r.a = 0x24);
            m.upd(0x8000_0000, 0, |r| r.a = 0x8000_0026);
            m.set_bit(7, 0, RB, 2, true);
            m.set_bit(0x8000_0001, 0, RC, 2, true);
            plain_texts(&mut g, &mut m);
            check(&cap, &m, &mut r);
            r.count("walked-bit CPUs", 1);
            tick();
        }
    }
    for k in 0..n {
        let mut m = if k % 2 == 0 { g.synthetic() } else { g.machine() };
        if k % 2 == 0 {
            // everything the vendor can have
            m.at_least(0x23);
            m.at_least(0x8000_0026);
        }
        plain_texts(&mut g, &mut m);
        if k < 5 {
            r.sample(|| format!("vendor {:?}, leaf 1 {:x?}, max leaves {:#x}/{:#x}", String::from_utf8_lossy(&m.vendor_bytes()), m.get(1, 0), m.max_basic(), m.max_ext()));
        }
        check(&cap, &m, &mut r);
        tick();
    }
    drop(cap);
    crate::binary::report(thorough, &mut r);
    for (k, mut m) in crate::gen::recorded().into_iter().enumerate() {
        plain_texts(&mut g, &mut m);
        crate::binary::report_on(&m, k, &mut r);
    }
    for k in 0..if thorough { 2000 } else { 250 } {
        let mut m = if k % 2 == 0 { g.synthetic() } else { g.machine() };
        if k % 3 == 0 {
            m.at_least(0x23);
            m.at_least(0x8000_0026);
        }
        plain_texts(&mut g, &mut m);
        crate::binary::report_on(&m, k, &mut r);
    }
    r.rule = "A case is one report printed for a synthetic, recorded or mutated CPU; its titles and table rows, colours and borders removed, are compared one by one with the reference list of sections, labels and accessor values. Distinct CPUs are counted.".into();
    r
}
