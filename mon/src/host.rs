//! C23: the same oracles on hosts of other word sizes and byte orders. Runs
//! under the interpreter, which takes the host as a parameter; every expected
//! value is computed from the registers with fixed-size arithmetic.
use crate::fields::{base, check_path};
use crate::gen::Gen;
use crate::machine::*;
use crate::model::*;
use crate::report::*;

/// CPU number `k` of a seed: the same on every host.
fn machine(g: &mut Gen, seed: u64, k: usize) -> Machine {
    g.rng = Rng::new(seed ^ 0x23, k as u64);
    match k % 4 {
        0 => g.synthetic(),
        1 => {
            let mut m = g.synthetic();
            m.at_least(0x20);
            m.at_least(0x8000_0026);
            g.strings(&mut m);
            m
        }
        2 => g.mutated(),
        _ => g.machine(),
    }
}

/// Keeps enumerations short: an interpreter is slow.
fn short(m: &mut Machine) {
    for (l, mask) in [(0x17, 7), (0x18, 7)] {
        m.upd(l, 0, |r| r.a &= mask);
    }
}

fn name() -> String {
    format!("{}, {}-bit, {}-endian", std::env::consts::ARCH, usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" })
}

pub fn run(seed: u64, shard: usize, n: usize, r: &mut Report) {
    let host = name();
    let mut g = Gen::new(seed, 0);
    let (ps, qs, o) = (paths::<Rd>(), queries::<Rd>(), crate::iters::Oracle::new());
    let chosen = |k: usize| k % 16 == shard % 16;
    for k in 0..n {
        let mut m = machine(&mut g, seed, k * 16 + shard);
        short(&mut m);
        let rd = Rd::new(m);
        crate::presence::check_machine(&rd, &qs, r);
        for (i, p) in ps.iter().enumerate() {
            check_path(p, i, "*", &rd, r);
        }
        if crate::iters::all_finite(rd.machine(), 80) {
            crate::iters::check_machine(&o, &rd, r);
        }
        crate::iters::check_desc(&rd, r);
        r.count(&format!("CPUs decoded on {}", host), 1);
    }
    // every structure, with all bits and with random registers
    for (i, p) in ps.iter().enumerate().filter(|x| chosen(x.0)) {
        for (j, v) in [INTEL, AMD, HYGON].into_iter().enumerate() {
            let mut rng = Rng::new(seed ^ 0x2323, (i * 4 + j) as u64);
            for ones in [true, false] {
                let mut m = base(v, Dflt::Zero);
                for &(l, s) in p.cells {
                    if l != 0 {
                        let x = if ones { u32::MAX } else { 0 };
                        let c = Regs::new(x, x, x, x);
                        m.put(l, s, if ones { c } else { rng.regs() });
                    }
                }
                (p.prep)(&mut m);
                if check_path(p, i, "*", &Rd::new(m), r) {
                    r.count(&format!("structures decoded on {}", host), 1);
                }
            }
        }
    }
    crate::strings::small(seed ^ shard as u64, 2, r);
}
