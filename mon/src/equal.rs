//! C20: what `==`, `!=`, copies and `all_zero` say about results.
use crate::fields::base;
use crate::gen::*;
use crate::machine::*;
use crate::model::*;
use crate::report::*;
use crate::val::*;
use raw_cpuid::{self as rc, CpuId, CpuIdResult};

fn laws(name: &str, s: Same, show: &dyn Fn() -> String, m: &Machine, rep: &mut Report) {
    if !s.own {
        rep.viol(&format!("{}:irreflexive", name), || format!("a value does not equal itself: {}", show()), m);
    }
    if s.eq == s.ne {
        rep.viol(&format!("{}:ne", name), || format!("== is {} and != is {}: {}", s.eq, s.ne, show()), m);
    }
    if s.eq != s.eq_back {
        rep.viol(&format!("{}:asymmetric", name), || format!("a == b is {} and b == a is {}: {}", s.eq, s.eq_back, show()), m);
    }
}

fn values(p: &Path<Rd>, c: &Cpu) -> Vec<V> {
    let mut v = Vec::new();
    let _ = (p.eval)(c, &|_| true, &mut |_, x| v.push(x));
    v
}

/// A structure against its clone; false if there is none.
fn copies(p: &Path<Rd>, a: &Rd, rep: &mut Report) -> bool {
    let m = a.machine();
    if !(p.present)(m) || !(p.vendor_ok)(m.vend()) {
        return false;
    }
    a.set_budget(100_000);
    let show = || format!("{} decoded from {:x?} ({:?})", p.id, p.ctx(m).s, m.vend());
    let c = CpuId::with_cpuid_reader(a.clone());
    match guard(|| (p.dup)(&c)) {
        Err(e) => rep.viol(&format!("{}:clone:panic", p.id), || e, m),
        Ok(None) => return false,
        Ok(Some(d)) => {
            rep.count("structures compared with their clones", 1);
            rep.eval(None);
            if let Some(k) = (0..d.original.len()).find(|k| d.original[*k] != d.clone[*k]) {
                rep.viol(&format!("{}:clone", p.id), || format!("{} is {:?}, and {:?} in a clone: {}", p.info[k].name, d.original[k], d.clone[k], show()), m);
            }
            if d.same.is_some_and(|s| !s.eq) {
                rep.viol(&format!("{}:clone-unequal", p.id), || format!("a clone does not equal its original: {}", show()), m);
            }
        }
    }
    true
}

/// One structure of two CPUs.
fn compare(p: &Path<Rd>, a: &Rd, b: &Rd, rep: &mut Report) -> bool {
    let (ma, mb) = (a.machine(), b.machine());
    for m in [ma, mb] {
        if !(p.present)(m) || !(p.vendor_ok)(m.vend()) {
            return false;
        }
    }
    a.set_budget(100_000);
    b.set_budget(100_000);
    let r = guard(|| {
        let (ca, cb) = (CpuId::with_cpuid_reader(a.clone()), CpuId::with_cpuid_reader(b.clone()));
        let s = (p.eq)(&ca, &cb)?;
        Some((s, values(p, &ca), values(p, &cb)))
    });
    let (s, va, vb) = match r {
        Err(e) => {
            rep.viol(&format!("{}:panic", p.id), || e, ma);
            return true;
        }
        Ok(None) => return false,
        Ok(Some(x)) => x,
    };
    let (ra, rb) = (p.ctx(ma), p.ctx(mb));
    let show = || format!("{} decoded from {:x?} ({:?}) and from {:x?} ({:?})", p.id, ra.s, ra.vend, rb.s, rb.vend);
    laws(p.id, s, &show, ma, rep);
    let alike = ra.s == rb.s && ma.get(0, 0) == mb.get(0, 0);
    if s.eq && va != vb {
        let k = va.iter().zip(&vb).position(|(x, y)| x != y).unwrap_or(0);
        rep.viol(&format!("{}:too-equal", p.id), || format!("two values compare equal although {} is {:?} in one and {:?} in the other: {}", p.info[k].name, va.get(k), vb.get(k), show()), ma);
    }
    if !s.eq && alike {
        rep.viol(&format!("{}:unequal", p.id), || format!("two values decoded from the same registers compare unequal: {}", show()), ma);
    }
    let mut k = mix(p.cells.first().map_or(0, |c| c.0 as u64 + (c.1 as u64) << 32) ^ p.aux);
    for x in ra.s.iter().chain(&rb.s) {
        k = mix(k ^ (x.a as u64) << 32 ^ x.b as u64);
        k = mix(k ^ (x.c as u64) << 32 ^ x.d as u64);
    }
    rep.eval(Some(k));
    rep.count(if alike { "pairs with equal registers" } else if s.eq { "pairs that differ and compare equal" } else { "pairs that compare unequal" }, 1);
    true
}

/// A change of the structure's registers: hard to notice for an equality that
/// sums, samples or truncates them.
fn tweak(p: &Path<Rd>, m: &mut Machine, rng: &mut Rng) {
    let (l, s) = rng.pick(p.cells);
    match rng.below(7) {
        0 => {
            let (i, j) = (rng.below(4) as usize, rng.below(4) as usize);
            m.upd(l, s, |r| {
                let t = r.get(i);
                r.set(i, r.get(j));
                r.set(j, t);
            });
        }
        1 => {
            let i = rng.below(4) as usize;
            m.upd(l, s, |r| r.set(i, r.get(i).swap_bytes()));
        }
        2 => {
            let i = rng.below(4) as usize;
            let d = rng.below(32);
            m.upd(l, s, |r| r.set(i, r.get(i).rotate_left(d)));
        }
        3 => {
            // two bits exchanged between registers
            let (i, j, a) = (rng.below(4) as usize, rng.below(4) as usize, rng.below(32));
            m.upd(l, s, |r| {
                r.set(i, r.get(i) ^ 1 << a);
                r.set(j, r.get(j) ^ 1 << a);
            });
        }
        4 => {
            // two slots exchanged
            let (k, t) = rng.pick(p.cells);
            let (x, y) = (m.get(l, s), m.get(k, t));
            m.put(l, s, y);
            m.put(k, t, x);
        }
        5 => {
            let i = rng.below(4) as usize;
            m.upd(l, s, |r| r.set(i, !r.get(i)));
        }
        _ => {
            let x = rng.regs();
            let i = rng.below(4) as usize;
            m.upd(l, s, |r| r.set(i, x.a));
        }
    }
}

fn structures(pi: usize, seed: u64, thorough: bool, rep: &mut Report) {
    let ps = paths::<Rd>();
    let p = &ps[pi];
    let mut rng = Rng::new(seed, 20_000 + pi as u64);
    let mut able = false;
    for v in [INTEL, AMD, HYGON, b"CentaurHauls"] {
        for round in 0..if thorough { 24 } else { 4 } {
            let mut m = base(v, match round { 0 => Dflt::Zero, 1 => Dflt::Ones, _ => Dflt::Noise(rng.u64()) });
            (p.prep)(&mut m);
            for &(l, s) in p.cells {
                let r = m.get(l, s);
                m.put(l, s, r);
            }
            let a = Rd::new(m.clone());
            let b = Rd::new(m.clone());
            current(|| format!("comparisons of {}\n{}", p.id, m.describe()));
            let eq = compare(p, &a, &b, rep);
            if !copies(p, &a, rep) && !eq {
                continue;
            }
            able |= eq;
            // the rest of the CPU does not matter
            let mut o = Machine::new(Dflt::Noise(rng.u64()));
            o.map = m.map.clone();
            for &(l, s) in p.cells {
                let r = m.get(l, s);
                o.put(l, s, r);
            }
            (p.prep)(&mut o);
            compare(p, &a, &Rd::new(o), rep);
            for &(l, s) in p.cells {
                for reg in 0..4 {
                    if l == 0 && reg == 0 {
                        continue;
                    }
                    let orig = m.get(l, s).get(reg);
                    for bit in 0..32 {
                        b.with(|m| m.upd(l, s, |r| r.set(reg, orig ^ 1 << bit)));
                        compare(p, &a, &b, rep);
                        copies(p, &b, rep);
                    }
                    b.with(|m| m.upd(l, s, |r| r.set(reg, orig)));
                }
            }
            for _ in 0..300 {
                let mut x = m.clone();
                for _ in 0..1 + rng.below(2) {
                    tweak(p, &mut x, &mut rng);
                }
                if p.cells[0].0 == 0 {
                    x.put(0, 0, Regs { a: m.get(0, 0).a, ..x.get(0, 0) });
                }
                (p.prep)(&mut x);
                let x = Rd::new(x);
                compare(p, &a, &x, rep);
                copies(p, &x, rep);
            }
            // another vendor with the same registers
            let mut x = m.clone();
            x.set_vendor(rng.pick(&[INTEL, AMD, HYGON, b"CentaurHauls"]));
            compare(p, &a, &Rd::new(x), rep);
        }
    }
    if able {
        rep.count("structure types that can be compared", 1);
        rep.exhaustive.push(format!("{}: every single-bit difference, on {} backgrounds per vendor", p.id, if thorough { 24 } else { 4 }));
    }
}

fn raw(a: [u32; 4], b: [u32; 4], rep: &mut Report) {
    let f = |x: [u32; 4]| CpuIdResult { eax: x[0], ebx: x[1], ecx: x[2], edx: x[3] };
    let (x, y) = (f(a), f(b));
    let m = Machine::new(Dflt::Zero);
    let show = || format!("CPUID results {:x?} and {:x?}", a, b);
    let r = guard(|| ((&Pair(&x, &y)).same(), x.clone() == x && x.to_v() == x.clone().to_v(), x.all_zero(), y.all_zero()));
    let (s, copy, za, zb) = match r {
        Err(e) => return rep.viol("CpuIdResult:panic", || e, &m),
        Ok(x) => x,
    };
    let s = s.unwrap();
    laws("CpuIdResult", s, &show, &m, rep);
    if s.eq != (a == b) {
        rep.viol("CpuIdResult:eq", || format!("== is {}: {}", s.eq, show()), &m);
    }
    if !copy {
        rep.viol("CpuIdResult:copy", || format!("a copy differs: {}", show()), &m);
    }
    for (z, v) in [(za, a), (zb, b)] {
        if z != (v == [0; 4]) {
            rep.viol("CpuIdResult:all_zero", || format!("all_zero() is {} for {:x?}", z, v), &m);
        }
    }
    rep.count("pairs of raw results", 1);
    rep.eval(Some(mix(a.iter().chain(&b).fold(7, |h, x| mix(h ^ *x as u64)))));
}

fn results(seed: u64, n: u32, rep: &mut Report) {
    let mut rng = Rng::new(seed, 21_000);
    for i in 0..4 {
        for b in 0..32 {
            let mut x = [0; 4];
            x[i] = 1 << b;
            raw(x, [0; 4], rep);
            raw(x, x, rep);
            for j in 0..4 {
                let mut y = [0; 4];
                y[j] = 1 << b;
                raw(x, y, rep);
                let mut y = x;
                y[j] ^= 1 << (31 - b);
                raw(x, y, rep);
            }
            let o = rng.regs();
            let o = [o.a, o.b, o.c, o.d];
            let mut y = o;
            y[i] ^= 1 << b;
            raw(o, y, rep);
            let mut y = o;
            y.swap(i, (b % 4) as usize);
            raw(o, y, rep);
            raw([u32::MAX; 4], y, rep);
        }
    }
    for _ in 0..n {
        let o = rng.regs();
        let o = [o.a, o.b, o.c, o.d];
        let mut y = o;
        match rng.below(5) {
            0 => y[rng.below(4) as usize] ^= 1 << rng.below(32),
            1 => y.swap(rng.below(4) as usize, rng.below(4) as usize),
            2 => {
                let (i, d) = (rng.below(4) as usize, rng.u32());
                y[i] ^= d;
                y[(i + 1) % 4] ^= d;
            }
            3 => {
                let (i, d) = (rng.below(4) as usize, rng.below(1000));
                y[i] = y[i].wrapping_add(d);
                y[(i + 2) % 4] = y[(i + 2) % 4].wrapping_sub(d);
            }
            _ => y.reverse(),
        }
        raw(o, y, rep);
        raw(o, o, rep);
    }
}

/// All pairs of an enumeration: equal exactly when written alike.
macro_rules! cases {
    ($rep:ident, $name:literal, $list:expr) => {{
        let v = $list;
        let m = Machine::new(Dflt::Zero);
        for (i, (x, tx)) in v.iter().enumerate() {
            for (j, (y, ty)) in v.iter().enumerate() {
                #[allow(clippy::needless_borrow)]
                let r = guard(|| (&Pair(x, y)).same());
                let show = || format!("{} {} and {}", $name, tx, ty);
                match r {
                    Err(e) => $rep.viol(&format!("{}:panic", $name), || e, &m),
                    Ok(None) => {}
                    Ok(Some(s)) => {
                        laws($name, s, &show, &m, $rep);
                        if s.eq != (tx == ty) {
                            $rep.viol(&format!("{}:eq", $name), || format!("== is {}: {}", s.eq, show()), &m);
                        }
                        $rep.count("pairs of enumerated values", 1);
                        $rep.eval(Some(mix(mix($name.len() as u64 ^ ($name.as_bytes()[3] as u64) << 8) ^ (i as u64) << 32 ^ j as u64)));
                    }
                }
            }
        }
    }};
}
macro_rules! named {
    ($($e:expr),* $(,)?) => { vec![$(($e, stringify!($e).to_string())),*] };
}

fn enumerations(seed: u64, rep: &mut Report) {
    let mut rng = Rng::new(seed, 22_000);
    let mut nums: Vec<u32> = vec![0, 1, 2, 3, 4, 8, 9, 10, 13, 16, 254, 255, 256, 257, 65535, 65536, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX];
    for _ in 0..20 {
        nums.push(rng.u32());
    }
    nums.sort();
    nums.dedup();
    {
        use rc::CacheType::*;
        cases!(rep, "CacheType", named![Null, Data, Instruction, Unified, Reserved]);
    }
    {
        use rc::TopologyType::*;
        cases!(rep, "TopologyType", named![Invalid, SMT, Core, Module, Tile, Die]);
    }
    {
        use rc::ExtendedRegisterType::*;
        let mut v = named![Avx, MpxBndregs, MpxBndcsr, Avx512Opmask, Avx512ZmmHi256, Avx512ZmmHi16, Pkru, Pt, Hdc];
        v.extend(nums.iter().map(|&n| (Unknown(n), format!("Unknown({})", n))));
        cases!(rep, "ExtendedRegisterType", v);
    }
    {
        use rc::ExtendedRegisterStateLocation::*;
        cases!(rep, "ExtendedRegisterStateLocation", named![Xcr0, Ia32Xss]);
    }
    {
        use rc::DatType::*;
        cases!(rep, "DatType", named![Null, DataTLB, InstructionTLB, UnifiedTLB, LoadOnly, StoreOnly, Unknown]);
    }
    {
        use rc::Associativity::*;
        let mut v = named![Disabled, DirectMapped, FullyAssociative, Unknown];
        v.extend((0..=255u8).map(|n| (NWay(n), format!("NWay({})", n))));
        cases!(rep, "Associativity", v);
    }
    {
        use rc::HierarchyLevelType::*;
        let mut v = named![Core, Complex, Die, Socket, Reserved];
        v.extend([(Unknown(0), "Unknown(0)".to_string())]);
        v.extend((1..=255u8).map(|n| (Unknown(n), format!("Unknown({})", n))));
        cases!(rep, "HierarchyLevelType", v);
    }
    {
        use rc::Hypervisor::*;
        let mut v = named![VMware, Xen, HyperV, KVM, QEMU, Bhyve, QNX, ACRN];
        let mut seen = std::collections::HashSet::new();
        for _ in 0..150 {
            let (a, b, c) = (rng.pick(&nums[..]), rng.pick(&nums[..6]), rng.pick(&nums[..]));
            for (a, b, c) in [(a, b, c), (c, b, a), (b, a, c), (a, c, b)] {
                if seen.insert((a, b, c)) {
                    v.push((Unknown(a, b, c), format!("Unknown({}, {}, {})", a, b, c)));
                }
            }
        }
        cases!(rep, "Hypervisor", v);
    }
}

/// Descriptor lists at any position: equal ones yield the same rest.
fn descriptors(seed: u64, n: u32, rep: &mut Report) {
    let mut rng = Rng::new(seed, 23_000);
    let mut m = base(INTEL, Dflt::Zero);
    for _ in 0..n {
        let x = rng.regs();
        m.put(2, 0, Regs::new(x.a & 0x7fff_ff00 | 1, x.b & 0x7fff_ffff, x.c & 0x7fff_ffff, x.d & 0x7fff_ffff));
        let mut o = m.clone();
        if rng.chance(2, 3) {
            let (i, b) = (rng.below(4) as usize, rng.below(31));
            o.upd(2, 0, |r| r.set(i, r.get(i) ^ 1 << b));
        }
        let alike = o.get(2, 0) == m.get(2, 0);
        let (ka, kb) = (rng.below(18), if rng.chance(1, 3) { rng.below(18) } else { 99 });
        let kb = if kb == 99 { ka } else { kb };
        let r = guard(|| {
            let (ca, cb) = (CpuId::with_cpuid_reader(Rd::new(m.clone())), CpuId::with_cpuid_reader(Rd::new(o.clone())));
            let (mut a, mut b) = (ca.get_cache_info()?, cb.get_cache_info()?);
            for _ in 0..ka {
                a.next();
            }
            for _ in 0..kb {
                b.next();
            }
            #[allow(clippy::needless_borrow)]
            let s = (&Pair(&a, &b)).same()?;
            // items, or clones of them
            let list = |i: rc::CacheInfoIter, dup: bool| {
                i.take(32)
                    .map(|x| {
                        #[allow(clippy::clone_on_copy)]
                        let x = if dup { x.clone() } else { x };
                        #[allow(clippy::clone_on_copy)]
                        let t = if dup { x.typ.clone() } else { x.typ };
                        (x.num, format!("{:?}", t), x.desc())
                    })
                    .collect::<Vec<_>>()
            };
            let c = a.clone();
            #[allow(clippy::needless_borrow)]
            let t = (&Pair(&a, &c)).same()?;
            Some((s, t, list(a, false), list(b, false), list(c, true)))
        });
        let (s, t, a, b, c) = match r {
            Err(e) => return rep.viol("CacheInfoIter:panic", || e, &m),
            Ok(None) => return,
            Ok(Some(x)) => x,
        };
        let show = || format!("descriptor lists of {:x?} after {} items and of {:x?} after {}", m.get(2, 0), ka, o.get(2, 0), kb);
        laws("CacheInfoIter", s, &show, &m, rep);
        if s.eq && a != b {
            rep.viol("CacheInfoIter:too-equal", || format!("they compare equal but yield {:x?} and {:x?}: {}", a, b, show()), &m);
        }
        if alike && ka == kb && !s.eq {
            rep.viol("CacheInfoIter:unequal", || format!("they compare unequal: {}", show()), &m);
        }
        if !t.eq || a != c {
            rep.viol("CacheInfoIter:clone", || format!("a clone yields {:x?} instead of {:x?}, == is {}: {}", c, a, t.eq, show()), &m);
        }
        rep.count("pairs of descriptor lists", 1);
        rep.eval(Some(mix(m.fingerprint() ^ mix(o.fingerprint()) ^ ((ka as u64) << 8 | kb as u64))));
    }
}

/// Later entries of the enumerations, compared pairwise.
fn entries(job: u64, seed: u64, rep: &mut Report) {
    let mut g = Gen::new(seed, 24_000 + job);
    for _ in 0..150 {
        let mut m = g.machine();
        m.at_least(0x1f);
        m.at_least(0x8000_0026);
        if !crate::iters::all_finite(&m, 60) {
            continue;
        }
        // an enumeration with entries that differ little
        for (l, r, mask, one) in [(4u32, RA, 31u32, 1u32), (0x8000_001D, RA, 31, 1), (0xB, RC, 0xff00, 0x100), (0x1F, RC, 0xff00, 0x100), (0x8000_0026, RC, 0xff00, 0x100)] {
            let x = m.get(l, 0);
            for s in 0..6 {
                let mut y = x;
                if s > 0 && g.rng.chance(3, 4) {
                    let (i, b) = (g.rng.below(4) as usize, g.rng.below(32));
                    y.set(i, y.get(i) ^ 1 << b);
                }
                y.set(r, y.get(r) & !mask | if s == 5 { 0 } else { one });
                m.put(l, s, y);
            }
        }
        let rd = Rd::new(m);
        let m = rd.machine();
        current(|| format!("entries compared\n{}", m.describe()));
        rd.set_budget(1_000_000);
        macro_rules! list {
            ($name:literal, $leaf:expr, $accs:ident, $get:expr) => {
                let accs = crate::types::$accs::<Rd>();
                let r = guard(|| {
                    let c = CpuId::with_cpuid_reader(rd.clone());
                    let get = $get;
                    let v: Vec<_> = get(&c).into_iter().flatten().take(12).collect();
                    let vals: Vec<Vec<V>> = v.iter().map(|x| accs.iter().map(|a| (a.get)(x)).collect()).collect();
                    let mut out = Vec::new();
                    for i in 0..v.len() {
                        for j in 0..v.len() {
                            #[allow(clippy::needless_borrow)]
                            if let Some(s) = (&Pair(&v[i], &v[j])).same() {
                                out.push((i, j, s, vals[i] == vals[j]));
                            }
                        }
                    }
                    out
                });
                match r {
                    Err(e) => rep.viol(concat!($name, ":panic"), || e, m),
                    Ok(out) => {
                        for (i, j, s, agree) in out {
                            let show = || format!("entries {} and {} of {}", i, j, $name);
                            laws($name, s, &show, m, rep);
                            if s.eq && !agree {
                                rep.viol(concat!($name, ":too-equal"), || format!("they compare equal but their accessors disagree: {}", show()), m);
                            }
                            if !s.eq && i == j {
                                rep.viol(concat!($name, ":irreflexive"), || show(), m);
                            }
                            rep.eval(Some(mix(m.fingerprint() ^ mix($leaf ^ (i as u64) << 40 ^ (j as u64) << 48))));
                            rep.count("pairs of entries of one enumeration", 1);
                        }
                    }
                }
            };
        }
        list!("cache parameters", 4u64, cache_parameter, |c: &Cpu| c.get_cache_parameters());
        list!("extended topology", 0xBu64, extended_topology_level, |c: &Cpu| c.get_extended_topology_info());
        list!("extended topology v2", 0x1Fu64, extended_topology_level, |c: &Cpu| c.get_extended_topology_info_v2());
        list!("extended CPU topology", 0x26u64, extended_cpu_topology_level, |c: &Cpu| c.get_extended_cpu_topology());
        list!("address translation", 0x18u64, dat_info, |c: &Cpu| c.get_deterministic_address_translation_info());
    }
}

/// A CPU against itself and against slightly changed ones.
pub fn check_machine(m: &Machine, ps: &[Path<Rd>], rng: &mut Rng, rep: &mut Report) {
    let a = Rd::new(m.clone());
    for p in ps {
        if !compare(p, &a, &Rd::new(m.clone()), rep) {
            continue;
        }
        for _ in 0..3 {
            let mut x = m.clone();
            let (l, s) = rng.pick(p.cells);
            let (i, b) = (rng.below(4) as usize, rng.below(32));
            if l == 0 && i == 0 {
                continue;
            }
            if rng.chance(1, 2) {
                x.upd(l, s, |r| r.set(i, r.get(i) ^ 1 << b));
            } else {
                tweak(p, &mut x, rng);
            }
            compare(p, &a, &Rd::new(x), rep);
        }
    }
}

pub fn run(seed: u64, thorough: bool) -> Report {
    let np = paths::<Rd>().len();
    let n = if thorough { 64 } else { 8 };
    let mut rep = shards("C20", np + 3 + 2 * n, |i, rep| match i {
        i if i < np => structures(i, seed, thorough, rep),
        i if i == np => results(seed, if thorough { 2_000_000 } else { 100_000 }, rep),
        i if i == np + 1 => enumerations(seed, rep),
        i if i == np + 2 => descriptors(seed, if thorough { 500_000 } else { 30_000 }, rep),
        i if i < np + 3 + n => entries(i as u64, seed, rep),
        _ => {
            let ps = paths::<Rd>();
            let mut g = Gen::new(seed, 25_000 + i as u64);
            for _ in 0..100 {
                let m = g.machine();
                current(|| format!("comparisons within a random CPU\n{}", m.describe()));
                check_machine(&m, &ps, &mut g.rng, rep);
                rep.count("random CPUs", 1);
            }
        }
    });
    rep.rule = "An evaluation compares two values (of one structure, entries of one enumeration, raw results, descriptor lists, or cases of one enumerated type) with == and != in both orders and judges the answers by their registers and accessors. Pairs: every single-bit difference of every register, registers exchanged or rotated, other vendors, equal registers in unlike CPUs. Distinct by the registers of both.".into();
    rep
}
