//! Workloads: synthetic, recorded and mutated CPUs.
use crate::machine::*;

pub const VENDORS: [&[u8; 12]; 12] = [
    INTEL, AMD, HYGON, b"CentaurHauls", b"  Shanghai  ", b"GenuineTMx86", b"CyrixInstead", b"Geode by NSC", b"Vortex86 SoC",
    b"GenuineIotel", b"AMDisbetter!", b"\0\0\0\0\0\0\0\0\0\0\0\0",
];

pub const BASIC_LEAVES: [u32; 34] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1B, 0x1C, 0x1D,
    0x1E, 0x1F, 0x20, 0x23,
];
pub fn ext_leaves() -> Vec<u32> {
    (0..=0x28).map(|i| 0x8000_0000 + i).collect()
}

pub fn load(text: &str) -> Machine {
    let mut m = Machine::new(Dflt::Zero);
    for line in text.lines() {
        let line = line.trim();
        if let Some(d) = line.strip_prefix("default=") {
            m.dflt = match d {
                "Zero" => Dflt::Zero,
                "Ones" => Dflt::Ones,
                x => Dflt::Noise(x.trim_start_matches("Noise(").trim_end_matches(')').parse().unwrap()),
            };
            continue;
        }
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let mut it = line.split_whitespace();
        let (l, s) = it.next().unwrap().split_once('.').unwrap();
        let mut r = [0u32; 4];
        for (i, x) in it.enumerate().take(4) {
            r[i] = u32::from_str_radix(x.split_once('=').unwrap().1, 16).unwrap();
        }
        m.put(u32::from_str_radix(l, 16).unwrap(), u32::from_str_radix(s, 16).unwrap(), Regs::new(r[0], r[1], r[2], r[3]));
    }
    m
}

pub fn recorded() -> Vec<Machine> {
    [include_str!("../data/i7_12700k.txt"), include_str!("../data/ryzen_matisse.txt"), include_str!("../data/xeon_gold_6252.txt")]
        .iter()
        .map(|t| load(t))
        .collect()
}

// ---- identification strings

/// Byte patterns that sit on the edges of UTF-8, NUL and white space.
pub fn pieces() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    for s in [
        "\u{0}", " ", "\t", "\n", "\u{b}", "\u{c}", "\r", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}", "\u{200b}", "\u{feff}", "a", "Z", "9", "(R)", "\u{7f}", "\u{80}", "é", "\u{7ff}", "\u{800}", "€", "\u{d7ff}", "\u{e000}",
        "\u{ffff}", "\u{10000}", "𝄞", "\u{10ffff}", "Intel", "  ",
    ] {
        v.push(s.as_bytes().to_vec());
    }
    for b in [
        &[0x80u8][..], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc3], &[0xe2, 0x82], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x9d, 0x84], &[0xf0, 0x80, 0x80, 0x80], &[0xf4, 0x90, 0x80, 0x80],
        &[0xf5, 0x80, 0x80, 0x80], &[0xff], &[0xfe],
    ] {
        v.push(b.to_vec());
    }
    v
}

pub fn fill(rng: &mut Rng, n: usize) -> Vec<u8> {
    let p = pieces();
    let mut v = Vec::new();
    let style = rng.below(6);
    while v.len() < n {
        match style {
            0 => v.push(rng.u32() as u8),
            1 => v.push(0x20 + rng.below(0x5f) as u8),
            2 => v.extend_from_slice(&p[rng.below(31) as usize]),
            3 => v.extend_from_slice(&p[rng.below(p.len() as u32) as usize]),
            4 => v.push(rng.pick(&[0, b' ', b'x', b'\t', 0xc2, 0xa0, 0xe3, 0x80])),
            _ => v.extend_from_slice(&p[13 + rng.below(18) as usize]),
        }
    }
    v.truncate(n);
    v
}

pub fn words(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

/// Puts 12 / 48 / 48 bytes in the three string sources.
pub fn place(m: &mut Machine, vendor: &[u8], brand: &[u8], soc: &[u8]) {
    m.set_vendor(vendor.try_into().unwrap());
    for (k, w) in words(brand).chunks(4).enumerate() {
        m.put(0x8000_0002 + k as u32, 0, Regs::new(w[0], w[1], w[2], w[3]));
    }
    for (k, w) in words(soc).chunks(4).enumerate() {
        m.put(0x17, 1 + k as u32, Regs::new(w[0], w[1], w[2], w[3]));
    }
    m.upd(0x17, 0, |r| r.a = 3 + (vendor[0] as u32 & 1));
}

pub struct Gen {
    pub rng: Rng,
    rec: Vec<Machine>,
    n: u32,
}

impl Gen {
    pub fn new(seed: u64, stream: u64) -> Gen {
        Gen { rng: Rng::new(seed, stream), rec: recorded(), n: 0 }
    }

    pub fn vendor(&mut self) -> [u8; 12] {
        let r = &mut self.rng;
        match r.below(100) {
            0..=34 => *INTEL,
            35..=59 => *AMD,
            60..=69 => *HYGON,
            70..=84 => *r.pick(&VENDORS),
            85..=92 => {
                let mut v = **r.pick(&[&INTEL, &AMD, &HYGON]);
                match r.below(3) {
                    0 => v[r.below(12) as usize] ^= 1 << r.below(8),
                    1 => {
                        let (i, j) = (r.below(12) as usize, r.below(12) as usize);
                        v.swap(i, j)
                    }
                    _ => v.rotate_left(4),
                }
                v
            }
            _ => {
                let mut v = [0u8; 12];
                for b in v.iter_mut() {
                    *b = r.u32() as u8;
                }
                v
            }
        }
    }

    /// A signature (leaf 1 EAX) that walks through all family/model
    /// combinations over the calls.
    pub fn signature(&mut self) -> u32 {
        let n = self.n;
        self.n = self.n.wrapping_add(1);
        let k = (n as u64 * 2654435761) as u32;
        let (bf, bm, xm) = (k >> 28, k >> 24 & 15, k >> 20 & 15);
        let bf = if n % 3 == 0 { 6 } else if n % 3 == 1 { 15 } else { bf };
        let xf = if n % 2 == 0 { k >> 16 & 15 } else { k >> 12 & 255 };
        self.rng.u32() & 0xf000_f00f | bf << 8 | bm << 4 | xm << 16 | xf << 20
    }

    pub fn max_basic(&mut self) -> u32 {
        let r = &mut self.rng;
        match r.below(20) {
            0..=9 => r.pick(&[0x1f, 0x20, 0x21, 0x23, 0x24]),
            10..=15 => r.below(0x24),
            16 => r.pick(&[u32::MAX, 0x7fff_ffff, 0x3fff_ffff, 0x4000_0000, 0x8000_0000]),
            17 => r.u32(),
            _ => r.pick(&BASIC_LEAVES),
        }
    }
    pub fn max_ext(&mut self) -> u32 {
        let r = &mut self.rng;
        match r.below(20) {
            0..=9 => 0x8000_0026 + r.below(3),
            10..=15 => 0x8000_0000 + r.below(0x28),
            16 => r.pick(&[u32::MAX, 0, 1, 0x7fff_ffff, 0x8000_0000]),
            17 => r.u32(),
            _ => 0x8000_0000 + r.pick(&[1, 4, 8, 0xA, 0x19, 0x1D, 0x1E, 0x1F, 0x20, 0x21, 0x22, 0x23, 0x26]),
        }
    }

    /// Finite sub-leaf trees for every enumeration, with whatever the default
    /// answers beyond their terminators.
    pub fn trees(&mut self, m: &mut Machine) {
        let r = &mut self.rng;
        let len = |r: &mut Rng| match r.below(8) {
            0 => 0,
            1 => 1,
            2 => r.below(40),
            _ => r.below(7),
        };
        for leaf in [4u32, 0x8000_001D] {
            let k = len(r);
            for i in 0..k {
                let mut x = r.regs();
                x.a = x.a & !31 | r.range(1, 3);
                m.put(leaf, i, x);
            }
            let mut x = r.regs();
            x.a = x.a & !31 | if r.chance(2, 3) { 0 } else { r.range(4, 31) };
            m.put(leaf, k, x);
        }
        for leaf in [0xBu32, 0x1F] {
            let k = len(r);
            for i in 0..k {
                let mut x = r.regs();
                x.c = x.c & !0xff00 | r.range(1, 5) << 8;
                m.put(leaf, i, x);
            }
            let mut x = r.regs();
            x.c = x.c & !0xff00 | if r.chance(2, 3) { 0 } else { r.range(6, 255) } << 8;
            m.put(leaf, k, x);
        }
        {
            let k = len(r);
            for i in 0..k {
                let mut x = r.regs();
                x.c = x.c & !0xff00 | if r.chance(3, 4) { r.range(1, 4) } else { r.range(5, 255) } << 8;
                m.put(0x8000_0026, i, x);
            }
            let mut x = r.regs();
            x.c &= !0xff00;
            m.put(0x8000_0026, k, x);
        }
        {
            let k = len(r);
            for i in 0..k {
                let mut x = r.regs();
                x.a = x.a & !15 | 1;
                m.put(0x12, 2 + i, x);
            }
            let mut x = r.regs();
            x.a = x.a & !15 | if r.chance(1, 2) { 0 } else { r.range(2, 15) };
            m.put(0x12, 2 + k, x);
        }
        {
            // address translation: 0..=max, any of them null
            let max = len(r);
            let density = r.pick(&[1, 5, 9, 10]);
            for i in 0..=max + 2 {
                let mut x = r.regs();
                if !r.chance(density, 10) {
                    x.d &= !31;
                } else if x.d & 31 == 0 {
                    x.d |= r.range(1, 31);
                }
                if i == 0 {
                    x.a = max;
                }
                m.put(0x18, i, x);
            }
        }
        {
            let max = match r.below(6) {
                0 => r.below(4),
                1 => 3,
                2 => 4,
                3 => r.below(60),
                _ => r.range(3, 9),
            };
            for i in 0..=max.max(3) + 2 {
                let mut x = r.regs();
                if i == 0 {
                    x.a = max;
                }
                m.put(0x17, i, x);
            }
            if r.chance(1, 2) {
                for i in 1..=3 {
                    let mut x = Regs::default();
                    for k in 0..4 {
                        x.set(k, self.rng.u32() & 0x5f5f_5f5f | 0x2020_2020);
                    }
                    m.put(0x17, i, x);
                }
            }
        }
        let r = &mut self.rng;
        for i in 0..32 {
            m.put(0xD, i, r.regs());
        }
        for i in 0..6 {
            m.put(0xF, i, r.regs());
            m.put(0x10, i, r.regs());
            m.put(0x8000_0020, i, r.regs());
        }
        // sub-leaf 0 cells that enumerate the rest
        for leaf in [0xFu32, 0x10, 0x8000_0020] {
            if r.chance(1, 2) {
                m.upd(leaf, 0, |x| {
                    x.b |= 0x2e;
                    x.d |= 2
                });
            }
        }
    }

    /// A synthetic CPU with arbitrary contents everywhere.
    pub fn synthetic(&mut self) -> Machine {
        let d = match self.rng.below(10) {
            0..=4 => Dflt::Zero,
            5 => Dflt::Ones,
            _ => Dflt::Noise(self.rng.u64()),
        };
        let mut m = Machine::new(d);
        for l in BASIC_LEAVES {
            let x = self.rng.regs();
            m.put(l, 0, x);
        }
        for l in ext_leaves() {
            let x = self.rng.regs();
            m.put(l, 0, x);
        }
        let x = self.rng.regs();
        m.put(7, 1, x);
        let x = self.rng.regs();
        m.put(0x14, 1, x);
        m.upd(0x14, 0, |r| {
            if x.a & 1 == 0 {
                r.a &= 3
            }
        });
        self.trees(&mut m);
        let v = self.vendor();
        m.set_vendor(&v);
        let (a, b) = (self.max_basic(), self.max_ext());
        m.upd(0, 0, |r| r.a = a);
        m.upd(0x8000_0000, 0, |r| r.a = b);
        let sig = self.signature();
        m.upd(1, 0, |r| r.a = sig);
        if self.rng.chance(1, 2) {
            m.set_bit(7, 0, RB, 2, true);
        }
        if self.rng.chance(1, 2) {
            m.set_bit(0x8000_0001, 0, RC, 2, true);
        }
        self.hypervisor(&mut m);
        if self.rng.chance(1, 2) {
            for i in 2..=4 {
                let b = self.text();
                m.put(0x8000_0000 + i, 0, b);
            }
        }
        if self.rng.chance(1, 8) {
            self.strings(&mut m);
        }
        m
    }

    pub fn text(&mut self) -> Regs {
        let r = &mut self.rng;
        let mut x = Regs::default();
        for k in 0..4 {
            let mut w = [0u8; 4];
            for b in w.iter_mut() {
                *b = match r.below(24) {
                    0 => 0,
                    1 => b' ',
                    2 => b'\t',
                    3 => b'\n',
                    _ => 0x20 + r.below(0x5f) as u8,
                };
            }
            x.set(k, u32::from_le_bytes(w));
        }
        x
    }

    /// Identification strings with UTF-8 edge sequences, invalid bytes,
    /// padding and multi-byte characters across register boundaries.
    pub fn strings(&mut self, m: &mut Machine) {
        let r = &mut self.rng;
        let (mut a, mut b, mut c) = (fill(r, 12), fill(r, 48), fill(r, 48));
        // mostly valid texts that end with what does or does not fit
        for v in [&mut a, &mut b, &mut c] {
            if r.chance(1, 2) {
                let n = v.len();
                let ps = pieces();
                let mut t = Vec::new();
                let long = r.pick(&["é", "€", "𝄞", "\u{7ff}", "\u{ffff}", "\u{10ffff}"]).as_bytes();
                let pad = r.below(4) as usize;
                while t.len() < n {
                    match r.below(4) {
                        0 => t.extend_from_slice(long),
                        1 => t.extend_from_slice(&ps[r.below(31) as usize]),
                        _ => t.push(0x21 + r.below(0x5e) as u8),
                    }
                }
                while t.len() > n || std::str::from_utf8(&t).is_err() {
                    t.pop();
                }
                for _ in 0..pad {
                    t.pop();
                }
                t.resize(n, if r.chance(1, 2) { 0 } else { b' ' });
                *v = t;
            }
        }
        let keep = m.get(0x17, 0).a;
        let (va, vb) = (m.vendor_bytes(), r.chance(1, 2));
        place(m, &a, &b, &c);
        if vb {
            m.set_vendor(&va);
        }
        m.upd(0x17, 0, |x| x.a = if keep >= 3 { keep } else { 3 });
        if r.chance(1, 3) {
            let w = words(&a);
            m.upd(0x4000_0000, 0, |x| (x.b, x.c, x.d) = (w[0], w[1], w[2]));
        }
    }

    pub fn hypervisor(&mut self, m: &mut Machine) {
        let r = &mut self.rng;
        let mut x = r.regs();
        x.a = match r.below(8) {
            0 => 0,
            1 => r.pick(&[0x4000_0000, 0x4000_0001, 0x4000_000F]),
            2 | 3 => 0x4000_0010,
            4 => r.pick(&[0x4000_0011, 0x4000_0012, 0x4000_00ff]),
            5 => r.pick(&[1, u32::MAX, 0x3fff_ffff]),
            6 => r.u32(),
            _ => 0x4000_0000 + r.below(0x20),
        };
        if r.chance(3, 4) {
            let sig = r.pick(&crate::types::HYPERVISORS).0;
            let mut s = *sig;
            if r.chance(1, 3) {
                s[r.below(12) as usize] ^= 1 << r.below(8);
            }
            x.b = u32::from_le_bytes([s[0], s[1], s[2], s[3]]);
            x.c = u32::from_le_bytes([s[4], s[5], s[6], s[7]]);
            x.d = u32::from_le_bytes([s[8], s[9], s[10], s[11]]);
        }
        m.put(0x4000_0000, 0, x);
        for i in 1..=0x12 {
            m.put(0x4000_0000 + i, 0, r.regs());
        }
        m.set_bit(1, 0, RC, 31, r.chance(2, 3));
    }

    /// A recorded CPU with some register bits changed.
    pub fn mutated(&mut self) -> Machine {
        let k = self.rng.below(self.rec.len() as u32) as usize;
        let mut m = self.rec[k].clone();
        if self.rng.chance(1, 4) {
            m.dflt = Dflt::Noise(self.rng.u64());
            // keep the enumerations that the recording leaves unlisted finite
            for (l, s) in [(4u32, 4u32), (0xB, 2), (0x1F, 2), (0x1F, 0), (0x12, 2), (0x12, 3), (0x8000_001D, 4), (0x8000_0026, 0), (0x17, 0), (0x18, 0)] {
                if !m.map.contains_key(&((l as u64) << 32 | s as u64)) {
                    m.put(l, s, Regs::default());
                }
            }
        }
        let keys: Vec<u64> = {
            let mut k: Vec<u64> = m.map.keys().copied().collect();
            k.sort();
            k
        };
        let n = 1 + self.rng.below(40);
        for _ in 0..n {
            let key = self.rng.pick(&keys);
            let (l, s) = ((key >> 32) as u32, key as u32);
            if (l == 0 || l == 0x8000_0000) && self.rng.chance(3, 4) {
                continue;
            }
            // the cells that bound an enumeration stay bounded
            if matches!(l, 0x17 | 0x18) && s == 0 {
                let reg = self.rng.range(1, 3) as usize;
                let b = self.rng.below(32);
                m.upd(l, s, |r| r.set(reg, r.get(reg) ^ 1 << b));
                continue;
            }
            let reg = self.rng.below(4) as usize;
            let b = self.rng.below(32);
            if matches!(l, 4 | 0x12 | 0x8000_001D) && reg == 0 && b < 5 || matches!(l, 0xB | 0x1F | 0x8000_0026) && reg == 2 && (8..16).contains(&b) {
                continue;
            }
            m.upd(l, s, |r| r.set(reg, r.get(reg) ^ 1 << b));
        }
        if self.rng.chance(1, 4) {
            let v = self.vendor();
            m.set_vendor(&v);
        }
        if self.rng.chance(1, 4) {
            let a = self.max_basic();
            m.upd(0, 0, |r| r.a = a);
        }
        if self.rng.chance(1, 4) {
            let a = self.max_ext();
            m.upd(0x8000_0000, 0, |r| r.a = a);
        }
        if self.rng.chance(1, 3) {
            self.trees(&mut m);
        }
        if self.rng.chance(1, 3) {
            self.hypervisor(&mut m);
        }
        m
    }

    pub fn machine(&mut self) -> Machine {
        if self.rng.chance(3, 10) {
            self.mutated()
        } else {
            self.synthetic()
        }
    }
}
