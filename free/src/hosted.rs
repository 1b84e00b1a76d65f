mod all;
mod work;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(1u64);
    for k in 0..n(2) {
        let c = raw_cpuid::CpuId::with_cpuid_reader(work::Fake(work::mix(n(1) ^ k << 20)));
        let ((d, t), (v, u)) = (work::decode(&c), work::values(&c));
        println!("{:016x} {} {:016x} {}", d, t, v, u);
    }
}
