//! Runtime monitors for raw-cpuid: `mon check <ID> --seed N --tier T --out F`.
#[cfg(all(feature = "full", not(miri)))]
mod binary;
mod adapt;
mod corpus;
mod debug;
mod desc;
mod digest;
#[cfg(all(target_arch = "x86_64", not(miri)))]
mod effects;
#[cfg(not(all(target_arch = "x86_64", not(miri))))]
#[path = "noeffects.rs"]
mod effects;
mod entry;
mod equal;
mod exercise;
mod faults;
mod fields;
mod flags;
mod gen;
mod host;
mod isolate;
mod iters;
mod machine;
mod model;
#[cfg(all(target_arch = "x86_64", not(miri)))]
mod native;
mod presence;
mod reader;
mod report;
mod show;
mod strings;
mod stdout;
#[cfg(feature = "full")]
mod rawdump;
#[cfg(feature = "full")]
mod reportref;
#[cfg(feature = "full")]
mod serde_mon;
#[cfg(feature = "full")]
mod terminal;
#[cfg(feature = "full")]
mod textrep;
mod types;
mod val;

use report::*;

#[cfg(all(target_arch = "x86_64", not(miri)))]
#[global_allocator]
static HEAP: effects::Counting = effects::Counting;


pub fn arg(name: &str, dflt: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned()).unwrap_or(dflt.to_string())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    model::install_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a[2].clone();
            let seed: u64 = arg("--seed", "1").parse().unwrap_or(1);
            let thorough = arg("--tier", "quick") == "thorough";
            let out = arg("--out", "/dev/stdout");
            #[cfg(feature = "full")]
            if id == "C14" {
                terminal::on_terminal();
            }
            watchdog(id.clone(), out.clone(), 120.0);
            enroll();
            let t = std::time::Instant::now();
            let mut r = match id.as_str() {
                "C01" => exercise::run(seed, thorough),
                "C02" => strings::run(seed, thorough),
                "C04" | "C05" | "C06" | "C07" | "C08" | "C18" | "C19" => fields::run(&id, seed, thorough),
                "C03" => presence::run(seed, thorough),
                "C09" => iters::run_c09(seed, thorough),
                "C10" => iters::run_c10(seed, thorough),
                "C11" => reader::run(seed, thorough),
                #[cfg(all(target_arch = "x86_64", not(miri)))]
                "C16" => native::run(seed, thorough),
                "C21" => entry::run(seed, thorough),
                "C20" => equal::run(seed, thorough),
                "C15" => debug::run(seed, thorough),
                "C24" => faults::run(seed, thorough),
                #[cfg(feature = "full")]
                "C12" => serde_mon::run(seed, thorough),
                #[cfg(feature = "full")]
                "C13" => rawdump::run(seed, thorough),
                #[cfg(feature = "full")]
                "C14" => textrep::run(seed, thorough),
                _ => {
                    eprintln!("no such check in this build: {}", id);
                    std::process::exit(3);
                }
            };
            corpus::judge(&id, seed, &mut r);
            eprintln!("{}: {} evaluations, {} distinct non-trivial, {} violation signatures, {:?}", id, r.evals, r.nontrivial.len(), r.viols.len(), t.elapsed());
            for v in r.viols.values().take(12) {
                eprintln!("  {} x{}: {}", v.sig, v.count, v.detail);
            }
            std::fs::write(out, r.to_json()).unwrap();
        }
        // A reduced workload for an interpreter or a sanitizer.
        Some("small") => {
            let id = a[2].clone();
            let seed: u64 = arg("--seed", "1").parse().unwrap_or(1);
            let n: usize = arg("--n", "1").parse().unwrap_or(1);
            let mut r = Report::new(&id);
            match id.as_str() {
                "C02" => strings::small(seed, n, &mut r),
                "C11" => reader::threads(seed, n, 3, &mut r),
                "C23" => host::run(seed, arg("--shard", "0").parse().unwrap_or(0), n, &mut r),
                _ => std::process::exit(3),
            }
            std::fs::write(arg("--out", "/dev/stdout"), r.to_json()).unwrap();
        }
        // Forks, so nothing else runs in this process.
        Some("isolate") => {
            let r = isolate::run(arg("--seed", "1").parse().unwrap_or(1), arg("--shard", "0").parse().unwrap_or(0), arg("--tier", "quick") == "thorough");
            std::fs::write(arg("--out", "/dev/stdout"), r.to_json()).unwrap();
        }
        #[cfg(all(target_arch = "x86_64", not(miri)))]
        Some("effects") => {
            let r = effects::run(arg("--seed", "1").parse().unwrap_or(1), arg("--shard", "0").parse().unwrap_or(0), arg("--tier", "quick") == "thorough");
            std::fs::write(arg("--out", "/dev/stdout"), r.to_json()).unwrap();
        }
        Some("digest") => {
            if !cfg!(miri) {
                watchdog("C17".into(), arg("--out", "/dev/stdout") + ".hang", 120.0);
            }
            digest::run(arg("--seed", "1").parse().unwrap_or(1), arg("--tier", "quick") == "thorough", arg("--few", "0").parse().unwrap_or(0), &arg("--out", "/dev/stdout"));
        }
        Some("digest-one") => digest::one(arg("--seed", "1").parse().unwrap_or(1), arg("--job", "0").parse().unwrap(), arg("--idx", "0").parse().unwrap()),
        _ => {
            eprintln!("usage: mon check ID [--seed N] [--tier quick|thorough] [--out FILE]");
            std::process::exit(3);
        }
    }
}
