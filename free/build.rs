fn main() {
    for a in ["-nostartfiles", "-nostdlib", "-static", "-no-pie"] {
        println!("cargo:rustc-link-arg-bin=free={}", a);
    }
}
