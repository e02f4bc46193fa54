fn main() {
    for f in include_str!("src/wrapped.txt").split_whitespace() {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    println!("cargo:rerun-if-changed=src/wrapped.txt");
    println!("cargo:rerun-if-changed=build.rs");
}
