fn main() {
    for f in include_str!("src/wrapped.txt").split_whitespace().filter(|f| f.starts_with("rocksdb_")) {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
    println!("cargo:rerun-if-changed=src/wrapped.txt");
    println!("cargo:rerun-if-changed=build.rs");
}
