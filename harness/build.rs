fn main() {
    // The butane macros write .butane/ next to Cargo.toml while this crate is compiled; start clean.
    println!("cargo:rerun-if-changed=src");
    println!("cargo:rerun-if-changed=build.rs");
    let _ = std::fs::remove_dir_all(".butane");
}
