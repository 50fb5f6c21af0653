fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_PY").is_some() {
        println!("cargo:rustc-link-lib=python3.12");
    }
}
