fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_UEFI").is_some() {
        println!("cargo:rustc-cfg=target_os=\"uefi\"");
    }
}
