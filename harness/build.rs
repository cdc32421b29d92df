//! Puts the library's static variables on pages of their own, where accesses to
//! them can be seen (src/shared.rs).
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,-T,{}/statics.ld", std::env::var("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed=statics.ld");
    println!("cargo:rerun-if-changed=build.rs");
}
