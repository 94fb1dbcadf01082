//! The program is linked with a library called main, which is empty here: scenarios define it.
fn main() {
    let directory = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{directory}/libmain.a"), "!<arch>\n").unwrap();
    println!("cargo:rustc-link-search={directory}");
    println!("cargo:rerun-if-changed=build.rs");
}
