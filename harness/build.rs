// Compiles sym.c (the native side of the symbolic-input interface) with gcc into a plain object
// archive, so that the calls stay external in the LLVM IR that the engine executes.
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/sym.o");
    assert!(Command::new("gcc").args(["-O1", "-c", "-fPIC", "sym.c", "-o", &o]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &format!("{out}/libsym.a"), &o]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=sym");
    println!("cargo:rerun-if-changed=sym.c");
}
