fn main() {
    // z3 5.x shared library shipped with the python tooling; falls back to the system libz3.
    let cand = [
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib",
        "/usr/lib/x86_64-linux-gnu",
    ];
    for c in cand {
        if std::path::Path::new(&format!("{c}/libz3.so")).exists() {
            println!("cargo:rustc-link-search=native={c}");
            println!("cargo:rustc-link-arg=-Wl,-rpath,{c}");
            break;
        }
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
