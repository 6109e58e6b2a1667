fn main() {
    // prefer the newer libz3 shipped with the python tooling, fall back to the system one
    let d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(d).join("libz3.so").exists() && std::env::var("SYMIR_SYSTEM_Z3").is_err() {
        println!("cargo:rustc-link-search=native={}", d);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d);
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
