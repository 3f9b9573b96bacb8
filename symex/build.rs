fn main() {
    let newer = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    let older = "/usr/lib/x86_64-linux-gnu";
    let dir = if std::env::var("SYMEX_OLD_Z3").is_err() && std::path::Path::new(&format!("{newer}/libz3.so")).exists() { newer } else { older };
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
    println!("cargo:rerun-if-env-changed=SYMEX_OLD_Z3");
    println!("cargo:rerun-if-changed=build.rs");
}
