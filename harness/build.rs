use std::process::Command;
fn main() {
    // The intrinsics are compiled by gcc so that LTO cannot look inside them: the symbolic engine
    // intercepts the calls, the native build reads the inputs from a replay file.
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O1", "-c", "src/sx.c", "-o"]).arg(format!("{out}/sx.o")).status().unwrap().success();
    assert!(ok);
    let _ = std::fs::remove_file(format!("{out}/libsx.a"));
    let ok = Command::new("ar").arg("crs").arg(format!("{out}/libsx.a")).arg(format!("{out}/sx.o")).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=sx");
    println!("cargo:rerun-if-changed=src/sx.c");
    println!("cargo:rerun-if-changed=build.rs");
}
