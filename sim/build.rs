use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=csim/sim.c");
    println!("cargo:rerun-if-changed=csim/sim.h");
    let ok = Command::new("gcc").args(["-O2", "-g1", "-Wall", "-Wno-misleading-indentation", "-fno-builtin", "-c", "csim/sim.c", "-o"]).arg(format!("{out}/sim.o")).status().unwrap().success();
    assert!(ok, "sim.c failed to compile");
    println!("cargo:rustc-link-arg={out}/sim.o");
    println!("cargo:rustc-link-arg=-Wl,--export-dynamic-symbol=getrandom");
}
