use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=core/rt/rt.cc");
    let mut c = Command::new("g++");
    c.args(["-O2", "-g0", "-std=c++17", "-fno-exceptions", "-fno-rtti", "-fno-stack-protector", "-w", "-c", "core/rt/rt.cc", "-o"]).arg(format!("{out}/rt.o"));
    if std::env::var("CARGO_FEATURE_VMEM").is_ok() { c.arg("-DRT_VMEM"); }
    assert!(c.status().unwrap().success());
    // an object given directly on the command line of every bin: its symbols win over libc's
    println!("cargo:rustc-link-arg-bins={out}/rt.o");
    println!("cargo:rustc-link-arg-bins=-Wl,-z,now");
    println!("cargo:rustc-link-lib=dylib=stdc++");
}
