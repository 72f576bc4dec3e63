//! Compiles the runtime for the instrumented build (feature "sched").
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_SCHED").is_none() {
        return;
    }
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = |c: &mut Command| assert!(c.status().expect("no C compiler").success());
    ok(Command::new("gcc").args(["-O3", "-Wall", "-c", "rt/rt.c", "-o", &format!("{out}/rt.o")]));
    let _ = std::fs::remove_file(format!("{out}/libmcrt.a"));
    ok(Command::new("ar").args(["crs", &format!("{out}/libmcrt.a"), &format!("{out}/rt.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=mcrt");
}
