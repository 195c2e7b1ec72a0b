use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=simk/simk.c");
    println!("cargo:rerun-if-changed=simk/simk.h");
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/simk.o");
    let a = format!("{out}/libsimk.a");
    let run = |c: &mut Command| assert!(c.status().expect("tool").success());
    run(Command::new("gcc").args(["-O2", "-g", "-fPIC", "-fno-omit-frame-pointer", "-c", "simk/simk.c", "-o", &o]));
    let _ = std::fs::remove_file(&a);
    run(Command::new("ar").args(["crs", &a, &o]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static:+whole-archive=simk");
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rustc-link-lib=dl");
}
