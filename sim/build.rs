use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/simrt.o", out);
    let ok = Command::new("clang")
        .args(["-O2", "-g1", "-fPIC", "-Wall", "-c", "rt/simrt.c", "-o", &obj])
        .status().expect("clang").success();
    assert!(ok, "simrt.c does not compile");
    println!("cargo:rustc-link-arg-bins={}", obj);
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=rt/simrt.h");
}
