use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/simrt.o", out);
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-fno-sanitize=all", "-Wall", "-c", "simrt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success());
    println!("cargo:rustc-link-arg={}", obj);
    println!("cargo:rerun-if-changed=simrt.c");
    println!("cargo:rerun-if-changed=simrt.h");
    println!("cargo:rerun-if-changed=build.rs");
}
