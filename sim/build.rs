use std::process::Command;
// Compiles the simulator runtime (plain C, never instrumented) with the
// installed gcc and links the object into the executable ahead of libc.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/rt.o");
    println!("cargo:rerun-if-changed=rt/rt.c");
    let st = Command::new("gcc")
        .args(["-O2", "-g", "-fPIC", "-fno-builtin", "-Wall", "-c", "rt/rt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success(), "gcc failed");
    println!("cargo:rustc-link-arg-bins={obj}");
}
