use std::process::Command;
fn main() {
    // libLLVM of the nightly toolchain that also produces the bitcode
    let out = Command::new(std::env::var("RUSTC").unwrap()).args(["--print", "sysroot"]).output().unwrap();
    let root = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{}/lib", root);
    let so = std::fs::read_dir(&lib).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so.")).expect("libLLVM.so.* in the toolchain");
    println!("cargo:rustc-link-search=native={}", lib);
    println!("cargo:rustc-link-arg=-l:{}", so);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    let z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::env::var("SYMEX_Z3_WHEEL").is_ok() && std::path::Path::new(z3).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={}", z3);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", z3);
    }
    println!("cargo:rustc-link-arg=-l:libz3.so");
    println!("cargo:rerun-if-changed=build.rs");
}
