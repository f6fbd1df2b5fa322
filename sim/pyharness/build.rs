fn main() {
    let o = std::env::var("SIMRT_O").expect("SIMRT_O: the simulation runtime's object file");
    println!("cargo:rerun-if-env-changed=SIMRT_O");
    println!("cargo:rerun-if-changed={o}");
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rustc-link-arg=-ldl");
}
