//! The simulation of the Python extension: a shared object that the interpreter loads. The
//! extension's code and everything of Rust below it run inside the simulation; the interpreter
//! and numpy are native.
#![allow(dead_code)]
#[path = "../../harness/src/case.rs"]
mod case;
#[path = "../../harness/src/drive.rs"]
mod drive;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "../../harness/src/rt.rs"]
mod rt;
#[path = "../../harness/src/scen.rs"]
mod scen;
mod pyscen;

#[no_mangle]
pub extern "C" fn sim_main() -> i32 {
    drive::main()
}
