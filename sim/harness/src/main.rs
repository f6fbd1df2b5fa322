mod case;
mod drive;
mod gen;
mod oracle;
mod rt;
mod scen;

fn main() {
    std::process::exit(drive::main());
}
