mod engine;
mod fam;
mod lapack;
mod nf;
mod props;
mod rat;
mod s;
mod scalar;
mod smt;
mod sym;

fn main() {
    engine::quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(props::main(&args));
}
