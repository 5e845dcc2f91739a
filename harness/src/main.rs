mod choices;
mod exec;
mod net;
mod os;
mod runner;
mod scen;
mod sock;
mod vfs;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}
