mod alloc;
#[macro_use]
mod engine;
mod gen;
mod io;
mod mutate;
mod props;
mod refc;
mod runner;
mod spec;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(runner::main(&args[1..]));
}
