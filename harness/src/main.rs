mod alloc;
mod ctx;
mod gen;
mod kind;
#[cfg(not(miri))]
mod ladder;
mod nat;
mod props;
mod props2;
mod rng;
mod run;
mod small;

fn main()
{
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(run::main(&args));
}
