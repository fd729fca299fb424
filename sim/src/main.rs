mod built;
mod compare;
mod driver;
mod exec;
mod gen;
mod model;
mod pairs;
mod props;
mod rng;
mod rt;
mod run;
#[cfg(feature = "vello")]
mod scene;
mod scen;
mod shrink;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

fn main() {
    std::process::exit(driver::main());
}
