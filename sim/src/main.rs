mod api;
mod engine;
mod gen;
mod model;
mod po;
mod props;
#[path = "sim/mod.rs"]
mod sim;

#[global_allocator]
static ALLOC: sim::alloc::SimAlloc = sim::alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(engine::cli(&props::all(), &a[1..]));
}
