//! The same simulator as a shared object, preloaded into a Python interpreter.
mod api;
mod capi;
mod engine;
mod gen;
mod model;
mod po;
mod props;
#[path = "sim/mod.rs"]
mod sim;

#[global_allocator]
static ALLOC: sim::alloc::SimAlloc = sim::alloc::SimAlloc;

/// Called by simpy/host.py.
#[no_mangle]
pub extern "C" fn dst_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let k = a.iter().position(|x| x.ends_with("host.py")).map_or(a.len(), |i| i + 1);
    engine::cli(&props::all(), &a[k..])
}
