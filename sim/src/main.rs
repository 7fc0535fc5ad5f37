#![allow(dead_code)]
//! Deterministic simulation of strict-types with fault injection. See /verif/DESIGN.md.

mod choices;
mod driver;
mod fs;
mod io;
mod known;
mod libgen;
mod net;
mod props;
mod refm;
mod rt;
mod sched;
mod statics;
mod valgen;
mod world;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: world::SimAlloc = world::SimAlloc;

/// The /verif directory this binary belongs to.
pub fn root() -> PathBuf {
    std::env::var_os("STSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| {
        PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().expect("parent").to_path_buf()
    })
}

fn main() {
    rt::install_hook();
    edges::set_handler(sched::interrupted);
    edges::set_atom_handler(sched::atom);
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(driver::main(&args));
}
