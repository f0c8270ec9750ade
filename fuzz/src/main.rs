//! One libFuzzer target for every family of every check: `VPF=C07/raw vpf ...`.
//! With `VPF_DUMP` set it prints the case that an artifact stands for.
#![no_main]
#![allow(dead_code, unused_macros)]
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/checks/mod.rs"]
mod checks;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/spec.rs"]
mod spec;

use std::sync::OnceLock;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
static FAM: OnceLock<(String, Box<dyn runner::Fam>)> = OnceLock::new();

libfuzzer_sys::fuzz_target!(init: {
    runner::install_hook();
    let w = std::env::var("VPF").expect("VPF=C07/raw");
    let (id, fam) = w.split_once('/').unwrap();
    let c = checks::all().into_iter().map(|f| f()).find(|c| c.id == id).unwrap();
    let f = c.families.into_iter().find(|f| f.name() == fam).unwrap();
    FAM.set((id.to_string(), f)).ok();
}, |data: &[u8]| {
    let (id, f) = FAM.get().unwrap();
    f.fuzz(id, data);
});
