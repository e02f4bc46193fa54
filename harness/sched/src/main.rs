//! Model checking of concurrent use: the library, compiled so that its locks
//! and atomics are under a scheduler's control, under every schedule.
mod conc;
mod ids;
mod shim;
mod sched {
    pub use mcstd::sched::point;
}

use mc_core::run::{Cfg, Part};

fn registry(check: &str, cfg: &Cfg) -> Vec<Box<dyn Part>> {
    match check {
        "C19" => conc::c19(cfg),
        "C20" => conc::c20(cfg),
        "C27" => ids::c27(cfg),
        _ => {
            eprintln!("unknown check {check}");
            std::process::exit(2);
        }
    }
}

fn main() {
    mc_core::run::main(registry);
}
