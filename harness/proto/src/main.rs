//! Model checking over the network: client, messages and server.
mod apart;
mod bulk;
mod cli;
mod fails;
mod faulty;
mod msgs;
mod net;
mod plug;
mod proxy;
mod raw;
mod same;
mod wire;

use mc_core::run::{Cfg, Part};

fn registry(check: &str, cfg: &Cfg) -> Vec<Box<dyn Part>> {
    let _ = mc_core::explore::SERVE.set(match check {
        "C26" => plug::serve,
        "C28" => cli::serve,
        _ => net::serve,
    });
    match check {
        "C21" => same::c21(cfg),
        "C22" => msgs::c22(cfg),
        "C23" => bulk::c23(cfg),
        "C24" => fails::c24(cfg),
        "C26" => plug::c26(cfg),
        "C28" => cli::c28(cfg),
        "C31" => apart::c31(cfg),
        _ => {
            eprintln!("unknown check {check}");
            std::process::exit(2);
        }
    }
}

fn main() {
    mc_core::run::main(registry);
}
