//! Model checking of the library crate: sequential conformance, storage
//! faults, crash points and schedules, all on the real code.
mod build;
mod crash;
mod disk;
mod faults;
mod image;
mod pair;
mod persist;
mod pure;
mod relay;
mod sched;
mod seq;
mod shim;
mod txn;
mod wide;

use mc_core::run::{Cfg, Part};

fn both(mut a: Vec<Box<dyn Part>>, b: Vec<Box<dyn Part>>) -> Vec<Box<dyn Part>> {
    a.extend(b);
    a
}

fn registry(check: &str, cfg: &Cfg) -> Vec<Box<dyn Part>> {
    match check {
        "C01" => both(seq::c01(cfg), wide::cycles(cfg)),
        "C02" => both(seq::c02(cfg), wide::cascades(cfg)),
        "C03" => both(seq::c03(cfg), wide::views(cfg)),
        "C04" => both(both(seq::c04(cfg), wide::indexes(cfg)), wide::large(cfg)),
        "C05" => both(seq::c05(cfg), wide::queries(cfg)),
        "C06" => both(seq::c06(cfg), wide::pages(cfg)),
        "C07" => both(seq::c07(cfg), wide::by_query(cfg)),
        "C08" => faults::c08(cfg),
        "C09" => seq::c09(cfg),
        "C10" => pure::c10(cfg),
        "C11" => pure::c11(cfg),
        "C12" => pure::c12(cfg),
        "C13" => pure::c13(cfg),
        "C14" => both(persist::c14(cfg), relay::parts(cfg, false)),
        "C15" => image::c15(cfg),
        "C16" => both(persist::c16(cfg), relay::parts(cfg, true)),
        "C17" => crash::c17(cfg),
        "C18" => crash::c18(cfg),
        "C29" => txn::c29(cfg),
        "C30" => txn::c30(cfg),
        "C32" => build::c32(cfg),
        "C33" => pair::c33(cfg),
        _ => {
            eprintln!("unknown check {check}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("child") {
        image::child(&args[2..]);
    }
    if args.get(1).map(String::as_str) == Some("meet") {
        pair::child(&args[2..]);
    }
    if args.get(1).map(String::as_str) == Some("relay") {
        relay::child(&args[2..]);
    }
    mc_core::run::main(registry);
}
