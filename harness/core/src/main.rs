//! Properties of messages, bounded: seeded inputs against the real sip-core / sip-parse crates.
mod p15;
mod p16;
mod p17;
mod p18;
mod p22;
use common::Report;
fn main() {
    let mut rep = Report::from_args();
    match rep.prop.as_str() {
        "P15" => p15::run(&mut rep),
        "P17" => p17::run(&mut rep),
        "P18" => p18::run(&mut rep),
        "P16" => p16::run(&mut rep),
        "P22" => p22::run(&mut rep),
        p => panic!("unknown property {p}"),
    }
    rep.finish();
}
