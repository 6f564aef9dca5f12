pub mod common;
pub mod damage;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p21;
mod p23;

use crate::exec::Scenario;
pub fn lookup(p: &str) -> Option<Scenario> {
    Some(match p {
        "P01" => p01::run,
        "P02" => p02::run,
        "P03" => p03::run,
        "P04" => p04::run,
        "P05" => p05::run,
        "P06" => p06::run,
        "P07" => p07::run,
        "P08" => p08::run,
        "P09" => p09::run,
        "P10" => p10::run,
        "P11" => p11::run,
        "P12" => p12::run,
        "P13" => p13::run,
        "P14" => p14::run,
        "P15" => p15::run,
        "P16" => p16::run,
        "P17" => p17::run,
        "P18" => p18::run,
        "P19" => p19::run,
        "P21" => p21::run,
        "P23" => p23::run,
        _ => return None,
    })
}
