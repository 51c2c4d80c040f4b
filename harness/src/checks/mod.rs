use crate::engine::Cx;
pub use crate::util::*;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c28;
pub mod c29;

pub type Check = fn(&Cx);
pub fn find(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C06" => c06::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C10" => c10::run,
        "C11" => c11::run,
        "C12" => c12::run,
        "C13" => c13::run,
        "C14" => c14::run,
        "C15" => c15::run,
        "C16" => c16::run,
        "C17" => c17::run,
        "C18" => c18::run,
        "C19" => c19::run,
        "C20" => c20::run,
        "C21" => c21::run,
        "C22" => c22::run,
        "C23" => c23::run,
        "C24" => c24::run,
        "C25" => c25::run,
        "C26" => c26::run,
        "C28" => c28::run,
        "C29" => c29::run,
        _ => return None,
    })
}
