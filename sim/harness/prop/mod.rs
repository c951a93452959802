pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c15;
pub mod c13;
pub mod c14;
pub mod c09;
pub mod c10;
pub mod piv;
pub mod fido;
pub mod c11;
pub mod c12;
pub mod c16;
pub mod util;

pub struct Info {
    pub quick_runs: u64,
    pub quick_s: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
pub fn info(p: &str) -> Info {
    match p {
        "C01" => c01::INFO,
        "C02" => c02::INFO,
        "C03" => c03::INFO,
        "C04" => c04::INFO,
        "C05" => c05::INFO,
        "C06" => c06::INFO,
        "C07" => c07::INFO,
        "C08" => c08::INFO,
        "C15" => c15::INFO,
        "C13" => c13::INFO,
        "C14" => c14::INFO,
        "C09" => c09::INFO,
        "C10" => c10::INFO,
        "C11" => c11::INFO,
        "C12" => c12::INFO,
        "C16" => c16::INFO,
        _ => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
}
/// Once per process, before any run is forked off.
pub fn prepare(p: &str) {
    if p == "C12" || p == "C16" {
        c12::prepare();
    }
}
pub fn run(p: &str) {
    crate::seam::activate();
    match p {
        "C01" => c01::run(),
        "C02" => c02::run(),
        "C03" => c03::run(),
        "C04" => c04::run(),
        "C05" => c05::run(),
        "C06" => c06::run(),
        "C07" => c07::run(),
        "C08" => c08::run(),
        "C15" => c15::run(),
        "C13" => c13::run(),
        "C14" => c14::run(),
        "C09" => c09::run(),
        "C10" => c10::run(),
        "C11" => c11::run(),
        "C12" => c12::run(),
        "C16" => c16::run(),
        _ => unreachable!(),
    }
}
