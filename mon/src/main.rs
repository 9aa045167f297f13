#[macro_use]
mod core;
mod geom;
#[allow(dead_code)]
mod hooks;
#[allow(dead_code)]
mod scene;
#[allow(dead_code)]
mod stats;

#[allow(dead_code)]
mod alloc;
#[allow(dead_code)]
mod clock;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p16;
mod p13;
mod p14;
mod p15;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod p26;
mod p27;
mod p28;
mod p29;
mod p30;
mod p31;
mod p32;

use std::time::Duration;

#[cfg(not(feature = "oidn"))]
#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    let (mut thorough, mut seed, mut out, mut only, mut budget) = (false, 1u64, None, None, None);
    while let Some(a) = args.next() {
        let value = args.next().expect("value");
        match a.as_str() {
            "--tier" => thorough = value == "thorough",
            "--seed" => seed = value.parse().unwrap_or(1),
            "--out" => out = Some(value),
            "--budget" => budget = value.parse().ok(),
            "--only" => {
                only = Some(match value.rsplit_once('#') {
                    Some((w, i)) => (w.to_string(), i.parse().ok()),
                    None => (value, None),
                })
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let table: Vec<(&'static str, &'static str, fn(&core::Run))> = vec![
        ("C01", p01::RULE, p01::run),
        ("C02", p02::RULE, p02::run),
        ("C03", p03::RULE, p03::run),
        ("C04", p04::RULE, p04::run),
        ("C05", p05::RULE, p05::run),
        ("C06", p06::RULE, p06::run),
        ("C07", p07::RULE, p07::run),
        ("C08", p08::RULE, p08::run),
        ("C09", p09::RULE, p09::run),
        ("C10", p10::RULE, p10::run),
        ("C11", p11::RULE, p11::run),
        ("C12", p12::RULE, p12::run),
        ("C16", p16::RULE, p16::run),
        ("C13", p13::RULE, p13::run),
        ("C14", p14::RULE, p14::run),
        ("C15", p15::RULE, p15::run),
        ("C17", p17::RULE, p17::run),
        ("C18", p18::RULE, p18::run),
        ("C19", p19::RULE, p19::run),
        ("C20", p20::RULE, p20::run),
        ("C21", p21::RULE, p21::run),
        ("C22", p22::RULE, p22::run),
        ("C23", p23::RULE, p23::run),
        ("C24", p24::RULE, p24::run),
        ("C25", p25::RULE, p25::run),
        ("C26", p26::RULE, p26::run),
        ("C27", p27::RULE, p27::run),
        ("C28", p28::RULE, p28::run),
        ("C29", p29::RULE, p29::run),
        ("C30", p30::RULE, p30::run),
        ("C31", p31::RULE, p31::run),
        ("C32", p32::RULE, p32::run),
    ];
    let Some((id, rule, f)) = table.into_iter().find(|t| t.0 == prop) else {
        eprintln!("no monitor for {prop}");
        std::process::exit(2);
    };
    let budget = Duration::from_secs(budget.unwrap_or(if thorough { 500 } else { 240 }));
    core::install_panic_hook();
    let run = core::Run::new(id, rule, thorough, seed, only, budget, out);
    f(&run);
    let ok = run.finish();
    std::process::exit(if ok { 0 } else { 1 });
}
