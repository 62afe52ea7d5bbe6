mod algebra;
mod cli;
mod core;
mod elements;
mod expect;
mod fix;
mod p05;
mod faults;
mod p12;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p22;
mod p23;
mod p24;
mod p25;
mod p03;
mod shape;
mod p01;
mod gen;
mod ignore;
mod layout;
mod forest;
mod parse;
mod p27;
mod p28;
mod p29;
mod report;
mod rules;
mod twigref;
mod vocab;
mod world;
mod p04;
mod vary;
mod p06;

use core::{Ctx, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mc <property> <quick|thorough> | mc parse <text>...");
        std::process::exit(2);
    }
    if args[1] == "parse" {
        for t in &args[2..] {
            let p = ludtwig_parser::parse(t);
            println!(
                "{t:?} errors={} {}",
                p.errors.len(),
                p.errors.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" / ")
            );
            if std::env::var("T").is_ok() {
                println!("{}", p.debug_parse());
            }
        }
        return;
    }
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let checks: &[(&'static str, fn(&Ctx))] = &[
        ("P01", p01::p01),
        ("P02", p01::p02),
        ("P03", p03::p03),
        ("P04", p04::p04),
        ("P09", fix::p09),
        ("P10", fix::p10),
        ("P11", fix::p11),
    ("P12", p12::p12),
        ("P05", p05::p05),
        ("P06", p06::p06),
        ("P13", rules::p13),
        ("P14", rules::p14),
        ("P15", p15::p15),
        ("P16", p16::p16),
        ("P17", p17::p17),
        ("P18", p18::p18),
        ("P19", p19::p19),
        ("P21", p19::p21),
        ("P22", p22::p22),
        ("P23", p23::p23),
        ("P24", p24::p24),
        ("P25", p25::p25),
        ("P26", report::p26),
        ("P27", p27::p27),
        ("P28", p28::p28),
        ("P29", p29::p29),
        ("P20", p17::p20),
        ("P07", ignore::p07),
        ("P08", ignore::p08),
    ];
    let Some((name, f)) = checks.iter().find(|c| c.0 == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    let ctx = Ctx::new(name, tier);
    f(&ctx);
    std::process::exit(ctx.finish());
}
