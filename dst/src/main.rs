//! Deterministic simulation with fault injection for fbas_analyzer.
mod bulk;
mod cli;
mod common;
mod conc;
mod drive;
mod forms;
mod gen;
mod model;
mod pipe;
mod proc;
mod qsc;
mod rng;
mod sess;

use common::*;
use sess::{Facet, Sess};
use std::path::Path;

#[global_allocator]
static ALLOC: common::SimAlloc = common::SimAlloc;

pub const PROPS: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27"];

pub fn family(prop: &str) -> Box<dyn Family> {
    match prop {
        "P01" => Box::new(Sess(Facet::Mq)),
        "P02" => Box::new(Sess(Facet::Mbs)),
        "P03" => Box::new(Sess(Facet::Mss)),
        "P04" => Box::new(Sess(Facet::Qi)),
        "P05" => Box::new(Sess(Facet::Tier)),
        "P06" => Box::new(Sess(Facet::Results)),
        "P07" => Box::new(Sess(Facet::Interrupt)),
        "P08" => Box::new(conc::Conc),
        "P10" => Box::new(qsc::Sim(qsc::Kind::Protocol)),
        "P11" => Box::new(qsc::Sim(qsc::Kind::Agree)),
        "P12" => Box::new(qsc::Sim(qsc::Kind::GraphBased)),
        "P13" => Box::new(qsc::Sim(qsc::Kind::Random)),
        "P14" => Box::new(qsc::Sim(qsc::Kind::Graphs)),
        "P15" => Box::new(forms::Forms),
        "P16" => Box::new(forms::Edits),
        "P20" => Box::new(bulk::Bulk(bulk::Kind::Order)),
        "P21" => Box::new(bulk::Bulk(bulk::Kind::Errors)),
        "P22" => Box::new(bulk::Bulk(bulk::Kind::Resume)),
        "P23" => Box::new(bulk::Bulk(bulk::Kind::NoClobber)),
        "P24" => Box::new(cli::Cli),
        "P25" => Box::new(pipe::Pipe),
        "P26" => Box::new(bulk::Bulk(bulk::Kind::Time)),
        "P27" => Box::new(bulk::Bulk(bulk::Kind::Perf)),
        _ => {
            eprintln!("ERROR: unknown property {}", prop);
            std::process::exit(3)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or("");
    let num = |k: usize| arg(k).parse::<u64>().unwrap_or(0);
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match arg(1) {
        // dst check PROP: the registered checks
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let t = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            drive::check(arg(2), tier(&t), seed)
        }
        "worker" => {
            if !have_shim() {
                eprintln!("harness: started without the shim");
                std::process::exit(3);
            }
            drive::worker(arg(2), tier(arg(3)), num(4), num(5), num(6), num(7), num(8), Path::new(arg(9)));
            0
        }
        "runcase" => {
            drive::runcase(arg(2), Path::new(arg(3)), Path::new(arg(4)));
            0
        }
        "replay" => drive::replay(Path::new(arg(2))),
        // dst gen PROP SEED IDX: print a case
        "gen" => {
            let c = family(arg(2)).gen(drive::case_seed(arg(2), num(3), num(4)), Tier::Quick);
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        // dst selftest RUNS PROP...
        "selftest" => {
            let props: Vec<String> = if a.len() > 3 { a[3..].to_vec() } else { PROPS.iter().map(|s| s.to_string()).collect() };
            drive::selftest(&props, num(2).max(50), 1)
        }
        _ => {
            eprintln!("usage: dst check P | replay FILE | selftest RUNS [P..] | gen P SEED IDX");
            3
        }
    };
    std::process::exit(code);
}
