//! Model checker of the servers over TCP: see /verif/DESIGN.md. The arguments
//! are those of the servers, so the check is selected by the environment.
#[path = "../../mc-core/src/cfg.rs"]
#[allow(dead_code)]
mod cfg;
#[path = "../../mc-core/src/compare.rs"]
#[allow(dead_code)]
mod compare;
#[path = "../../mc-core/src/conf.rs"]
#[allow(dead_code)]
mod conf;
#[path = "../../mc-core/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../mc-core/src/msg.rs"]
#[allow(dead_code)]
mod msg;
mod geo;
mod geometry;
mod http;
mod mac;
mod net;
mod options;
mod scene;
mod uci;
mod web;
mod websched;
use conf::Tier;
use mc_common::Report;

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
}

pub fn verbose(s: &str) {
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("{s}")
    }
}

fn main() {
    net::install();
    if let Ok(f) = std::env::var("MC_REPLAY") {
        return replay(&f);
    }
    if let (Ok(f), Ok(out)) = (std::env::var("MC_TRANSCRIPTS"), std::env::var("MC_OUT")) {
        return web::transcripts(&f, &out);
    }
    if let Ok(server) = std::env::var("MC_OPTIONS") {
        return options::child(&server);
    }
    let (Ok(prop), Ok(tier)) = (std::env::var("MC_PROP"), std::env::var("MC_TIER")) else {
        eprintln!("usage: MC_PROP=<property> MC_TIER=quick|thorough mc-net | MC_REPLAY=<file> mc-net");
        std::process::exit(2)
    };
    let t = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let report = Report::new(&prop, &tier);
    match prop.as_str() {
        "C22" => uci::check(&report, t),
        "C27" => options::check(&report, t),
        "C17" | "C18" | "C19" | "C20" => {
            let c = web::Check {
                report: &report,
                consts: web::constants(),
                threads: threads(),
                tier: t,
                deadline: Some(std::time::Instant::now() + std::time::Duration::from_secs(t.pick(300, 840))),
            };
            match prop.as_str() {
                "C17" => web::c17(&c),
                "C19" => geometry::check(&c),
                "C20" => mac::check(&c),
                _ => web::c18(&c),
            }
        }
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
    std::process::exit(report.finish("/verif"))
}

fn replay(file: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let r = &v["replay"];
    println!("property {}: {}", v["property"], v["what"]);
    match r["kind"].as_str() {
        Some("uci") => {
            let c: uci::Case = serde_json::from_value(r["case"].clone()).unwrap();
            let d: mc_common::Deviations = serde_json::from_value(r["choices"].clone()).unwrap();
            let ch = (r["schedule"] == true).then(|| mc_common::Chooser::new(d));
            println!("{c:?}");
            match uci::execute(&uci::learn(), &c, ch).1 {
                None => println!("as specified"),
                Some(b) => println!("{b}"),
            }
        }
        Some("options") => {
            let server: net::Server = serde_json::from_value(r["server"].clone()).unwrap();
            options::replay(server, serde_json::from_value(r["args"].clone()).unwrap(), r["busy"].as_u64().map(|b| b as u16));
        }
        Some("accept") => {
            let server: net::Server = serde_json::from_value(r["server"].clone()).unwrap();
            let arrivals: Vec<uci::Arrival> = serde_json::from_value(r["arrivals"].clone()).unwrap();
            println!("{server:?} {arrivals:?}");
            match uci::accepting(&uci::learn(), server, &arrivals, r["settle"] == true).0 {
                None => println!("as specified"),
                Some(b) => println!("{b}"),
            }
        }
        Some("websched") => {
            let c: websched::Case = serde_json::from_value(r["case"].clone()).unwrap();
            let d: mc_common::Deviations = serde_json::from_value(r["choices"].clone()).unwrap();
            println!("{c:?}");
            match websched::execute(&web::constants(), &c, Some(mc_common::Chooser::new(d))).1.bad {
                None => println!("as specified"),
                Some(b) => println!("{b}"),
            }
        }
        Some("web") => {
            let ops: Vec<scene::Op> = serde_json::from_value(r["ops"].clone()).unwrap();
            for o in &ops {
                println!("{o:?}")
            }
            match http::replay_ops(&web::constants(), &ops, r["watch"] == true).0 {
                None => println!("as specified"),
                Some(b) => println!("{b}"),
            }
        }
        _ => eprintln!("unknown kind of replay"),
    }
}
