//! Model checker of the UCI controller: see /verif/DESIGN.md.
mod cfg;
mod compare;
mod conf;
mod families;
mod model;
mod msg;
mod run;
mod sched;
mod schedules;
mod settled;
mod sim;
mod trace;
use families::Tier;
use mc_common::Report;
use std::sync::Arc;
use tokio::mc;

/// Hash maps of every execution (a fresh thread) iterate in the same order, so
/// that executions can be enumerated and replayed. `MC_HASH_SEED` selects it.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    use std::sync::atomic::{AtomicU8, Ordering};
    static SEED: AtomicU8 = AtomicU8::new(0);
    let mut s = SEED.load(Ordering::Relaxed);
    if s == 0 {
        s = std::env::var("MC_HASH_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        SEED.store(s, Ordering::Relaxed);
    }
    for i in 0..len {
        // SAFETY: the caller provides `len` writable bytes.
        unsafe { *buf.add(i) = s.wrapping_mul(13).wrapping_add(i as u8) }
    }
    len as isize
}

fn main() {
    mc::install_panic_hook();
    mc_common::sink_logs();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&args[2]),
        Some(p) => {
            let tier = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
            std::process::exit(check(p, tier))
        }
        None => {
            eprintln!("usage: mc-core <property> quick|thorough | replay <file>");
            std::process::exit(2)
        }
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let t = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    if prop == "C16" {
        return trace::check(tier, t);
    }
    let report = Report::new(prop, tier);
    let consts = Arc::new(settled::learn());
    let c = run::Checker { prop, report: &report, consts, deadline: None };
    for fam in families::families(prop, t) {
        let t0 = std::time::Instant::now();
        let ok = c.family(&fam);
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:6.1}s {}", t0.elapsed().as_secs_f64(), fam.name);
        }
        if !ok {
            break;
        }
    }
    if !report.violated() {
        for fam in schedules::families(prop, t) {
            let t0 = std::time::Instant::now();
            let ok = c.schedules(&fam);
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("{:6.1}s {}", t0.elapsed().as_secs_f64(), fam.name);
            }
            if !ok {
                break;
            }
        }
    }
    report.finish("/verif")
}

fn replay(path: &str) {
    let doc: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let r = &doc["replay"];
    let consts = Arc::new(settled::learn());
    println!("property {}: {}", doc["property"], doc["what"]);
    match r["kind"].as_str() {
        Some("settled") => {
            let ops: Vec<settled::Op> = serde_json::from_value(r["ops"].clone()).unwrap();
            let probe: settled::Probe = serde_json::from_value(r["probe"].clone()).unwrap();
            let o = settled::execute(&consts, &ops, probe, true);
            for l in o.transcript {
                println!("{l}")
            }
            for (i, d) in o.diffs {
                println!("operation {i} {:?}: {}", d.tags, d.what)
            }
        }
        Some("sched") => {
            let sc: sched::Scenario = serde_json::from_value(r["scenario"].clone()).unwrap();
            let devs: mc_common::Deviations = serde_json::from_value(r["choices"].clone()).unwrap();
            println!("choices {devs:?}");
            let (_, o) = sched::execute_sched(&consts, &sc, mc_common::Chooser::new(devs));
            for l in &o.transcript {
                println!("{l}")
            }
            for d in &o.diffs {
                println!("{:?}: {}", d.tags, d.what)
            }
            match sched::explain(&o, sched::View::ALL) {
                Ok(n) => println!("explained ({n} model states)"),
                Err(sched::Unexplained::No(e)) => println!("{e}"),
                Err(_) => println!("undecided"),
            }
        }
        Some("trace") => trace::replay(r),
        _ => eprintln!("unknown kind of replay"),
    }
}
