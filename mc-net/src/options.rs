//! C27: the servers listen where their command line says. Every command line
//! is given to a process of its own, which runs the real main function over
//! in-memory TCP and reports what listens, answers and is written.
use crate::conf::Tier;
use crate::http::Web;
use crate::msg::*;
use crate::net::*;
use mc_common::{for_all, state, Report, Violation};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use tokio::net::host_connect;

// ---- the process of one command line ----------------------------------------

fn answers(port: u16) -> Option<Vec<Host>> {
    let mut hosts = vec![];
    for _ in 0..2 {
        hosts.push(Host { peer: host_connect(port)?, buf: vec![], asm: Default::default() });
    }
    Some(hosts)
}

fn files(dir: &Path, at: &str, out: &mut Vec<(String, u64)>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let name = format!("{at}{}", e.file_name().to_string_lossy());
        match e.metadata() {
            Ok(m) if m.is_dir() => files(&e.path(), &format!("{name}/"), out),
            Ok(m) => out.push((name, m.len())),
            Err(_) => (),
        }
    }
}

/// Runs the server named with the arguments of this process.
pub fn child(server: &str) {
    let server = if server == "http" { Server::Http } else { Server::Uci };
    let busy: Option<u16> = std::env::var("MC_BUSY").ok().and_then(|p| p.parse().ok());
    let report = run_with(server, move || busy.into_iter().for_each(tokio::net::occupy), move |n| {
        let ended = n.broken();
        let listening: BTreeSet<u16> = tokio::net::listening().into_iter().filter(|p| Some(*p) != busy).collect();
        let mut speaks = vec![];
        if ended.is_none() {
            for port in &listening {
                // Hosts are answered on a UCI port.
                let mut hosts = answers(*port).unwrap();
                n.settle();
                for h in &hosts {
                    h.peer.feed(&reset());
                    n.settle();
                    h.peer.feed(&get_count());
                    n.settle();
                }
                n.advance(50);
                let uci = hosts.iter_mut().all(|h| {
                    let m = h.take();
                    m.iter().any(|m| m.mt == RSP && m.gid == SCFG && m.payload == [0, 0])
                });
                if uci {
                    speaks.push((*port, "uci".to_string(), hosts.len()));
                }
                hosts.iter().for_each(|h| if !uci { h.peer.close() });
                n.settle();
                std::mem::forget(hosts);
            }
            for port in &listening {
                if speaks.iter().any(|s| s.0 == *port) {
                    continue;
                }
                let mut w = Web::on(*port).unwrap();
                w.send("/get-state", None);
                n.settle();
                if let Ok(r) = w.only() {
                    let v: Value = serde_json::from_slice(&r.body).unwrap_or_default();
                    speaks.push((*port, "http".into(), v["devices"].as_array().map_or(999, |d| d.len())));
                }
            }
        }
        let ended = ended.or(n.broken());
        let mut written = vec![];
        files(Path::new("."), "", &mut written);
        json!({"ended": ended, "listening": listening, "speaks": speaks, "files": written})
    });
    println!("REPORT {report}");
}

// ---- command lines ------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Line {
    server: Server,
    args: Vec<OsString>,
    /// What they mean: the ports and the directory; None: they cannot be used.
    means: Option<Means>,
    busy: Option<u16>,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Means {
    uci: Option<u16>,
    web: Option<u16>,
    dir: Option<OsString>,
}

#[derive(Clone, Debug)]
enum Opt {
    Uci(&'static str),
    Web(&'static str),
    Dir(OsString),
}

fn spell(o: &Opt, form: usize) -> Vec<OsString> {
    let (short, long, v): (&str, &str, OsString) = match o {
        Opt::Uci(v) => ("-u", "--uci-port", v.into()),
        Opt::Web(v) => ("-w", "--web-port", v.into()),
        Opt::Dir(v) => ("-p", "--pcapng-dir", v.clone()),
    };
    let join = |a: &str, b: &str| {
        let mut s = OsString::from(a);
        s.push(b);
        s.push(&v);
        s
    };
    match form {
        0 => vec![long.into(), v],
        1 => vec![join(long, "=")],
        2 => vec![short.into(), v],
        3 => vec![join(short, "")],
        _ => vec![join(short, "=")],
    }
}

fn meaning(opts: &[Opt]) -> Option<Means> {
    let mut m = Means::default();
    for o in opts {
        match o {
            Opt::Uci(v) if m.uci.is_none() => m.uci = Some(v.parse().ok()?),
            Opt::Web(v) if m.web.is_none() => m.web = Some(v.parse().ok()?),
            Opt::Dir(v) if m.dir.is_none() => m.dir = Some(v.clone()),
            _ => return None,
        }
    }
    Some(m)
}

const PORTS: &[&str] = &["7001", "3001", "1", "80", "255", "256", "2999", "3000", "6999", "7000", "32767", "32768", "65535"];
const BAD: &[&str] = &["65536", "70000", "72536", "-1", "x", "", "7000x", "1.5", "0x1b58", "7,000", "localhost:7000"];
/// Directories that exist where the server runs.
fn dirs() -> Vec<OsString> {
    vec!["traces".into(), "deep/er".into(), "with space".into(), ".".into(), "-".into(), "a=b".into(), OsString::from_vec(vec![b'n', 0xff, b'x'])]
}

fn line(server: Server, opts: &[Opt], forms: &[usize]) -> Line {
    let args = opts.iter().zip(forms).flat_map(|(o, f)| spell(o, *f)).collect();
    Line { server, args, means: meaning(opts), busy: None }
}

fn orders<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut o in orders(&rest) {
            o.insert(0, x.clone());
            out.push(o);
        }
    }
    out
}

fn forms(n: usize) -> Vec<Vec<usize>> {
    (0..5usize.pow(n as u32)).map(|mut i| (0..n).map(|_| { let f = i % 5; i /= 5; f }).collect()).collect()
}

fn lines(t: Tier) -> Vec<(&'static str, &'static str, Vec<Line>)> {
    let both = [Server::Uci, Server::Http];
    let ports = |s: Server| -> Vec<fn(&'static str) -> Opt> { if s == Server::Uci { vec![Opt::Uci] } else { vec![Opt::Uci, Opt::Web] } };
    let mut single = vec![];
    for s in both {
        single.push(line(s, &[], &[]));
        for f in 0..5 {
            for k in ports(s) {
                for p in PORTS {
                    single.push(line(s, &[k(p)], &[f]));
                }
            }
            for d in dirs() {
                single.push(line(s, &[Opt::Dir(d)], &[f]));
            }
        }
    }
    let mut several = vec![];
    let few = t.pick(&PORTS[..2], &PORTS[..4]);
    for s in both {
        for d in dirs().into_iter().take(t.pick(2, 7)) {
            for a in few {
                for b in ["3000", "7000", "3001"].into_iter().take(if s == Server::Uci { 1 } else { 3 }) {
                    let all = if s == Server::Uci { vec![Opt::Uci(a), Opt::Dir(d.clone())] } else { vec![Opt::Uci(a), Opt::Web(b), Opt::Dir(d.clone())] };
                    for o in orders(&all) {
                        for f in forms(o.len()) {
                            several.push(line(s, &o, &f));
                        }
                    }
                }
            }
        }
    }
    // Every pair of ports, also the same one.
    for a in PORTS {
        for b in PORTS {
            for (i, o) in orders(&[Opt::Uci(a), Opt::Web(b)]).iter().enumerate() {
                several.push(line(Server::Http, o, &[i, 1 - i]));
            }
        }
    }
    let mut unusable = vec![];
    for s in both {
        let good: Vec<Vec<Opt>> = {
            let mut g = vec![vec![], vec![Opt::Uci("7001")], vec![Opt::Dir("traces".into())]];
            if s == Server::Http {
                g.push(vec![Opt::Web("3001"), Opt::Uci("7001")]);
            }
            g
        };
        for g in &good {
            for i in 0..=g.len() {
                // A bad port, a repeated option.
                for k in ports(s) {
                    for p in BAD.iter().chain(&["7001", "3001"]) {
                        for f in 0..5 {
                            // An empty value needs a place of its own.
                            if p.is_empty() && f == 3 {
                                continue;
                            }
                            let mut o = g.clone();
                            o.insert(i, k(p));
                            let l = line(s, &o, &vec![f; o.len()]);
                            if l.means.is_none() {
                                unusable.push(l);
                            }
                        }
                    }
                }
                // Unknown ones.
                for bad in ["--uci", "--port", "-x", "7001", "--uci-ports", "--web", "--pcapng", "-W", "--uci_port=7001"] {
                    let mut args: Vec<OsString> = vec![];
                    for (j, o) in g.iter().enumerate() {
                        if i == j {
                            args.push(bad.into());
                        }
                        args.extend(spell(o, 0));
                    }
                    if i == g.len() {
                        args.push(bad.into());
                    }
                    unusable.push(Line { server: s, args, means: None, busy: None });
                }
            }
            // No value, or an option of the other server.
            for last in ["--uci-port", "-u", "--pcapng-dir", "-p", "--web-port", "-w"] {
                let mut args: Vec<OsString> = g.iter().flat_map(|o| spell(o, 0)).collect();
                args.push(last.into());
                unusable.push(Line { server: s, args, means: None, busy: None });
            }
            if s == Server::Uci {
                for args in [vec!["--web-port", "3001"], vec!["-w", "3001"], vec!["-w3001"]] {
                    unusable.push(Line { server: s, args: args.into_iter().map(Into::into).collect(), means: None, busy: None });
                }
            }
        }
    }
    // Ports that someone else listens to.
    let mut busy = vec![];
    for s in both {
        for port in [7000u16, 3000, 7001] {
            for o in [vec![], vec![Opt::Uci("7001")], vec![Opt::Uci("3000")], vec![Opt::Dir("traces".into())]] {
                for web in [None, Some("7000"), Some("3001")] {
                    if s == Server::Uci && web.is_some() {
                        continue;
                    }
                    let mut o = o.clone();
                    o.extend(web.map(Opt::Web));
                    let mut l = line(s, &o, &vec![0; o.len()]);
                    l.busy = Some(port);
                    busy.push(l);
                }
            }
        }
    }
    vec![
        ("one option", "no option; each option in 5 forms with 13 ports or 7 directories", single),
        ("several options", "all options in every order and combination of 5 forms; every pair of 13 ports", several),
        ("unusable", "ports that are none, unknown, repeated and incomplete options, between others", unusable),
        ("busy ports", "3 ports in use x 4 sets of options x 3 web ports", busy),
    ]
}

fn spawn(l: &Line) -> Result<(Option<i32>, Option<Value>, String), String> {
    let dir = PathBuf::from(format!("{}/mc-options-{}-{:?}", std::env::var("MC_TRACE_ROOT").unwrap_or("/tmp".into()), std::process::id(), std::thread::current().id()).replace(['(', ')'], "-"));
    for d in dirs() {
        std::fs::create_dir_all(dir.join(Path::new(std::ffi::OsStr::from_bytes(d.as_bytes())))).map_err(|e| format!("{e}"))?;
    }
    let mut c = std::process::Command::new(std::env::current_exe().map_err(|e| format!("{e}"))?);
    c.args(&l.args).current_dir(&dir).env("MC_OPTIONS", if l.server == Server::Http { "http" } else { "uci" }).env("RUST_LOG", "off");
    c.env_remove("MC_PROP").stdin(std::process::Stdio::null());
    if let Some(b) = l.busy {
        c.env("MC_BUSY", b.to_string());
    }
    let out = c.output();
    let _ = std::fs::remove_dir_all(&dir);
    let out = out.map_err(|e| format!("{e}"))?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let report = text.lines().find_map(|l| l.strip_prefix("REPORT ")).and_then(|r| serde_json::from_str(r).ok());
    Ok((out.status.code(), report, text + &String::from_utf8_lossy(&out.stderr)))
}

fn judge(l: &Line, code: Option<i32>, report: Option<Value>, text: &str) -> Option<String> {
    let http = l.server == Server::Http;
    let means = l.means.clone().map(|m| (m.uci.unwrap_or(7000), http.then(|| m.web.unwrap_or(3000)), m.dir));
    let means = means.filter(|m| Some(m.0) != m.1).filter(|m| l.busy.is_none() || Some(m.0) != l.busy && m.1 != l.busy);
    let Some(r) = report else {
        if code == Some(3) || code.is_none() {
            return Some(format!("the server breaks: {code:?} {text}"));
        }
        return match means {
            Some(_) => Some(format!("the server ends: {text}")),
            None if code == Some(0) => Some("the server ends without an error".into()),
            None if text.trim().is_empty() => Some("the server ends without a word".into()),
            None => None,
        };
    };
    let ended = !r["ended"].is_null();
    let Some((uci, web, dir)) = means else {
        return if ended { None } else { Some(format!("the server runs, and listens to {}", r["listening"])) };
    };
    if ended {
        return Some(format!("the server ends: {} {text}", r["ended"]));
    }
    let mut want: Vec<Value> = vec![json!([uci, "uci", 2])];
    want.extend(web.map(|w| json!([w, "http", 2])));
    let mut got = r["speaks"].as_array().cloned().unwrap_or_default();
    let key = |v: &Value| v[0].as_u64();
    want.sort_by_key(key);
    got.sort_by_key(key);
    if want != got || r["listening"].as_array().map(|a| a.len()) != Some(want.len()) {
        return Some(format!("listens to {}: {}, expected {}", r["listening"], json!(got), json!(want)));
    }
    let files: Vec<(String, u64)> = serde_json::from_value(r["files"].clone()).unwrap_or_default();
    match dir {
        None if files.is_empty() => None,
        None => Some(format!("writes {files:?}")),
        Some(d) => {
            let d = d.to_string_lossy().to_string();
            let at = if d == "." { String::new() } else { format!("{d}/") };
            // Something else on the port that is no host leaves traces too.
            let good = files.len() == 2 && files.iter().all(|(f, n)| f.starts_with(&at) && !f[at.len()..].contains('/') && *n > 0);
            (!good).then(|| format!("writes {files:?}, expected a trace of each host in {d:?}"))
        }
    }
}

fn text(args: &[OsString]) -> Vec<String> {
    args.iter().map(|a| a.to_string_lossy().to_string()).collect()
}

pub fn check(report: &Report, t: Tier) {
    for (name, bounds, lines) in lines(t) {
        let t0 = std::time::Instant::now();
        let (_, all) = for_all(crate::threads(), lines.len(), None, |i| {
            let l = &lines[i];
            let bad = match spawn(l) {
                Ok((code, r, text)) => judge(l, code, r, &text),
                Err(e) => {
                    eprintln!("harness error: {e}");
                    std::process::exit(3)
                }
            };
            report.add(0, 1 + l.args.len() as u64, 1);
            state(&format!("{:?} {:?}", l.server, l.args));
            match bad {
                None => true,
                Some(what) => {
                    report.violation(Violation {
                        what: format!("[{name}] {:?} {:?}{}: {what}", l.server, text(&l.args), l.busy.map_or(String::new(), |b| format!(", port {b} in use"))),
                        replay: json!({"kind": "options", "server": l.server, "args": text(&l.args), "busy": l.busy}),
                    });
                    false
                }
            }
        });
        if !all {
            report.not_exhaustive()
        }
        report.scenario(json!({
            "name": name,
            "bounds": bounds,
            "cases": lines.len(),
            "executions": lines.len(),
            "complete": all,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        crate::verbose(&format!("{:6.1}s {:7} {name}", t0.elapsed().as_secs_f64(), lines.len()));
        if report.violated() {
            return;
        }
    }
}

pub fn replay(server: Server, args: Vec<String>, busy: Option<u16>) {
    let l = Line { server, args: args.into_iter().map(Into::into).collect(), means: None, busy };
    match spawn(&l) {
        Ok((code, r, text)) => println!("{code:?} {r:?}\n{text}"),
        Err(e) => println!("{e}"),
    }
}
