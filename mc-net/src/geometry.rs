//! C19: measurements and poses of the real server over grids of poses.

use crate::geo::*;
use crate::http::*;
use crate::net::*;
use crate::web::Check;
use mc_common::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;

/// One execution: anchors at these poses, one more that takes these poses in
/// turn, and is measured against all others each time.
#[derive(Clone)]
struct Job {
    fixed: Vec<Pose>,
    moving: Vec<Pose>,
}

fn mac(i: usize) -> String {
    format!("{:02X}:{:02X}", 0x10 + i / 256, i % 256)
}

fn ask(net: &mut Net, w: &mut Web, path: &str, body: Option<&[u8]>) -> Result<Response, String> {
    w.send(path, body);
    net.settle();
    if let Some(b) = net.broken() {
        return Err(format!("{path} {}: {b}", String::from_utf8_lossy(body.unwrap_or(&[]))));
    }
    let r = w.only().map_err(|e| format!("{path}: {e}"))?;
    if r.status != 200 {
        return Err(format!("{path} {}: status {}", String::from_utf8_lossy(body.unwrap_or(&[])), r.status));
    }
    Ok(r)
}

/// The failing pair, if any; the number of pairs.
fn execute(job: &Job) -> (Option<(String, Value)>, u64) {
    let job = job.clone();
    run(Server::Http, move |net| {
        let mut pairs = 0;
        let mut go = || -> Result<(), (String, Value)> {
            let none = |s: String| (s, Value::Null);
            let mut w = Web::open().ok_or(none("the server does not listen".into()))?;
            let mut all: HashMap<String, (Pose, Mat)> = HashMap::new();
            for (i, p) in job.fixed.iter().enumerate() {
                ask(net, &mut w, &format!("/create-anchor/{}", mac(i)), Some(&p.body())).map_err(|e| (e, json!([p])))?;
                all.insert(mac(i), (*p, p.rotation()));
            }
            ask(net, &mut w, "/create-anchor/FF:FF", None).map_err(none)?;
            let mut l = Web::open().ok_or(none("the server does not listen".into()))?;
            l.send("/events", None);
            net.settle();
            let state = |net: &mut Net, w: &mut Web, me: &Pose, all: &HashMap<String, (Pose, Mat)>, only_me: bool| -> Result<(), (String, Value)> {
                let r = ask(net, w, "/get-state", None).map_err(none)?;
                let v: Value = serde_json::from_slice(&r.body).map_err(|e| none(e.to_string()))?;
                for d in v["devices"].as_array().into_iter().flatten() {
                    let m = d["mac_address"].as_str().unwrap_or("");
                    let want = if m == "FF:FF" {
                        me
                    } else if only_me {
                        continue;
                    } else {
                        &all.get(m).ok_or(none(format!("device {m}")))?.0
                    };
                    if !Pose::read(d).is_some_and(|p| want.reads_back(&p)) {
                        return Err((format!("{want:?} reads back as {d}"), json!([want])));
                    }
                }
                Ok(())
            };
            state(net, &mut w, &Pose::default(), &all, false)?;
            for p in &job.moving {
                let rot = p.rotation();
                ask(net, &mut w, "/set-position/FF:FF", Some(&p.body())).map_err(|e| (e, json!([p])))?;
                let ev = l.events().map_err(none)?;
                let mut n = 0;
                let mut ranges: HashMap<String, i64> = HashMap::new();
                for (name, v) in &ev {
                    if name != "neighbor-updated" {
                        if !Pose::read(v).is_some_and(|q| p.reads_back(&q)) {
                            return Err((format!("{p:?} is announced as {v}"), json!([p])));
                        }
                        continue;
                    }
                    n += 1;
                    let (s, d) = (v["source_mac_address"].as_str().unwrap_or(""), v["destination_mac_address"].as_str().unwrap_or(""));
                    let other = if s == "FF:FF" { d } else { s };
                    let (q, qrot) = all.get(other).ok_or(none(format!("event {v}")))?;
                    let num = |k: &str| v[k].as_i64();
                    let m = (|| Some((num("distance")?.try_into().ok()?, num("azimuth")?.try_into().ok()?, num("elevation")?.try_into().ok()?)))();
                    let ok = m.is_some_and(|m| if s == "FF:FF" { agrees(&rot, p, q, m) } else { agrees(qrot, q, p, m) });
                    if !ok {
                        return Err((format!("poses {p:?} (FF:FF) and {q:?}: {v}"), json!([p, q])));
                    }
                    let d = num("distance").unwrap();
                    if ranges.insert(other.to_string(), d).is_some_and(|o| o != d) {
                        return Err((format!("poses {p:?} and {q:?}: different ranges in the two directions"), json!([p, q])));
                    }
                }
                pairs += n;
                if n != 2 * job.fixed.len() as u64 {
                    return Err((format!("{n} neighbor events after {p:?}, with {} other devices", job.fixed.len()), json!([p])));
                }
                state(net, &mut w, p, &all, true)?;
            }
            Ok(())
        };
        let r = go().err();
        (r, pairs)
    })
}

fn grid(v: &[i16]) -> Vec<[i16; 3]> {
    let mut out = vec![];
    for x in v {
        for y in v {
            for z in v {
                out.push([*x, *y, *z])
            }
        }
    }
    out
}

fn angles(yaw: &[i16], pitch: &[i8], roll: &[i16]) -> Vec<(i16, i8, i16)> {
    let mut out = vec![];
    for y in yaw {
        for p in pitch {
            for r in roll {
                out.push((*y, *p, *r))
            }
        }
    }
    out
}

fn jobs(fixed: &[Pose], moving: &[Pose]) -> Vec<Job> {
    let mut out = vec![];
    for f in fixed.chunks(100) {
        for m in moving.chunks(60) {
            out.push(Job { fixed: f.to_vec(), moving: m.to_vec() })
        }
    }
    out
}

pub fn check(c: &Check) {
    let t = c.tier;
    let pose = |p: &[i16; 3], a: &(i16, i8, i16)| Pose::new(p[0], p[1], p[2], a.0, a.1, a.2);
    let right: Vec<i16> = (-180..=180).step_by(90).collect();
    let every = |n: usize| (-180..=180).step_by(n).collect::<Vec<i16>>();
    let every_pitch = |n: usize| (-90..=90).step_by(n).map(|p: i16| p as i8).collect::<Vec<i8>>();
    let step = t.pick(15, 5);
    let rotations = angles(&every(step), &every_pitch(t.pick(15, 5)), &every(t.pick(30, 15)));
    let small = grid(&[-2, -1, 0, 1, 2]);
    let wide = grid(&t.pick(vec![i16::MIN, -20000, -1, 0, 300, i16::MAX], vec![i16::MIN, -30000, -20000, -777, -1, 0, 1, 300, 12345, i16::MAX]));
    let near = |v: &[i16; 3]| *v != [0, 0, 0];
    let mut families: Vec<(&str, String, Vec<Job>)> = vec![];
    // Directions in rotated frames.
    {
        let fixed: Vec<Pose> = small.iter().filter(|v| near(v)).map(|v| Pose::at(v[0], v[1], v[2])).collect();
        let moving: Vec<Pose> = rotations.iter().map(|a| pose(&[0, 0, 0], a)).collect();
        families.push(("rotations among near devices", format!("{} positions x {} rotations", fixed.len(), moving.len()), jobs(&fixed, &moving)));
        // The measured device is rotated as well.
        let fixed: Vec<Pose> = small
            .iter()
            .filter(|v| near(v))
            .zip(rotations.iter().cycle().step_by(7))
            .map(|(v, a)| pose(&[v[0] * 97, v[1] * 103, v[2] * 89], a))
            .collect();
        let moving: Vec<Pose> = rotations.iter().step_by(t.pick(5, 1)).map(|a| pose(&[1, -2, 3], a)).collect();
        families.push(("two rotated devices", format!("{} poses x {} rotations", fixed.len(), moving.len()), jobs(&fixed, &moving)));
    }
    // Every single degree about one axis.
    {
        let fixed: Vec<Pose> = grid(&[-1, 0, 1]).iter().filter(|v| near(v)).map(|v| Pose::at(v[0] * 500, v[1] * 300, v[2] * 400)).collect();
        let mut moving: Vec<Pose> = vec![];
        for d in -180..=180 {
            moving.push(Pose::new(0, 0, 0, d, 0, 0));
            moving.push(Pose::new(0, 0, 0, 0, 0, d));
            moving.push(Pose::new(0, 0, 0, d, 30, -45));
            moving.push(Pose::new(0, 0, 0, 60, -20, d));
        }
        for d in -90..=90 {
            moving.push(Pose::new(0, 0, 0, 0, d, 0));
            moving.push(Pose::new(0, 0, 0, 100, d, 15));
            moving.push(Pose::new(0, 0, 0, -135, d, 180));
        }
        families.push(("every degree about one axis", format!("{} positions x {} rotations", fixed.len(), moving.len()), jobs(&fixed, &moving)));
    }
    // Distances up to the extremes, from every point to every point.
    {
        let rots = angles(&right, &[-90, 0, 90], &[0]);
        let rots: Vec<_> = t.pick(vec![(0, 0, 0), (90, 0, 0), (-37, 21, 155)], rots);
        let fixed: Vec<Pose> = wide.iter().zip(rots.iter().cycle()).map(|(v, a)| pose(v, a)).collect();
        let mut moving = vec![];
        for v in &wide {
            for a in &rots {
                moving.push(pose(v, a))
            }
        }
        families.push(("extreme distances", format!("{} x {} poses", fixed.len(), moving.len()), jobs(&fixed, &moving)));
    }
    // Close and aligned devices, at every distance around the cap.
    {
        let mut fixed = vec![];
        for d in 1..t.pick(60, 99) {
            fixed.push(Pose::at(d, 0, 0));
        }
        for (k, d) in [32760, 32765, 32766, 32767].iter().enumerate() {
            fixed.push(Pose::at(*d, k as i16, 0));
            fixed.push(Pose::at(*d, 0, k as i16));
        }
        let mut moving = vec![];
        for d in [0, -1, -2, -3, -32766, -32767, -32768] {
            for y in [0, 1, -255, 255, 256, 257] {
                moving.push(Pose::new(d, y, 0, 90, 0, 0));
                moving.push(Pose::new(d, 0, y, 0, 90, 0));
            }
        }
        families.push(("distances around the cap", format!("{} x {} poses", fixed.len(), moving.len()), jobs(&fixed, &moving)));
    }
    // All rotations read back.
    {
        let mut moving = vec![];
        for a in angles(&every(t.pick(10, 3)), &every_pitch(t.pick(10, 3)), &every(t.pick(15, 10))) {
            moving.push(pose(&[-5, 6, 7], &a))
        }
        families.push(("rotations read back", format!("{} poses", moving.len()), jobs(&[Pose::at(1, 2, 3)], &moving)));
    }
    for (name, bounds, js) in families {
        if c.report.violated() {
            return;
        }
        let t0 = Instant::now();
        let total = AtomicU64::new(0);
        let js = Arc::new(js);
        let (n, all) = for_all(c.threads, js.len(), c.deadline, |i| {
            let (bad, pairs) = execute(&js[i]);
            total.fetch_add(pairs, Ordering::Relaxed);
            c.report.add(pairs, js[i].moving.len() as u64, 1);
            if let Some((b, poses)) = bad {
                c.report.violation(Violation { what: format!("[{name}] {b}"), replay: json!({"kind": "poses", "poses": poses}) });
                return false;
            }
            true
        });
        c.scenario(name, &bounds, total.load(Ordering::Relaxed), n as u64, all, t0);
    }
}
