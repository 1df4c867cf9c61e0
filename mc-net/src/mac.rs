//! C20: all addresses and strings within bounds, on the real type.
use crate::conf::Tier;
use crate::scene::{parse_mac, print_mac};
use crate::web::Check;
use mc_common::*;
use pica::MacAddress;
use serde_json::json;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

fn bytes(m: &MacAddress) -> Vec<u8> {
    match m {
        MacAddress::Short(b) => b.to_vec(),
        MacAddress::Extended(b) => b.to_vec(),
    }
}

fn build(b: &[u8]) -> MacAddress {
    match b.len() {
        2 => MacAddress::Short(b.try_into().unwrap()),
        _ => MacAddress::Extended(b.try_into().unwrap()),
    }
}

/// The string is accepted or refused as the property says.
fn parses(s: &str) -> Result<u64, String> {
    state(&s);
    let want = parse_mac(s);
    let got = catch_unwind(|| MacAddress::new(s.to_string()).ok()).map_err(|_| format!("{s:?}: panic"))?;
    if got.map(|m| (bytes(&m), matches!(m, MacAddress::Short(_)))) != want.clone().map(|w| (w.clone(), w.len() == 2)) {
        return Err(format!("{s:?} is {got:?} instead of {want:?}"));
    }
    let j = serde_json::to_string(s).unwrap();
    let de = catch_unwind(|| serde_json::from_str::<MacAddress>(&j).ok()).map_err(|_| format!("{s:?}: panic"))?;
    if de != got {
        return Err(format!("JSON {j} is {de:?} instead of {got:?}"));
    }
    Ok(2)
}

/// Printing, comparing and the numeric value. Returns the number of calls.
fn faithful(b: &[u8]) -> Result<u64, String> {
    state(&b);
    let m = build(b);
    let text = print_mac(b);
    let bad = |what: &str, got: String| Err(format!("{what} of {b:02x?} is {got} instead of {text}"));
    if m.to_string() != text {
        return bad("printing", m.to_string());
    }
    if String::from(m) != text || String::from(&m) != text {
        return bad("the string", String::from(m));
    }
    if serde_json::to_string(&m).ok() != Some(format!("\"{text}\"")) {
        return bad("the JSON", format!("{:?}", serde_json::to_string(&m)));
    }
    if Vec::<u8>::from(m) != b || Vec::<u8>::from(&m) != b {
        return bad("the bytes", format!("{:?}", Vec::<u8>::from(m)));
    }
    let mut le = [0u8; 8];
    le[..b.len()].copy_from_slice(b);
    if u64::from(m) != u64::from_le_bytes(le) || u64::from(&m) != u64::from_le_bytes(le) {
        return bad("the value", u64::from(m).to_string());
    }
    for s in [text.clone(), text.to_lowercase(), text.replace(':', ""), text.replace(':', "%3A")] {
        match MacAddress::new(s.clone()) {
            Ok(p) if p == m && bytes(&p) == b => (),
            r => return Err(format!("{s:?} parses to {r:?} instead of {m:?}")),
        }
    }
    // Different from everything close to it.
    let set: HashSet<MacAddress> = [m].into();
    let mut others: Vec<Vec<u8>> = vec![];
    for i in 0..b.len() * 8 {
        let mut o = b.to_vec();
        o[i / 8] ^= 1 << (i % 8);
        others.push(o);
    }
    for i in 0..b.len() {
        for j in 0..i {
            let mut o = b.to_vec();
            o.swap(i, j);
            others.push(o)
        }
    }
    if b.len() == 2 {
        for pad in [0u8, 0xff] {
            others.push([b, &[pad; 6]].concat());
            others.push([&[pad; 6], b].concat());
        }
        others.push(b.repeat(4));
    } else {
        others.push(b[..2].to_vec());
        others.push(b[6..].to_vec());
    }
    let calls = 12 + 3 * others.len() as u64;
    for o in others {
        let x = build(&o);
        let same = o == b;
        if (x == m) != same || set.contains(&x) != same || (x.to_string() == m.to_string()) != same {
            return Err(format!("{m:?} and {x:?} compare {}", x == m));
        }
    }
    Ok(calls)
}

fn strings(alphabet: &[&str], len: usize, mut i: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[i % alphabet.len()]);
        i /= alphabet.len();
    }
    s
}

/// Removing the colons makes a percent-encoded one: not specified.
fn ambiguous(s: &str) -> bool {
    s.contains('%') && s.replace(':', "").matches("%3A").count() != s.matches("%3A").count()
}

pub fn check(c: &Check) {
    let t = c.tier;
    let block = |name: &str, bounds: &str, n: usize, f: &(dyn Fn(usize) -> Result<u64, String> + Sync)| {
        if c.report.violated() {
            return;
        }
        let t0 = Instant::now();
        let size = 4096;
        let (_, all) = for_all(c.threads, n.div_ceil(size), c.deadline, |k| {
            let mut calls = 0;
            for i in k * size..((k + 1) * size).min(n) {
                let r = catch_unwind(AssertUnwindSafe(|| f(i))).unwrap_or_else(|_| Err(format!("panic in case {i}")));
                match r {
                    Ok(n) => calls += n,
                    Err(e) => {
                        c.report.violation(Violation { what: format!("[{name}] {e}"), replay: json!({"kind": "none", "case": i}) });
                        return false;
                    }
                }
            }
            c.report.add(0, calls, 0);
            true
        });
        c.report.add(0, 0, n as u64);
        c.scenario(name, bounds, n as u64, n as u64, all, t0);
    };
    block("short addresses", "all 65536", 65536, &|i| faithful(&[(i >> 8) as u8, i as u8]));
    block("extended addresses", "every byte value at every position, four backgrounds", 8 * 256 * 4, &|i| {
        let mut b = match i % 4 {
            0 => [0; 8],
            1 => [0xff; 8],
            2 => [1, 2, 3, 4, 5, 6, 7, 8],
            _ => [0xa5; 8],
        };
        b[i / 4 % 8] = (i / 32) as u8;
        faithful(&b)
    });
    if t == Tier::Thorough {
        block("extended addresses, two bytes", "every value of every two adjacent bytes", 7 * 65536, &|i| {
            let mut b = [0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88];
            let p = i % 7;
            b[p] = (i / 7) as u8;
            b[p + 1] = (i / 7 / 256) as u8;
            faithful(&b)
        });
    }
    let alphabet = ["0", "9", "a", "F", "g", ":", "%3A", "%", "\u{e9}", "+", " ", "\u{ff10}", "\0"];
    for len in 0..=t.pick(5, 6) {
        block(&format!("strings of {len}"), "all, over 13 tokens", alphabet.len().pow(len as u32), &|i| {
            let s = strings(&alphabet, len, i);
            if ambiguous(&s) {
                return Ok(0);
            }
            parses(&s)
        });
    }
    let small = ["3", "E", ":", "%3A", "x"];
    for len in 6..=t.pick(8, 10) {
        block(&format!("strings of {len}, small alphabet"), "all, over 5 tokens", small.len().pow(len as u32), &|i| parses(&strings(&small, len, i)));
    }
    // Extended strings.
    let digits = "0123456789abcdef";
    block("colons in an extended address", "all placements", 1 << 17, &|i| {
        let mut s = String::new();
        for (k, d) in digits.chars().enumerate() {
            if i >> k & 1 == 1 {
                s.push_str(if k % 3 == 0 { "%3A" } else { ":" })
            }
            s.push(d)
        }
        if i >> 16 & 1 == 1 {
            s.push(':')
        }
        parses(&s)
    });
    block("case of an extended address", "all", 1 << 16, &|i| {
        let s: String = "abcdefFEDCBAaBcD"
            .chars()
            .enumerate()
            .map(|(k, d)| if i >> k & 1 == 1 { d.to_ascii_uppercase() } else { d.to_ascii_lowercase() })
            .collect();
        parses(&s)
    });
    let all: Vec<char> = (0..0x250u32).chain([0x660, 0x3000, 0xff21, 0xff11, 0x1d7ce, 0x1f600]).filter_map(char::from_u32).collect();
    let n = all.len();
    let texts = ["0C:01", "0c01", "a0:01:02:03:04:05:06:07", "A0b1C2d3E4f50617", "A0%3A01%3A02%3A03%3A04%3A05%3A06%3A07"];
    for text in texts {
        let k = text.len() + 1;
        block(&format!("edits of {text}"), "every character replaced by, every position filled with any of 600 characters; every length", n * k * 2 + k, &|i| {
            if i >= n * k * 2 {
                return parses(&text[..i - n * k * 2]);
            }
            let c = all[i % n];
            let at = i / n % k;
            let mut v: Vec<char> = text.chars().collect();
            if i / n / k == 0 && at < v.len() {
                v[at] = c
            } else {
                v.insert(at, c)
            }
            let s: String = v.into_iter().collect();
            if ambiguous(&s) || s.contains("%3a") {
                return Ok(0);
            }
            parses(&s)
        });
    }
    block("lengths", "0 to 70 digits, with and without colons", 71 * 3, &|i| {
        let d = "5".repeat(i / 3);
        parses(&match i % 3 {
            0 => d,
            1 => d.replace("55", "55:"),
            _ => d.replace("55", "55%3A"),
        })
    });
}
