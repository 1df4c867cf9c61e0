//! Comparison of what hosts observe with what the model says, and which
//! properties a difference concerns.
use crate::msg::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Tags = BTreeSet<&'static str>;

/// What the execution did so far, for attribution.
#[derive(Clone, Debug, Default)]
pub struct Ctx {
    /// Host and session the current operation acts on, if any.
    pub host: Option<usize>,
    pub session: Option<u32>,
    /// (gid, oid) of the current command.
    pub cmd: Option<(u8, u8)>,
    pub connecting: bool,
    /// Kinds of operations in the history.
    pub had_reset: bool,
    pub had_disconnect: bool,
    pub had_remove: bool,
    pub had_mcast: bool,
    pub had_anchor: bool,
    pub had_data: bool,
    pub had_malformed: bool,
    /// The current operation sends a packet in several segments.
    pub segmented: bool,
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub tags: Tags,
    pub what: String,
}

fn concat_data(v: &[&Msg]) -> (Vec<u8>, bool) {
    let mut out = Vec::new();
    let mut ok = true;
    for m in v {
        match m.app_data() {
            Some(d) => {
                ok &= m.payload[4] == 0;
                out.extend_from_slice(d)
            }
            None => ok = false,
        }
    }
    (out, ok)
}

/// A DataRcv of the model carries the whole data after a 13-byte prefix.
fn model_data(v: &[&Msg]) -> Vec<u8> {
    v.iter().flat_map(|m| m.payload[13..].to_vec()).collect()
}

pub fn same_stream(s: Stream, exp: &[&Msg], obs: &[&Msg]) -> bool {
    match s {
        Stream::Data(..) => {
            let (d, ok) = concat_data(obs);
            ok && d == model_data(exp) && (obs.is_empty() == exp.is_empty())
        }
        _ => exp == obs,
    }
}

/// Whether `obs` is an order the properties allow for the groups: within a
/// group, replies first and every stream in order; groups in order.
pub fn ordered(groups: &[Vec<Msg>], obs: &[Msg]) -> bool {
    consume(groups, obs) == Some(obs.len())
}

/// Matches all groups against a prefix of `obs`; returns its length.
pub fn consume(groups: &[Vec<Msg>], obs: &[Msg]) -> Option<usize> {
    let mut i = 0;
    for g in groups {
        // Remaining expectation of the group, by stream.
        let mut rest: Vec<(Stream, Vec<&Msg>, usize)> = Vec::new();
        let mut left = 0usize;
        let mut replies = 0usize;
        for m in g {
            let s = m.stream();
            if s == Stream::Reply {
                replies += 1
            }
            left += 1;
            match rest.iter_mut().find(|r| r.0 == s) {
                Some(r) => r.1.push(m),
                None => rest.push((s, vec![m], 0)),
            }
        }
        while left > 0 {
            let m = obs.get(i)?;
            i += 1;
            let s = m.stream();
            if replies > 0 && s != Stream::Reply {
                return None;
            }
            let r = rest.iter_mut().find(|r| r.0 == s && !r.1.is_empty())?;
            if let Stream::Data(..) = s {
                let d = m.app_data()?;
                if m.payload[4] != 0 {
                    return None;
                }
                let want = &r.1[0].payload[13 + r.2..];
                if d.is_empty() || !want.starts_with(d) {
                    return None;
                }
                r.2 += d.len();
                if r.2 == r.1[0].payload.len() - 13 {
                    r.1.remove(0);
                    r.2 = 0;
                    left -= 1;
                }
                continue;
            }
            if r.1[0] != m {
                return None;
            }
            r.1.remove(0);
            left -= 1;
            if s == Stream::Reply {
                replies -= 1
            }
        }
    }
    Some(i)
}

fn by_stream<'a>(v: impl Iterator<Item = &'a Msg>) -> BTreeMap<Stream, Vec<&'a Msg>> {
    let mut m: BTreeMap<Stream, Vec<&Msg>> = BTreeMap::new();
    for x in v {
        m.entry(x.stream()).or_default().push(x)
    }
    m
}

/// Differences between the expected groups and the observation of one host.
pub fn diff_host(host: usize, groups: &[Vec<Msg>], obs: &[Msg], ctx: &Ctx) -> Vec<Diff> {
    if ordered(groups, obs) {
        return vec![];
    }
    let mut out = Vec::new();
    let exp = by_stream(groups.iter().flatten());
    let got = by_stream(obs.iter());
    let keys: BTreeSet<Stream> = exp.keys().chain(got.keys()).copied().collect();
    for k in keys {
        let none = vec![];
        let (e, o) = (exp.get(&k).unwrap_or(&none), got.get(&k).unwrap_or(&none));
        if same_stream(k, e, o) {
            continue;
        }
        let tags = attribute(host, k, e, o, ctx);
        out.push(Diff { tags, what: format!("host {host}, {k:?}: expected {e:?}, got {o:?}") });
    }
    if out.is_empty() {
        // Right messages, wrong order.
        let mut tags: Tags = Tags::new();
        for m in groups.iter().flatten().chain(obs.iter()) {
            match m.stream() {
                Stream::Status(_) => {
                    tags.insert("C04");
                }
                Stream::Device => {
                    tags.insert("C05");
                }
                Stream::Info(_) => {
                    tags.insert("C07");
                }
                Stream::Mcast(_) => {
                    tags.insert("C09");
                }
                Stream::Data(..) => {
                    tags.insert("C11");
                }
                _ => (),
            }
        }
        tags.insert("C02");
        out.push(Diff {
            tags,
            what: format!("host {host}: order: expected {groups:?}, got {obs:?}"),
        });
    }
    out
}

/// The properties that own a response.
fn reply_owner(m: &Msg, ctx: &Ctx, t: &mut Tags) {
    let p = &m.payload;
    match (m.mt, m.gid, m.oid) {
        (RSP, _, _) if p.len() == 1 && (p[0] == 7 || p[0] == 8) => {
            t.insert("C02");
        }
        (NTF, CORE, _) => {
            t.insert("C02");
        }
        (NTF, SCTL, _) => {
            t.insert("C11");
        }
        (_, CORE, 0) => {
            t.insert("C02");
            t.insert("C13");
        }
        (_, CORE, 4) => {
            t.insert("C21");
            if p.first() == Some(&1) {
                t.insert("C05");
            }
        }
        (_, CORE, 5) => {
            t.insert("C21");
            // Reads the device state (or both).
            if p.get(2) == Some(&0) || p.get(5) == Some(&0) {
                t.insert("C05");
            }
        }
        (_, CORE, _) | (_, ANDROID, _) => {
            t.insert("C21");
        }
        (_, SCFG, 0) | (_, SCFG, 1) | (_, SCFG, 5) | (_, SCFG, 6) => {
            t.insert("C03");
        }
        (_, SCFG, 3) => {
            t.insert("C06");
            if matches!(p.first(), Some(1 | 0x13 | 0x11)) {
                t.insert("C03");
            }
        }
        (_, SCFG, 4) => {
            t.insert("C06");
            if ctx.had_mcast {
                t.insert("C09");
            }
        }
        (_, SCFG, 7) => {
            t.insert("C09");
        }
        (_, SCTL, 0) | (_, SCTL, 1) => {
            t.insert("C03");
        }
        (_, SCTL, 3) => {
            t.insert("C07");
        }
        _ => {
            t.insert("C02");
        }
    }
}

fn attribute(host: usize, k: Stream, e: &[&Msg], o: &[&Msg], ctx: &Ctx) -> Tags {
    let mut t = Tags::new();
    let other_host = ctx.host.map_or(false, |h| h != host);
    match k {
        Stream::Reply => {
            let i = e.iter().zip(o.iter()).take_while(|(a, b)| a == b).count();
            match (e.get(i), o.get(i)) {
                (Some(x), Some(y)) => {
                    reply_owner(x, ctx, &mut t);
                    reply_owner(y, ctx, &mut t);
                    if (x.mt, x.gid, x.oid) != (y.mt, y.gid, y.oid) {
                        t.insert("C02");
                    }
                    if e.len() != o.len() {
                        t.insert("C02");
                    }
                }
                (Some(x), None) => {
                    t.insert("C01");
                    t.insert("C02");
                    reply_owner(x, ctx, &mut t);
                }
                (None, Some(y)) => {
                    t.insert("C02");
                    if y.mt == NTF {
                        reply_owner(y, ctx, &mut t);
                    }
                }
                _ => (),
            }
            let session_kind = e.get(i).or(o.get(i)).map_or(false, |m| m.gid == SCFG || m.gid == SCTL);
            let dev_cfg = e.get(i).map_or(false, |m| m.gid == CORE && m.oid == 5);
            if session_kind || dev_cfg {
                if ctx.had_reset || ctx.had_disconnect || other_host {
                    t.insert("C13");
                }
                if ctx.had_remove && e.get(i).map_or(false, |m| (m.gid, m.oid) != (SCFG, 4)) {
                    t.insert("C10");
                }
            }
            if ctx.segmented && !other_host {
                t.insert("C12");
            }
            if other_host {
                t.insert("C13");
            }
        }
        Stream::Status(s) => {
            t.insert("C04");
            if e.iter().chain(o.iter()).any(|m| matches!(m.payload.last(), Some(5 | 0x33))) {
                t.insert("C10");
            }
            if ctx.had_remove && ctx.cmd == Some((SCFG, 7)) {
                t.insert("C10");
            }
            if other_host || ctx.cmd == Some((CORE, 0)) || ctx.session.map_or(false, |x| x != s) {
                t.insert("C13");
            }
        }
        Stream::Device => {
            t.insert("C05");
            if ctx.connecting {
                t.insert("C14");
            }
            if other_host {
                t.insert("C13");
            }
        }
        Stream::Info(_) => {
            // Sequence number and number of notifications; the measurements.
            let seqs = |v: &[&Msg]| v.iter().map(|m| u32_at(&m.payload, 0)).collect::<Vec<_>>();
            if seqs(e) != seqs(o) {
                t.insert("C07");
                if ctx.had_remove {
                    t.insert("C10");
                }
            }
            let body = |v: &[&Msg]| {
                v.iter().map(|m| m.payload.get(9..).map(|x| x.to_vec())).collect::<Vec<_>>()
            };
            if seqs(e) == seqs(o) && body(e) != body(o) {
                t.insert("C08");
                if ctx.had_anchor {
                    t.insert("C15");
                }
                if ctx.had_disconnect {
                    t.insert("C14");
                }
                if ctx.had_mcast {
                    t.insert("C09");
                }
            }
            if t.is_empty() {
                t.insert("C07");
            }
            if ctx.had_reset || ctx.had_disconnect || other_host {
                t.insert("C13");
            }
        }
        Stream::Mcast(_) => {
            t.insert("C09");
            if other_host {
                t.insert("C13");
            }
        }
        Stream::Data(..) => {
            t.insert("C11");
            if ctx.had_disconnect {
                t.insert("C14");
            }
            if ctx.had_reset || ctx.had_disconnect {
                t.insert("C13");
            }
        }
        Stream::Other => {
            t.insert("C02");
            t.insert("C12");
        }
    }
    t
}
