//! UCI messages, written from the UCI grammar independently of the code under
//! test: command builders, segmentation, reassembly and the streams that the
//! properties speak about.
use mc_common::hex;

pub const DATA: u8 = 0;
pub const CMD: u8 = 1;
pub const RSP: u8 = 2;
pub const NTF: u8 = 3;

pub const CORE: u8 = 0;
pub const SCFG: u8 = 1;
pub const SCTL: u8 = 2;
pub const ANDROID: u8 = 0xc;

/// A complete (reassembled) message. For data messages `gid` holds the data
/// packet format.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Msg {
    pub mt: u8,
    pub gid: u8,
    pub oid: u8,
    pub payload: Vec<u8>,
}

impl std::fmt::Debug for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let k = ["DATA", "CMD", "RSP", "NTF", "?4", "?5", "?6", "?7"][self.mt as usize & 7];
        write!(f, "{k}({:x},{:02x}){}", self.gid, self.oid, hex(&self.payload))
    }
}

/// The ordered streams a host observes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Stream {
    /// Responses, direct replies to data messages, and the error notification
    /// that answers commands before the first reset.
    Reply,
    /// Session status notifications of a session.
    Status(u32),
    /// Device status notifications.
    Device,
    /// Session-info notifications of a session.
    Info(u32),
    /// Multicast list notifications of a session.
    Mcast(u32),
    /// Data messages received in a session from an address.
    Data(u32, [u8; 8]),
    Other,
}

pub fn u32_at(b: &[u8], i: usize) -> u32 {
    if b.len() < i + 4 {
        return u32::MAX;
    }
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap())
}

impl Msg {
    pub fn new(mt: u8, gid: u8, oid: u8, payload: Vec<u8>) -> Msg {
        Msg { mt, gid, oid, payload }
    }
    pub fn rsp(gid: u8, oid: u8, payload: Vec<u8>) -> Msg {
        Msg::new(RSP, gid, oid, payload)
    }
    pub fn dev_ntf(state: u8) -> Msg {
        Msg::new(NTF, CORE, 1, vec![state])
    }
    pub fn stream(&self) -> Stream {
        match (self.mt, self.gid, self.oid) {
            (RSP, _, _) => Stream::Reply,
            (NTF, CORE, 1) if self.payload == [0xff] => Stream::Reply,
            (NTF, CORE, 1) => Stream::Device,
            (NTF, SCFG, 2) => Stream::Status(u32_at(&self.payload, 0)),
            (NTF, SCFG, 7) => Stream::Mcast(u32_at(&self.payload, 0)),
            (NTF, SCTL, 0) => Stream::Info(u32_at(&self.payload, 4)),
            (NTF, SCTL, 4) | (NTF, SCTL, 5) => Stream::Reply,
            (DATA, 2, _) if self.payload.len() >= 13 => {
                Stream::Data(u32_at(&self.payload, 0), self.payload[5..13].try_into().unwrap())
            }
            _ => Stream::Other,
        }
    }
    /// The application data of a received data message.
    pub fn app_data(&self) -> Option<&[u8]> {
        if self.mt != DATA || self.payload.len() < 17 {
            return None;
        }
        let n = u16::from_le_bytes([self.payload[15], self.payload[16]]) as usize;
        if self.payload.len() != 17 + n {
            return None;
        }
        Some(&self.payload[17..])
    }

    /// A notification with as many measurements as its count can tell.
    pub fn full_info(&self) -> bool {
        (self.mt, self.gid, self.oid) == (NTF, SCTL, 0) && self.payload.get(24) == Some(&255)
    }

    /// Appends the measurements of another notification of the same round,
    /// both canonical.
    pub fn continue_info(&mut self, m: &Msg) -> bool {
        let (a, b) = (&self.payload, &m.payload);
        if (m.mt, m.gid, m.oid) != (NTF, SCTL, 0) || a.len() < 11 || b.len() < 11 || a[..10] != b[..10] {
            return false;
        }
        let size = 10 + if a[9] == 1 { 8 } else { 2 } + 1;
        let mut recs: Vec<&[u8]> = a[11..].chunks(size).chain(b[11..].chunks(size)).collect();
        recs.sort();
        let count = a[10].wrapping_add(b[10]);
        let mut p = a[..10].to_vec();
        p.push(count);
        recs.iter().for_each(|r| p.extend_from_slice(r));
        self.payload = p;
        true
    }

    /// Keeps what the properties speak about.
    pub fn canonical(&self) -> Msg {
        let mut m = self.clone();
        match (m.mt, m.gid, m.oid) {
            (NTF, SCTL, 0) => {
                if let Some(p) = canonical_info(&m.payload) {
                    m.payload = p
                }
            }
            // The overall status is "an error" unless all were ok.
            (RSP, SCFG, 7) if !m.payload.is_empty() => {
                if ![0, 1, 3, 8, 0x11].contains(&m.payload[0]) {
                    m.payload[0] = 0xee
                }
            }
            (RSP, _, _) => m.oid &= 0x3f,
            _ => (),
        }
        m
    }
}

/// Sequence number, session, indicator, and the sorted measurements (address,
/// status, distance, angles, destination angles).
fn canonical_info(p: &[u8]) -> Option<Vec<u8>> {
    // seq 4, session 4, rcr 1, interval 4, type 1, rfu 1, indicator 1, rfu 8
    if p.len() < 25 {
        return None;
    }
    let (ty, ind) = (p[13], p[15]);
    let n = p[24] as usize;
    let alen = match ind {
        0 => 2,
        1 => 8,
        _ => return None,
    };
    let size = 31;
    if ty != 1 || p.len() < 25 + n * size {
        return None;
    }
    let mut recs: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let r = &p[25 + i * size..25 + (i + 1) * size];
        let (a, f) = r.split_at(alen);
        let mut v = a.to_vec();
        v.push(f[0]); // status
        v.extend_from_slice(&f[2..4]); // distance
        v.extend_from_slice(&f[4..6]); // azimuth
        v.extend_from_slice(&f[7..9]); // elevation
        v.extend_from_slice(&f[10..12]); // destination azimuth
        v.extend_from_slice(&f[13..15]); // destination elevation
        recs.push(v);
    }
    recs.sort();
    let mut out = p[0..8].to_vec();
    out.push(ty);
    out.push(ind);
    out.push(n as u8);
    for r in recs {
        out.extend(r)
    }
    Some(out)
}

/// One measurement as the model states it.
#[derive(Clone, Debug)]
pub struct Meas {
    pub addr: Vec<u8>,
    pub local: (u16, i16, i8),
    pub remote: (u16, i16, i8),
}

/// The canonical form of a session-info notification.
pub fn info_ntf(seq: u32, session: u32, meas: &[Meas]) -> Msg {
    let ext = meas.iter().any(|m| m.addr.len() == 8);
    let mut recs: Vec<Vec<u8>> = meas
        .iter()
        .map(|m| {
            let mut v = m.addr.clone();
            v.resize(if ext { 8 } else { 2 }, 0);
            v.push(0);
            v.extend(m.local.0.to_le_bytes());
            v.extend(m.local.1.to_le_bytes());
            v.extend((m.local.2 as i16).to_le_bytes());
            v.extend(m.remote.1.to_le_bytes());
            v.extend((m.remote.2 as i16).to_le_bytes());
            v
        })
        .collect();
    recs.sort();
    let mut p = seq.to_le_bytes().to_vec();
    p.extend(session.to_le_bytes());
    p.push(1);
    p.push(ext as u8);
    p.push(meas.len() as u8);
    for r in recs {
        p.extend(r)
    }
    Msg::new(NTF, SCTL, 0, p)
}

// ------------------------------------------------------------ commands -----

/// An unsegmented control packet; the length byte is the low byte of the length.
pub fn ctrl(mt: u8, gid: u8, oid: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(mt << 5) | gid, oid, 0, payload.len() as u8];
    v.extend_from_slice(payload);
    v
}
pub fn cmd(gid: u8, oid: u8, payload: &[u8]) -> Vec<u8> {
    ctrl(CMD, gid, oid, payload)
}
pub fn reset() -> Vec<u8> {
    cmd(CORE, 0, &[0])
}
fn sid(s: u32, rest: &[u8]) -> Vec<u8> {
    let mut v = s.to_le_bytes().to_vec();
    v.extend_from_slice(rest);
    v
}
pub fn init(s: u32, ty: u8) -> Vec<u8> {
    cmd(SCFG, 0, &sid(s, &[ty]))
}
pub fn deinit(s: u32) -> Vec<u8> {
    cmd(SCFG, 1, &sid(s, &[]))
}
pub fn set_cfg(s: u32, tlvs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut p = vec![tlvs.len() as u8];
    for (id, v) in tlvs {
        p.push(*id);
        p.push(v.len() as u8);
        p.extend_from_slice(v);
    }
    cmd(SCFG, 3, &sid(s, &p))
}
pub fn get_cfg(s: u32, ids: &[u8]) -> Vec<u8> {
    let mut p = vec![ids.len() as u8];
    p.extend_from_slice(ids);
    cmd(SCFG, 4, &sid(s, &p))
}
pub fn get_count() -> Vec<u8> {
    cmd(SCFG, 5, &[])
}
pub fn get_state(s: u32) -> Vec<u8> {
    cmd(SCFG, 6, &sid(s, &[]))
}
/// Update of the multicast list; `keylen` is 0, 16 or 32.
pub fn mcast(s: u32, action: u8, addrs: &[[u8; 2]], keylen: usize) -> Vec<u8> {
    let mut p = vec![action, addrs.len() as u8];
    for a in addrs {
        p.extend_from_slice(a);
        p.extend_from_slice(&[7, 0, 0, 0]);
        p.extend(std::iter::repeat(0x5a).take(keylen));
    }
    cmd(SCFG, 7, &sid(s, &p))
}
pub fn start(s: u32) -> Vec<u8> {
    cmd(SCTL, 0, &sid(s, &[]))
}
pub fn stop(s: u32) -> Vec<u8> {
    cmd(SCTL, 1, &sid(s, &[]))
}
pub fn ranging_count(s: u32) -> Vec<u8> {
    cmd(SCTL, 3, &sid(s, &[]))
}
pub fn set_dev_cfg(p: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![p.len() as u8];
    for (id, x) in p {
        v.push(*id);
        v.push(x.len() as u8);
        v.extend_from_slice(x);
    }
    cmd(CORE, 4, &v)
}
pub fn get_dev_cfg(ids: &[u8]) -> Vec<u8> {
    let mut v = vec![ids.len() as u8];
    v.extend_from_slice(ids);
    cmd(CORE, 5, &v)
}
pub fn data_snd(s: u32, seq: u16, data: &[u8]) -> Vec<u8> {
    let mut p = sid(s, &[0; 8]);
    p.extend(seq.to_le_bytes());
    p.extend((data.len() as u16).to_le_bytes());
    p.extend_from_slice(data);
    data_pkt(1, &p)
}
pub fn data_pkt(dpf: u8, p: &[u8]) -> Vec<u8> {
    let mut v = vec![dpf, 0];
    v.extend((p.len() as u16).to_le_bytes());
    v.extend_from_slice(p);
    v
}

/// Splits an unsegmented control packet into segments with the given payload
/// sizes (the last one takes the rest).
pub fn segment(packet: &[u8], sizes: &[usize]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut rest = &packet[4..];
    let mut it = sizes.iter();
    loop {
        let n = it.next().copied().unwrap_or(255).min(rest.len());
        let (a, b) = rest.split_at(n);
        rest = b;
        let last = rest.is_empty() && it.len() == 0;
        let mut v = vec![packet[0] & 0xef | if last { 0 } else { 0x10 }, packet[1], 0, n as u8];
        v.extend_from_slice(a);
        out.push(v);
        if last {
            return out;
        }
    }
}

/// Segments a command as a well-behaved host would.
pub fn segments(packet: &[u8]) -> Vec<Vec<u8>> {
    if packet[0] >> 5 == DATA || packet.len() <= 4 + 255 {
        return vec![packet.to_vec()];
    }
    segment(packet, &[])
}

// --------------------------------------------------------- reassembly -----

/// Reassembles what a host receives, and checks the segmentation rules.
#[derive(Default, Clone)]
pub struct Reassembly {
    partial: [Option<Msg>; 2],
    /// Broken segmentation rules.
    pub errors: Vec<String>,
    pub segments: u64,
}

impl Reassembly {
    pub fn push(&mut self, seg: &[u8]) -> Option<Msg> {
        self.segments += 1;
        if seg.len() < 4 {
            self.errors.push(format!("segment shorter than a header: {}", hex(seg)));
            return None;
        }
        let (mt, pbf, gid, oid) = (seg[0] >> 5, (seg[0] >> 4) & 1, seg[0] & 0xf, seg[1]);
        let p = &seg[4..];
        let (len, max) = if mt == DATA {
            (u16::from_le_bytes([seg[2], seg[3]]) as usize, 1024)
        } else {
            (seg[3] as usize, 255)
        };
        if len != p.len() {
            self.errors.push(format!("length field {len} but payload {}: {}", p.len(), hex(seg)));
        }
        if p.len() > max {
            self.errors.push(format!("segment payload of {} bytes: {}", p.len(), hex(seg)));
        }
        if mt != DATA && seg[2] != 0 {
            self.errors.push(format!("reserved header byte {:02x}", seg[2]));
        }
        let slot = &mut self.partial[(mt == DATA) as usize];
        let m = match slot.take() {
            Some(mut m) => {
                if (m.mt, m.gid, m.oid) != (mt, gid, oid) {
                    self.errors.push(format!("segment of another message inside a message: {}", hex(seg)));
                }
                if p.is_empty() {
                    self.errors.push("empty segment".into())
                }
                m.payload.extend_from_slice(p);
                m
            }
            None => Msg::new(mt, gid, oid, p.to_vec()),
        };
        if pbf == 1 {
            *slot = Some(m);
            None
        } else {
            Some(m)
        }
    }
    pub fn incomplete(&self) -> bool {
        self.partial.iter().any(|p| p.is_some())
    }
}
